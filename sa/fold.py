"""Loops against folds.

A specification may say that a value is built by a fold: an initial state, a sequence of
passes and a step.  `prove` shows that the summary of a loop is that fold: the loop makes the
specified passes in the specified order, starts from the specified state and every transition
maps a state to the specified next one."""
import itertools
import compare
import facts as FX
from terms import *


class Fold:
    def __init__(self, passes, init, step, inv=None, name=''):
        self.passes = passes      # closed nodes, one item(UNIT) per pass
        self.init = init          # list of terms, or a Fold
        self.step = step          # step(binders, state) -> [(conditions, [terms] | Fold)]
        self.inv = inv            # inv(state) -> facts every state satisfies (proved inductively)
        self.name = name


class Joined:
    """a fold for the first components, the others given in terms of its result"""
    def __init__(self, fold, rest):
        self.fold = fold
        self.rest = rest


def fins(ts):
    out = set()
    for t in ts:
        if t is None:
            continue
        for x in subterms(t):
            if x.op == 'fin':
                out.add(x)
    return out


def prove(R, I, fs, terms, fold):
    """None, or why it could not be shown.  terms: one per state component (None = any local)"""
    fs = tuple(fs)
    if isinstance(fold, Joined):
        k = len(terms) - len(fold.rest(terms))
        w = prove(R, I, fs, terms[:k], fold.fold)
        return w if w is not None else prove(R, I, fs, terms[k:], fold.rest(terms[:k]))
    if not isinstance(fold, Fold):
        for i, (t, w) in enumerate(zip(terms, fold)):
            if t is not None and not compare.equal(fs, t, w):
                return 'component %d is %s, specified %s' % (i, str(t)[:400], str(w)[:400])
        return None
    lids = getattr(fold, 'lids', None)
    if lids is None:
        lids = sorted({x.a[0] for x in fins(terms)})
    why = 'no loop builds %s' % fold.name
    for lid in lids:
        lp = I.loops.get(lid)
        if lp is None or lp.tree is None:
            continue
        why = prove_loop(R, I, fs, terms, fold, lp)
        if why is None:
            return None
    return why


def prove_loop(R, I, fs, terms, fold, lp):
    if not compare.eq_nodes(fs, I.rebuild(lp.tree, lambda leaf: (item(UNIT),)), fold.passes):
        return '%s: the loop at %s does not make the specified passes' % (fold.name, lp.span)
    locs = {m['phi']: loc for loc, m in lp.mods.items() if m['kind'] != 'iter'}
    byk = {phi.a[1]: phi for phi in locs}
    want0 = fold.init
    if isinstance(want0, Fold):
        hidden0 = None
    # choose locals for the components that are not visible in the result
    hid = [i for i, t in enumerate(terms) if t is None]
    cands = []
    for i in hid:
        c = []
        for phi, loc in locs.items():
            if isinstance(want0, Fold) or compare.equal(fs, lp.mods[loc]['init'], want0[i]):
                c.append(phi)
        if not c:
            return '%s: no local starts as %s' % (fold.name, want0[i])
        cands.append(c)
    why = None
    for pick in itertools.product(*cands):
        why = attempt(R, I, fs, terms, fold, lp, locs, byk, dict(zip(hid, pick)))
        if why is None:
            for i, phi in zip(hid, pick):
                terms[i] = lp.final[phi]          # the caller sees which local it is
            return None
    return why


def attempt(R, I, fs, terms, fold, lp, locs, byk, pick):
    mine = [x for x in fins(terms) if x.a[0] == lp.id]
    tophi = {x: byk[x.a[1]] for x in mine if x.a[1] in byk}

    def at(f):
        """state terms with each local replaced by f(phi)"""
        mp = {phi: f(phi) for phi in locs}
        out = []
        for i, t in enumerate(terms):
            if t is None:
                out.append(f(pick[i]))
            else:
                out.append(subst(subst(t, tophi), mp))
        return out
    start = at(lambda phi: lp.mods[locs[phi]]['init'])
    w = prove(R, I, fs, start, fold.init)
    if w is not None:
        return '%s: initial state: %s' % (fold.name, w)
    state = at(lambda phi: phi)
    invs = tuple(fold.inv(state)) if fold.inv else ()
    if fold.inv and not all(FX.prove(fs, f) for f in fold.inv(start)):
        return '%s: the invariant does not hold at the start' % fold.name
    leaf = {e[1]: e for e in I.leaves(lp.tree)}
    path = binders(lp.tree)
    for tr in lp.trans:
        R.count('transitions')
        tfs = fs + tuple(tr['st'].facts) + invs
        nxt = at(lambda phi: tr['vals'][locs[phi]])
        bs = path[tr['leaf']]
        if contradictory(tfs):
            continue
        for conds, want in fold.step(bs, state):
            cfs = tfs + tuple(c for c in conds if c is not TRUE)
            if FALSE in cfs or contradictory(cfs):
                continue
            w = prove(R, I, cfs, nxt, want)
            if w is not None:
                return '%s: pass of the loop at %s: %s' % (fold.name, lp.span, w)
        if fold.inv and not all(FX.prove(tfs, f) for f in fold.inv(nxt)):
            return '%s: the invariant is not kept' % fold.name
    return None


contradictory = FX.contradictory


def binders(tree, pre=()):
    out = {}
    for e in tree:
        if e[0] == 'leaf':
            out[e[1]] = pre
        elif e[0] == 'for':
            out.update(binders(e[5], pre + (e[1],)))
        elif e[0] == 'alt':
            for _, x in e[1]:
                out.update(binders(x, pre))
    return out


# ------------------------------------------------------------------ in a model
def value(ev, fold):
    """state after the fold, in the model"""
    if isinstance(fold, Joined):
        st = value(ev, fold.fold)
        syms = [new_bv('s') for _ in st]
        ev.env.update(zip(syms, st))
        return st + [ev.ev(t) for t in fold.rest(syms)]
    if not isinstance(fold, Fold):
        return [ev.ev(t) for t in fold]
    st = value(ev, fold.init)
    if isinstance(fold.passes, tuple):
        nodes = fold.passes
    else:
        nodes = fold.passes(ev)
    box = [st]

    def walk(ns, bs):
        for n in ns:
            if n.op == 'item':
                syms = [new_bv('s') for _ in box[0]]
                for s, v in zip(syms, box[0]):
                    ev.env[s] = v
                for conds, want in fold.step(bs, syms):
                    if ev.guard(conds):
                        box[0] = value(ev, want)
                        break
            elif n.op == 'for':
                b, lo, hi, rev, body = open_for(n)
                r = range(ev.toint(ev.ev(lo)), ev.toint(ev.ev(hi)))
                for i in (reversed(r) if rev else r):
                    ev.env[b] = i
                    walk(body, bs + (b,))
            elif n.op == 'spl':
                b = new_bv('k')
                for i in range(len(ev.toseq(ev.ev(n.a[0])))):
                    ev.env[b] = i
                    walk((item(UNIT),), bs + (b,))
            else:
                from evalt import Undef
                raise Undef('pass ' + n.op)
    walk(nodes, ())
    return box[0]


def over(c):
    """one pass per element of a collection"""
    b = new_bv('k')
    return close_for(b, ZERO, length(c), False, (item(UNIT),))
