"""C20: every operation terminates.

(1) No recursion among the library's functions, other than a combinator asking its parts (types
nest finitely).  (2) Every loop of every function reachable from the public API is driven by a
finite sequence, or has a ranking: a quantity of the loop's state that strictly advances towards
a bound on every pass.  Loops inside std/core (iterator adapters over finite sources) are finite
by the std models; a source without end is outside the analysed fragment (open).  A loop without
a proof is run on in the small models of its function: one that returns to an earlier state or
does not stop is reported."""
import re
import props
from check import *
from models import Mod
from evalt import Agg, Sym, RunsOn, Panics
from props.c10 import collect, roots, label, programs, line_of
from props.c11 import Dispatch
import link


def selection_axioms(ctx, N):
    """what the specification of the selection operations (C07..C09, C06) says about where a result lies"""
    sel = N.adt('LLSelection')
    i_s, i_e = N.idx('LLSelection', 'start_idx'), N.idx('LLSelection', 'end_idx')
    S = lambda x: fld(x, sel, i_s)
    E = lambda x: fld(x, sel, i_e)

    def source(x):
        """(operation, its selection, other argument, index path) the selection-valued term x is a result of"""
        path = []
        while x.op in ('fld', 'vf', 'elem'):
            path.append((x.op, x.a[-1]))
            x = x.a[0]
        if x.op == 'call' and x.a[0].startswith('LLSelection::') and len(x.a) > 2:
            return x.a[0].split('::')[-1], x.a[2], (x.a[3] if len(x.a) > 3 else None), path
        return None

    def ax(t):
        if t.op != 'fld' or t.a[1] != sel or t.a[2] not in (i_s, i_e):
            return
        x = t.a[0]
        r = source(x)
        if r is None:
            return
        op, s, o, path = r
        if op in ('find_first_by', 'find_by'):
            return [le(S(s), S(x)), le(S(x), E(s)), le(S(x), E(x))]
        if op in ('match_first_forwards', 'match_forwards'):
            return [eqi(S(x), S(s)), le(add(E(s), ONE), E(x))]
        if op in ('match_first_backwards', 'match_backwards'):
            return [eqi(E(x), E(s)), le(add(S(x), ONE), S(s))]
        if op == 'after':
            return [eqi(S(x), add(E(s), ONE)), le(S(x), E(x))]
        if op in ('trim_start', 'trim_end', 'trim', 'split_by'):
            return [le(S(s), S(x)), le(E(x), E(s)), le(S(x), E(x))]
        if op == 'split_with':
            es = [a for o_, a in path if o_ == 'elem']
            if es and es[0] is ZERO:
                return [eqi(S(x), S(s)), le(E(x), E(s)), le(add(E(x), ONE), S(o)), le(S(x), E(x))]
            if es and es[0] is ONE:
                return [eqi(E(x), E(s)), le(S(s), S(x)), le(add(E(o), ONE), S(x)), le(S(x), E(x))]
    return ax


def measures(N, lp):
    """(what, loc, quantity, is it bounded from above) candidates over the variables of the loop"""
    sel = None
    try:
        sel = N.adt('LLSelection')
        i_l, i_s, i_e = (N.idx('LLSelection', x) for x in ('ll_line', 'start_idx', 'end_idx'))
    except Missing:
        pass
    for loc, m in lp.mods.items():
        path = loc[1]
        if sel and path and path[-1][:2] == ('f', sel):
            if path[-1][2] in (i_s, i_e):
                base = [(l, q) for l, q in lp.mods.items() if l[0] == loc[0] and l[1][:-1] == path[:-1] and l[1][-1] == ('f', sel, i_l)]
                yield loc, (lambda t: t), ('line', base[0][1]['phi'] if base else None)
            continue
        yield loc, (lambda t: t), None
        yield loc, (lambda t: length(t)), None
        if sel:
            for i in (i_s, i_e):
                yield loc, (lambda t, i=i: fld(t, sel, i)), ('sel', None)
                yield loc, (lambda t, i=i: fld(vf(t, OPTION, 'Some', 0), sel, i)), ('optsel', None)


def invariants(N, I, lp):
    """facts about where a selection of a loop stands, relative to where it began: kept by every pass"""
    out = []
    for loc, f, how in measures(N, lp):
        if how is None or how[0] == 'optsel':
            continue
        m = lp.mods[loc]
        init, phi = f(m['init']), f(m['phi'])
        for g in (le(init, phi), le(phi, init)):
            if all(FX.prove(known(I, lp, tr) + (g,), subst(g, {phi: f(tr['vals'][loc])}) if not occurs(phi, init) else FALSE) for tr in lp.trans):
                out.append(g)
    return out


def occurs(x, t):
    return any(y is x for y in subterms(t, set()))


def known(I, lp, tr):
    return tuple(lp.entry.facts) + tuple(tr['guards']) + tuple(f for f in tr['st'].facts if f not in lp.entry.facts)


def phis(lp):
    return {m['phi'] for m in lp.mods.values()}


def rank(ctx, N, I, lp, extra):
    """why the loop ends, or None"""
    mine = phis(lp)
    for loc, f, how in measures(N, lp):
        m = lp.mods[loc]
        phi = m['phi']
        q = f(phi)

        def every(goal):
            for tr in lp.trans:
                v = tr['vals'][loc]
                fs = known(I, lp, tr) + tuple(extra)
                if how and how[0] == 'optsel':
                    if v.op == 'agg' and v.a[:2] == (OPTION, 'None'):
                        continue
                    if not FX.prove(fs, isv(phi, OPTION, 'Some')):
                        return False
                    fs += (isv(v, OPTION, 'Some'),)
                elif v is phi:
                    return False
                if not goal(fs, q, f(v)):
                    return False
            return True
        name = re.sub(r'phi\d+_\d+', 'a variable of the loop', str(q))[:80]
        if every(lambda fs, a, b: FX.prove(fs, lt(b, a))):
            return '%s gets smaller on every pass and is never negative' % name
        if every(lambda fs, a, b: FX.prove(fs, lt(a, b))):
            if how:
                one = how[1] if how[0] == 'line' else None
                if how[0] == 'line':
                    ok = one is None or line_of(I, N, N.A('LLSelection', ll_line=one, start_idx=ZERO, end_idx=ZERO)) is not None
                elif how[0] == 'sel':
                    ok = line_of(I, N, phi) is not None
                else:
                    ok = False
                if ok:
                    return '%s advances on every pass and stays inside the line' % name
            for tr in lp.trans[:1]:
                for g in tr['guards']:
                    if g.op == 'le':
                        c, it = parts(g.a[0])
                        if any(t is q and k > 0 for t, k in it):
                            rest = [t for t, k in it if t is not q]
                            if not any(x in mine for t in rest for x in subterms(t, set())) and all(
                                    FX.prove(known(I, lp, t2) + tuple(extra), g) for t2 in lp.trans):
                                return '%s advances on every pass and is bounded by the condition %s' % (name, re.sub(r'phi\d+_\d+', 'x', str(g))[:80])
    return None


def recursion(ctx, G, live):
    """cycles of the call graph"""
    P = ctx.P
    out = {}
    for i in sorted(live):
        if i not in P.bodies:
            continue
        seen, todo = {}, [(j, i) for j, _ in G.out.get(i, ())]
        while todo:
            j, via = todo.pop()
            if j in seen or j not in P.bodies:
                continue
            seen[j] = via
            if j == i:
                break
            todo += [(k, j) for k, _ in G.out.get(j, ())]
        if i in seen:
            path, x = [i], seen[i]
            while x != i and len(path) < 20:
                path.append(x)
                x = seen[x]
            out[i] = path[::-1]
    return out


def nested_matcher(P, path):
    """the cycle goes through a matcher asking a part of its own type: the parts are smaller types"""
    for i in path:
        b = P.bodies[i]
        while b.kind == 'closure' and '::{closure' in b.id:
            b = P.bodies.get(b.id.rsplit('::{closure', 1)[0], None)
            if b is None:
                return False
        if not (b.impl_trait and b.impl_trait.split('::')[-1].split('<')[0] == 'XMatch' and b.name == 'go'):
            return False
    return True


def only_through_parts(G, P, path):
    """the calls on the cycle name no function of the library: they go through the trait, at the type of a part"""
    ids = set(path)
    for i in path:
        for j, f in G.out.get(i, ()):
            if j in ids and f is not None and j in P.bodies and not P.bodies[j].kind == 'closure':
                return False
    return True


def always(P, i):
    """the body calls itself on every path"""
    b = P.bodies[i]

    def calls_self(bl):
        t = bl['t']
        f = t.get('f') or t.get('func')
        return t.get('k') == 'call' and any(x == i for _, x in [(0, g.get('resolved') or g['id']) for k, g in __import__('cg').consts(t) if k == 'fn'])
    seen, todo = set(), [0]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        bl = b.blocks[n]
        if calls_self(bl):
            continue
        if bl['t'].get('k') == 'return':
            return False
        todo += b.succ(n) if hasattr(b, 'succ') else succs(bl['t'])
    return True


def succs(t):
    out = []
    for k in ('target', 'targets', 'otherwise', 't', 'to'):
        v = t.get(k)
        if isinstance(v, int):
            out.append(v)
        elif isinstance(v, list):
            out += [x if isinstance(x, int) else x[-1] for x in v if isinstance(x, int) or (isinstance(x, list) and x and isinstance(x[-1], int))]
    return out


def runs_on(R, ctx, I):
    """a model in which the function does not come to an end"""
    for linked in (False, True):
        if linked and not (link.unproved(ctx) or os.environ.get('SA_LINK')):
            continue
        for J, outs, models, pre, pid in ctx.reg:
            if J is not I and J.root.id != I.root.id:
                continue
            t0 = time.time()
            for env, funcs in models():
                if R.late(t0, 30):
                    break
                ev = Ev(J, env, link.funcs(ctx, funcs) if linked else funcs, 0)
                try:
                    if pre and not ev.guard(pre):
                        continue
                    o = ev.outcome(outs)
                    R.models += 1
                    if o is None:
                        continue
                    ev.ev(o[1])
                except RunsOn as e:
                    return describe(env), str(e)
                except (Undef, NotHere, TypeError, IndexError, KeyError) as e:
                    R.notes.append('%s: %r' % (I.root.name, e)) if len(R.notes) < 20 else None
    return None


def run_c20(ctx, R):
    P, N = ctx.P, ctx.N
    force = bool(os.environ.get('SA_FORCE'))
    progs = programs(ctx, R)
    G = Dispatch(P)
    rs = roots(ctx)
    live = set().union(*[G.reach(b.id) for b in rs]) if rs else set()
    # (1) recursion
    rule = 'no function of the library calls itself, other than a combinator asking its parts'
    rec = recursion(ctx, G, live)
    bad = 0
    for i, path in sorted(rec.items()):
        if nested_matcher(P, path) and only_through_parts(G, P, path):
            R.count('combinators asking their parts')
            continue
        bad += 1
        where = site(P.bodies[i])
        if len(path) == 1 and always(P, i):
            R.add('recursion.%s' % i, REFUTED, where, rule, '%s calls itself on every path' % i)
        else:
            R.add('recursion.%s' % i, OPEN, where, rule, 'a cycle of calls: %s' % ' -> '.join(path + path[:1]))
    if not bad:
        R.add('recursion', PROVED, '', rule, '%d reachable bodies, %d cycles, all through the parts of a combinator' % (
            len([i for i in live if i in P.bodies]), len(rec)))
    # (2) loops
    rule = 'every pass of a loop takes one element of a finite sequence, or advances a bounded quantity'
    held = not link.unproved(ctx)
    try:
        ax = selection_axioms(ctx, N) if held else None
    except Missing:
        ax = None
    if ax:
        FX.AXIOMS.append(ax)
    FX._memo.clear()
    done = {}
    for b, I, outs in progs:
        extra = []
        for lp in sorted(I.loops.values(), key=lambda l: l.id):
            if lp.tree is None and lp.trans:
                try:
                    extra += invariants(N, I, lp)
                except Missing:
                    pass
        for lp in I.loops.values():
            k = (lp.fn, lp.span)
            d = done.setdefault(k, {'b': b, 'n': 0, 'why': set(), 'bad': []})
            d['n'] += 1
            if lp.tree is not None:
                d['why'].add('takes the elements of a finite sequence')
            elif not lp.trans:
                d['why'].add('left on its first pass')
            else:
                try:
                    w = rank(ctx, N, I, lp, extra)
                except Missing as e:
                    w = None
                (d['why'].add(w) if w and not force else d['bad'].append((b, I, lp)))
    for (fn, span), d in sorted(done.items(), key=str):
        key = 'loop.%s.%s' % (fn.split('::')[-1] if '{closure' not in fn else '::'.join(fn.split('::')[-2:]), span.split(':')[-1])
        where = '%s (%s)' % (fn, span)
        R.count('loop summaries', d['n'])
        if not d['bad']:
            R.add(key, PROVED, where, rule, '%s (in %d summaries)' % ('; '.join(sorted(d['why'])), d['n']))
            continue

        def go(d=d, key=key, where=where):
            tried = set()
            for b, I, lp in d['bad']:
                if I.root.id in tried:
                    continue
                tried.add(I.root.id)
                sep = runs_on(R, ctx, I)
                if sep:
                    return R.add(key, REFUTED, where, rule, 'does not end in the model %s: %s' % sep)
            return R.add(key, OPEN, where, rule, 'no quantity shown to advance')
        R.guard(key, go, where, rule)
    # every loop of the MIR has been looked at
    seen = {lp.fn for _, I, _ in progs for lp in I.loops.values()} | {f for _, I, _ in progs for f in I.fn_seen}
    n = 0
    for i in sorted(live):
        b = P.bodies.get(i)
        if b is None:
            continue
        for h in b.loops:
            n += 1
            if i not in seen:
                R.add('loop.%s.%s' % (i, h), OPEN, site(b), rule, 'a loop in a body no summary covers')
    R.count('loops in MIR', n)
    R.count('reachable bodies', len([i for i in live if i in P.bodies]))
    if ax:
        FX.AXIOMS.remove(ax)
        FX._memo.clear()


META = {
    'C20': dict(run=run_c20, floor=8,
                explanation='The call graph (trait calls resolved to every implementation) has no cycle except combinators asking their parts; each loop '
                            'of every reachable body is driven by a finite sequence or has a ranking quantity proved to advance on every transition '
                            'of the loop summary within a bound.'),
}
