"""Where the characters go.

`Flow` shows that a list of tokens spells the text it was cut from: for every loop that builds
the list, the text of the list followed by the strings still being collected equals the text at
the start followed by what the loop has consumed, and at most one collected string is non-empty.
`every` shows that all elements of a string satisfy a predicate, by induction over the loop that
collects it."""
import itertools
import facts as FX
import compare
import interp
from terms import *


class NotShown(Exception):
    pass


def loop_loc(I, t):
    """(loop, location) of a loop-carried value"""
    lp = I.loops.get(t.a[0])
    if lp is None:
        raise NotShown('unknown loop')
    for loc, m in lp.mods.items():
        if m['kind'] != 'iter' and m['phi'].a[:2] == t.a[:2]:
            return lp, loc
    raise NotShown('loop state %s' % (t,))


class Flow:
    def __init__(self, I, text):
        """text(token term, facts) -> term: the text of one element of the list"""
        self.I = I
        self.text = text
        self.done = {}
        self.loops = 0
        self.transitions = 0

    # -------------------------------------------------------- text of a list
    def spell(self, t, fs):
        """nodes (characters) spelled by a token list"""
        if t.op == 'seq':
            return self.spell_nodes(t.a, fs)
        if t.op == 'phi':
            return (mk('spl', mk('txt', t)),)
        if t.op == 'fin':
            return self.finished(t, fs)
        raise NotShown('a token list from %s' % t.op)

    def spell_nodes(self, ns, fs):
        out = ()
        for n in ns:
            if n.op == 'item':
                out += nodes_of(self.text(n.a[0], fs))
            elif n.op == 'spl':
                out += self.spell(n.a[0], fs)
            elif n.op == 'for':
                b, lo, hi, rev, body = open_for(n)
                out += close_for(b, lo, hi, rev, self.spell_nodes(body, fs + (le(lo, b), lt(b, hi))))
            elif n.op == 'alt':
                out += (mk('alt', *[(g, self.spell_nodes(x, fs + tuple(g))) for g, x in n.a]),)
            else:
                raise NotShown('node %s' % n.op)
        return out

    def finished(self, t, fs):
        lp, loc = loop_loc(self.I, t)
        return (mk('spl', mk('txt', t)),)

    # -------------------------------------------------------- loops
    def loop(self, lp, loc):
        """prove the invariant of a loop; returns (accumulator fins, source nodes)"""
        k = (lp.id, loc)
        if k in self.done:
            return self.done[k]
        self.loops += 1
        T_ = lp.mods[loc]['phi']
        src, per = self.source(lp)
        accs = [l for l, m in lp.mods.items() if m['kind'] != 'iter' and l != loc and m['init'] is EMPTY]
        # only strings that end up in the list
        used = set()
        for tr in lp.trans:
            used |= {x for x in subterms(tr['vals'][loc])}
        accs = [l for l in accs if lp.mods[l]['phi'] in used]
        # or collected and flushed after the loop
        phis = [lp.mods[l]['phi'] for l in accs]

        def one(ps):
            return [disj(le0(length(a)), le0(length(b))) for a, b in itertools.combinations(ps, 2)]
        inv = tuple(one(phis))
        nonempty = ()
        for tr in lp.trans:
            self.transitions += 1
            fs = tuple(tr['st'].facts) + inv
            if FX.contradictory(fs):
                continue
            nxt = [tr['vals'][l] for l in accs]
            for g in one(nxt):
                if not FX.prove(fs, g):
                    raise NotShown('two collected strings may be non-empty after a pass of the loop at %s' % lp.span)
            before = lambda s: (mk('spl', mk('txt', T_)),) + tuple(mk('spl', x) for x in phis) + per(tr)
            after = lambda s: self.spell(tr['vals'][loc], s) + tuple(n for x in nxt for n in nodes_of(x))
            for case in self.cases(fs, phis):
                if not self.same(case, after(case), before(case)):
                    raise NotShown('a pass of the loop at %s (%s): the text becomes %s, consumed %s' % (
                        lp.span, [str(g)[:60] for g in tr['guards']][:6], show(after(case)), show(before(case))))
        fin = [lp.final[x] for x in phis]
        self.done[k] = (fin, one(fin), src, lp.mods[loc]['init'])
        return self.done[k]

    def cases(self, fs, phis):
        """one case per string that may be non-empty"""
        if len(phis) < 2:
            return [fs]
        out = []
        for keep in phis:
            c = fs + tuple(le0(length(x)) for x in phis if x is not keep)
            if not FX.contradictory(c):
                out.append(c)
        return out

    def source(self, lp):
        """what the loop consumes: (nodes, transition -> nodes consumed in that pass)"""
        tree = lp.tree
        if tree is None or len(tree) != 1 or tree[0][0] != 'for' or tree[0][4]:
            raise NotShown('the loop at %s is not one pass per element' % lp.span)
        _, b, lo, hi, rev, sub_ = tree[0]
        if lo is not ZERO or len(sub_) != 1 or sub_[0][0] != 'leaf' or hi.op != 'len':
            raise NotShown('the loop at %s is not one pass per element' % lp.span)
        c = hi.a[0]
        if lp.early:
            raise NotShown('the loop at %s may stop early' % lp.span)
        if c.op == 'call' and c.a[0] == 'split_word_bounds':
            return (mk('spl', c.a[2]),), lambda tr: nodes_of(elem(c, b))
        return nodes_of(c), lambda tr: (item(elem(c, b)),)

    def resolve(self, ns, fs):
        """replace the text of finished loops: txt(fin) ++ collected strings = text at the start ++ source"""
        out = []
        i = 0
        ns = list(ns)
        while i < len(ns):
            n = ns[i]
            if n.op == 'spl' and n.a[0].op == 'txt' and n.a[0].a[0].op == 'fin':
                t = n.a[0].a[0]
                lp, loc = loop_loc(self.I, t)
                accs, invs, src, init = self.loop(lp, loc)
                fs = fs + tuple(invs)
                if FX.contradictory(fs):
                    return None
                want = [a for a in accs if not FX.prove(fs, le0(length(a)))]
                got = []
                j = i + 1
                while j < len(ns) and ns[j].op == 'spl' and ns[j].a[0] in accs:
                    got.append(ns[j].a[0])
                    j += 1
                got = [a for a in got if not FX.prove(fs, le0(length(a)))]
                if sorted(x.u for x in want) != sorted(x.u for x in got) or len(want) > 1:
                    raise NotShown('collected text is not flushed after the loop at %s' % lp.span)
                pre = self.resolve(self.spell(init, fs), fs)
                out += list(pre if pre is not None else ()) + list(src)
                i = j
            else:
                out.append(n)
                i += 1
        return tuple(out)

    def same(self, fs, xs, ys):
        xs = compare.simp(fs, xs)
        ys = compare.simp(fs, ys)
        xs = self.resolve(xs, fs)
        if xs is None:
            return True
        return compare.eq_nodes(fs, xs, ys)

    def total(self, outs, want):
        for s, v in outs:
            fs = tuple(s.facts)
            if FX.contradictory(fs):
                continue
            if not self.same(fs, self.spell(v, fs), nodes_of(want)):
                raise NotShown('the result spells %s' % show(self.spell(v, fs)))


def show(ns):
    return str(mk('seq', *ns))[:400]


# ------------------------------------------------------------------ all elements satisfy
def every(I, t, P, fs, hyp=(), depth=0):
    """all elements x of the sequence t satisfy P(x) (a boolean term), under fs"""
    if depth > 12:
        return False
    if t.op == 'str':
        return all(P(mk('chr', c)) is TRUE or FX.prove(fs, P(mk('chr', c))) for c in t.a[0])
    if FX.prove(fs, le0(length(t))):
        return True
    if t.op == 'seq':
        return every_nodes(I, t.a, P, fs, hyp, depth)
    if t.op == 'phi' and t in hyp:
        return True
    if t.op in ('fin', 'phi'):
        try:
            lp, loc = loop_loc(I, t)
        except NotShown:
            return False
        phi = lp.mods[loc]['phi']
        if phi in hyp:
            return True
        if not every(I, lp.mods[loc]['init'], P, tuple(lp.entry.facts), hyp, depth + 1):
            return False
        return all(tr['vals'][loc] is phi or FX.contradictory(tuple(tr['st'].facts))
                   or every(I, tr['vals'][loc], P, tuple(tr['st'].facts), hyp + (phi,), depth + 1) for tr in lp.trans)
    k = new_bv('k')
    return holds_at(fs + (le(ZERO, k), lt(k, length(t))), t, k, P)


def every_nodes(I, ns, P, fs, hyp, depth):
    for n in ns:
        if n.op == 'item':
            if not FX.prove(fs, P(n.a[0])):
                return False
        elif n.op == 'spl':
            if not every(I, n.a[0], P, fs, hyp, depth + 1):
                return False
        elif n.op == 'for':
            b, lo, hi, rev, body = open_for(n)
            if not every_nodes(I, body, P, fs + (le(lo, b), lt(b, hi)), hyp, depth + 1):
                return False
        elif n.op == 'alt':
            for g, x in n.a:
                f2 = fs + tuple(g)
                if not FX.contradictory(f2) and not every_nodes(I, x, P, f2, hyp, depth + 1):
                    return False
        else:
            return False
    return True


def instances(fs, t, k):
    """universal facts among fs ("no element such that ..."), instantiated for element k of t"""
    out = []
    for f in fs:
        if f.op != 'le':
            continue
        c, it = parts(f.a[0])
        if c != 0 or len(it) != 1 or it[0][1] <= 0 or it[0][0].op != 'cnt':
            continue
        for n in it[0][0].a:
            if n.op != 'for':
                continue
            b, lo, hi, rev, body = open_for(n)
            # element referred to: t[b + shift]
            for sh in shifts(body, t, b):
                idx = sub(k, sh)
                if not (FX.prove(fs, le(lo, idx)) and FX.prove(fs, lt(idx, hi))):
                    continue
                for m in body:
                    if m.op == 'item':
                        out.append(FALSE)
                    elif m.op == 'alt':
                        for g, x in m.a:
                            if any(y.op == 'item' for y in x):
                                cj = TRUE
                                for q in g:
                                    cj = conj(cj, q)
                                out.append(neg(subst(cj, {b: idx})))
    return out


def shifts(body, t, b):
    out = set()
    for n in body:
        for x in subterms(mk('seq', n)):
            if x.op == 'elem' and x.a[0] is t:
                d = sub(x.a[1], b)
                if b not in subterms(d):
                    out.add(d)
    return sorted(out, key=lambda x: x.u)


def holds_at(fs, t, k, P):
    g = P(elem(t, k))
    fs2 = tuple(fs) + tuple(instances(fs, t, k))
    return FX.contradictory(fs2) or FX.prove(fs2, g)


def witnesses(fs):
    """existential facts among fs ("some element such that ..."), with a fresh name for the element"""
    out = []
    for f in fs:
        if f.op != 'le':
            continue
        c, it = parts(f.a[0])
        if c < 1 or len(it) != 1 or it[0][1] >= 0 or it[0][0].op != 'cnt' or len(it[0][0].a) != 1:
            continue
        n = it[0][0].a[0]
        if n.op != 'for':
            continue
        b, lo, hi, rev, body = open_for(n)
        if len(body) == 1 and body[0].op == 'alt' and len(body[0].a) == 1:
            out += [le(lo, b), lt(b, hi)] + list(body[0].a[0][0])
    return tuple(out)
