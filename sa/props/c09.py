"""C09: combinators."""
import random
from check import *
from models import Mod
from evalt import Sym, Agg, T2


def run(ctx, R):
    N = ctx.N
    M = Mod(N)
    d, line, me = p('arg2'), p('arg3'), p('self')

    def go(m, dr):
        return mk('call', 'XMatch::go', (), m, dr, line)

    def over(c, f):
        b = new_bv('k')
        return close_for(b, ZERO, length(c), False, f(elem(c, b)))

    def to(x):
        return fld(fld(x, 'tuple', 1), N.adt('ToIdx'), 0)

    def adj(dn, i):
        n = length(N.F(line, 'LLLine', 'll_tokens'))
        if dn == 'XForwards':
            return lt(add(i, ONE), n), N.T(dn, add(i, ONE))
        return lt(ZERO, i), N.T(dn, sub(i, ONE))

    def seq_rows(n, ty):
        def rows(dn):
            sub_ = [fld(me, N.adt(ty), i) for i in range(n)]

            def rec(i, dr, outs):
                def each(x):
                    o = outs + [fld(x, 'tuple', 0)]
                    if i + 1 == n:
                        return (item(tup(tup(*o), fld(x, 'tuple', 1))),)
                    c, nd = adj(dn, to(x))
                    return alt_nodes([((c,), rec(i + 1, nd, o))])
                return over(go(sub_[i], dr), each)
            return [((), seq(rec(0, d, [])))]
        return rows

    def all_rows(n, ty):
        def rows(dn):
            sub_ = [fld(me, N.adt(ty), i) for i in range(n)]

            def rec(i, xs):
                def each(x):
                    ys = xs + [x]
                    g = () if i == 0 else (eqi(to(xs[0]), to(x)),)
                    if i + 1 == n:
                        return alt_nodes([(g, (item(tup(tup(*[fld(y, 'tuple', 0) for y in ys]), fld(ys[0], 'tuple', 1))),))])
                    return alt_nodes([(g, rec(i + 1, ys))]) if g else rec(i + 1, ys)
                return over(go(sub_[i], d), each)
            return [((), seq(rec(0, [])))]
        return rows

    def any_rows(n, ty, en):
        def rows(dn):
            out = []
            conds = ()
            for i in range(n):
                c = go(fld(me, N.adt(ty), i), d)
                v = seq(over(c, lambda x, i=i: (item(tup(N.V(en, 'ABC'[i], fld(x, 'tuple', 0)), fld(x, 'tuple', 1))),)))
                ne = le(ONE, length(c))
                if i + 1 == n:
                    out.append((conds, v))
                else:
                    out.append((conds + (ne,), v))
                    conds = conds + (neg(ne),)
            return out
        return rows

    def models(ty, n, dn):
        def g():
            rnd = random.Random(7)
            for ln in range(1, 5):
                for _ in range(25 if ctx.tier == 'quick' else 200):
                    ms = [Sym('matcher', (i,)) for i in range(n)]
                    t = {m: M.matcher(rnd, ln) for m in ms}
                    for k in t:
                        fw, bw = t[k]
                        tag = lambda q, k=k: {i: tuple(Agg('tuple', None, (Sym('o', (k, y.fs[0])), y.fs[1])) for y in x) for i, x in q.items()}
                        t[k] = (tag(fw), tag(bw))
                    for i in range(ln):
                        yield {me: Agg(N.adt(ty), None, tuple(ms)), d: Agg(N.adt(dn), None, (i,)), line: M.plain(ln)}, {'XMatch::go': M.go(t)}
        return g

    def models(ty, n, dn, base=models):
        def g():
            yield from base(ty, n, dn)()
            rnd = random.Random(9)
            # longer lines, parts ending in few places
            for ln in MODELS.HINT.sizes(4, 40) + [8, 12]:
                for _ in range(12):
                    ms = [Sym('matcher', (i,)) for i in range(n)]
                    i0 = rnd.choice([0, ln - 1, rnd.randrange(ln)])
                    ends = [rnd.randrange(i0, ln) for _ in range(2)], [rnd.randrange(0, i0 + 1) for _ in range(2)]
                    ends = [sorted({x + dx for x in e for dx in (-1, 0, 1)}) for e in ends]
                    t = {}
                    for x, m in enumerate(ms):
                        t[m] = tuple({i: tuple(T2(Sym('o', (x, i, j)), M.to(e)) for j, e in enumerate(es) if (lo <= e < ln if side == 0 else 0 <= e <= i) and rnd.random() < 0.8)
                                      for i in range(ln) for lo in (i,)} for side, es in enumerate(ends))
                    yield {me: Agg(N.adt(ty), None, tuple(ms)), d: Agg(N.adt(dn), None, (i0,)), line: M.plain(ln)}, {'XMatch::go': M.go(t)}
            for k in sorted({k + e for k in MODELS.HINT.ints if 3 < k <= 300 for e in (-1, 0, 1)}):
                ln = k + 3
                for i0 in (0, 1) if dn == 'XForwards' else (ln - 1, ln - 2):
                    sg = 1 if dn == 'XForwards' else -1
                    at = [i0, i0 + sg, i0 + sg * (k - 1), i0 + sg * k, i0 + sg * (k + 1)]
                    at = [e for e in at if 0 <= e < ln]
                    ms = [Sym('matcher', (i,)) for i in range(n)]
                    t = {m: tuple({i: tuple(T2(Sym('o', (x, i, j)), M.to(e)) for j, e in enumerate(at) if (e >= i if side == 0 else e <= i) and rnd.random() < 0.7)
                                   for i in range(ln)} for side in (0, 1)) for x, m in enumerate(ms)}
                    yield {me: Agg(N.adt(ty), None, tuple(ms)), d: Agg(N.adt(dn), None, (i0,)), line: M.plain(ln)}, {'XMatch::go': M.go(t)}
            for k in MODELS.HINT.many():
                ms = [Sym('matcher', (i,)) for i in range(n)]
                for j in range(n + 1):
                    for ln in (1, 2, 3):
                        t = {}
                        for x, m in enumerate(ms):
                            fw, bw = M.rich(rnd, ln, k if j == x else k // 2 if j == n and n == 2 else 2)
                            tag = lambda q, m=m: {i: tuple(Agg('tuple', None, (Sym('o', (m, y.fs[0])), y.fs[1])) for y in z) for i, z in q.items()}
                            t[m] = (tag(fw), tag(bw))
                        for i in range(ln):
                            yield {me: Agg(N.adt(ty), None, tuple(ms)), d: Agg(N.adt(dn), None, (i,)), line: M.plain(ln)}, {'XMatch::go': M.go(t)}
        return g

    for ty, n, rows, rule in (
            ('Seq2', 2, seq_rows(2, 'Seq2'), 'each part begins at the token adjacent to where the previous ended'),
            ('Seq3', 3, seq_rows(3, 'Seq3'), 'each part begins at the token adjacent to where the previous ended'),
            ('All2', 2, all_rows(2, 'All2'), 'every combination of parts that end at the same token'),
            ('All3', 3, all_rows(3, 'All3'), 'every combination of parts that end at the same token'),
            ('AnyOf2Matcher', 2, any_rows(2, 'AnyOf2Matcher', 'AnyOf2'), 'all results of the first alternative that has any'),
            ('AnyOf3Matcher', 3, any_rows(3, 'AnyOf3Matcher', 'AnyOf3'), 'all results of the first alternative that has any')):
        b = R.anchor(ty, 'go', ty, 'XMatch')
        if b is None:
            continue
        for dn in ('XForwards', 'XBackwards'):
            try:
                ts = {b.generics[-1]: ('adt', N.adt(dn), ())}
                pre = (lt(N.F(d, dn, 'from_idx'), length(N.F(line, 'LLLine', 'll_tokens'))),)
            except Missing as e:
                R.add('%s.%s' % (ty, dn), OPEN, site(b), rule, str(e))
                continue
            outcome_spec(R, '%s.%s' % (ty, dn), b, lambda I, dn=dn: rows(dn), rule, models(ty, n, dn), tsubst=ts, pre=pre)

    # the tuple constructors keep the parts in order
    for tr, meth, t2, t3 in (('Seq', 'into_seq', 'Seq2', 'Seq3'), ('All', 'into_all', 'All2', 'All3'), ('AnyOf', 'into_any', 'AnyOf2Matcher', 'AnyOf3Matcher')):
        bs = [b for b in ctx.P.bodies.values() if b.kind == 'fn' and b.name == meth and b.impl_trait and b.impl_trait.split('::')[-1] == tr]
        for b in bs:
            n = len(b.self_ty[1]) if b.self_ty[0] == 'tuple' else 0
            if n not in (2, 3):
                continue
            nm = t2 if n == 2 else t3
            outcome_spec(R, '%s.%d' % (meth, n), b,
                         lambda I, nm=nm, n=n: [((), N.T(nm, *[fld(me, 'tuple', i) for i in range(n)]))],
                         'parts in the order given', lambda n=n: [({me: Agg('tuple', None, tuple(Sym('m', (i,)) for i in range(n)))}, {})])


META = {'C09': {
    'run': run, 'floor': 16,
    'explanation': 'The go method of every combinator is summarised from MIR for both directions with abstract sub-matchers and '
                   'proved equal to the specified comprehension over the sub-matchers\' results.',
}}
