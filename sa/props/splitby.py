from check import *
from models import Mod
from evalt import Agg


def check(ctx, R, b, models):
    """split_by: the running-maximum argument.

    find_by visits the matches in order of their first token.  With `next` = the first token not
    yet covered (initially the selection's start), a match (i, t) closes the piece next..i-1 when
    that is not empty and moves next to max(next, t+1); at the end next..end remains.  The pieces
    so produced are exactly the maximal runs of uncovered tokens."""
    N = ctx.N
    rule = 'returns, in order, every maximal run of tokens no match covers'
    I, outs = ctx.analyse(b)
    R.reg(I, outs, models, ())
    sel, m = p('self'), p('arg2')
    L = N.F(sel, 'LLSelection', 'll_line')
    s, e = N.F(sel, 'LLSelection', 'start_idx'), N.F(sel, 'LLSelection', 'end_idx')
    mksel = lambda x, y: N.A('LLSelection', ll_line=L, start_idx=x, end_idx=y)
    why = 'no single loop over the matches'
    loops = [l['loop'] for l in I.log if l['k'] == 'loop']
    if len(loops) == 1 and loops[0].tree is not None and not loops[0].early:
        why = prove(ctx, R, I, outs, loops[0], L, s, e, m, mksel)
        if why is None:
            return R.add('split_by', PROVED, site(b), rule, 'transition-wise equal to the running-maximum specification')

    M = Mod(N)

    def oracle(ev):
        S = ev.env[sel]
        a, z = M.f(S, 'LLSelection', 'start_idx'), M.f(S, 'LLSelection', 'end_idx')
        ln = M.f(S, 'LLSelection', 'll_line')
        cov = set()
        for i in range(a, z + 1):
            for x in ev.funcs['XMatch::go'](ev, (), ev.env[m], Agg(N.adt('XForwards'), None, (i,)), ln):
                cov |= set(range(i, x.fs[1].fs[0] + 1))
        out, cur = [], None
        for i in range(a, z + 2):
            if i <= z and i not in cov:
                cur = i if cur is None else cur
            elif cur is not None:
                out.append(M.sel(ln, cur, i - 1))
                cur = None
        return canon(tuple(out)), {}
    sep = separate(R, I, outs, oracle, models)
    if sep is not None:
        return R.add('split_by', REFUTED, site(b), rule, 'in the model %s: %s' % sep)
    return R.add('split_by', OPEN, site(b), rule, why)


def prove(ctx, R, I, outs, lp, L, s, e, m, mksel):
    N = ctx.N
    i = new_bv('i')
    c = mk('call', 'XMatch::go', (), m, N.T('XForwards', i), L)
    k = new_bv('k')
    src = close_for(i, s, add(e, ONE), False, close_for(k, ZERO, length(c), False, (item(UNIT),)))
    if not compare.eq_nodes((), I.rebuild(lp.tree, lambda leaf: (item(UNIT),)), src):
        return 'the loop does not visit the matches of find_by in order'
    fors = [x for x in I.fors(lp.tree)]
    if len(fors) != 2:
        return 'unexpected iteration'
    i, k = fors[0][1], fors[1][1]
    t = fld(fld(elem(mk('call', 'XMatch::go', (), m, N.T('XForwards', i), L), k), 'tuple', 1), N.adt('ToIdx'), 0)
    nxt = [(loc, x) for loc, x in lp.mods.items() if x['kind'] != 'iter' and x['init'] is s]
    pcs = [(loc, x) for loc, x in lp.mods.items() if x['kind'] != 'iter' and x['init'] is EMPTY]
    if len(nxt) != 1 or len(pcs) != 1 or len([1 for x in lp.mods.values() if x['kind'] != 'iter']) != 2:
        return 'loop state is not (next, pieces)'
    (ln, nx), (lq, pc) = nxt[0], pcs[0]
    phi, out = nx['phi'], pc['phi']
    inv_ = (le(s, phi),)
    if not all(FX.prove(tuple(tr['st'].facts) + inv_, le(s, tr['vals'][ln])) for tr in lp.trans):
        return 'next may leave the selection'
    for tr in lp.trans:
        fs = tuple(tr['st'].facts) + inv_
        R.count('transitions')
        if not compare.equal(fs, tr['vals'][ln], tmax(phi, add(t, ONE))):
            return 'next becomes %s' % tr['vals'][ln]
        want = seq((mk('spl', out),) + alt_nodes([((lt(phi, i),), (item(mksel(phi, sub(i, ONE))),))]))
        if not compare.equal(fs, tr['vals'][lq], want):
            return 'pieces become %s' % tr['vals'][lq]
    fn = lp.final[phi]
    fo = lp.final[out]
    rows = [((le(s, fn), le(fn, e)), seq((mk('spl', fo), item(mksel(fn, e))))), ((le(s, fn), lt(e, fn)), fo)]
    bad = compare.prove_outs(outs, rows)
    if bad is not None:
        return 'result %s under %s' % (bad[1], [str(f) for f in bad[0].facts])
    return None
