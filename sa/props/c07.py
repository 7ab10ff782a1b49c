"""C07: selection operations return exactly the documented spans."""
from check import *
from models import Mod

GO = 'XMatch::go'


def go(m, d, line):
    return mk('call', GO, (), m, d, line)


def run(ctx, R):
    N = ctx.N
    M = Mod(N)
    sel, m = p('self'), p('arg2')

    def parts_(x=sel):
        L = N.F(x, 'LLSelection', 'll_line')
        return L, N.F(x, 'LLSelection', 'start_idx'), N.F(x, 'LLSelection', 'end_idx'), length(N.F(L, 'LLLine', 'll_tokens'))

    def mksel(s, e, x=sel):
        return N.A('LLSelection', ll_line=parts_(x)[0], start_idx=s, end_idx=e)

    def fw(i):
        return N.T('XForwards', i)

    def bw(i):
        return N.T('XBackwards', i)

    def to(x):
        return fld(fld(x, 'tuple', 1), N.adt('ToIdx'), 0)

    def out(x):
        return fld(x, 'tuple', 0)

    def over(c, f):
        b = new_bv('k')
        return close_for(b, ZERO, length(c), False, (item(f(elem(c, b))),))

    models = lambda: M.selections(4 if ctx.tier == 'quick' else 5, 3 if ctx.tier == 'quick' else 8)

    def spec(name, rule, rows, models_=models):
        b = R.anchor(name, name, 'LLSelection')
        if b is not None:
            outcome_spec(R, name, b, rows, rule, models_)

    def t_match_forwards(first):
        def rows(I):
            L, s, e, n = parts_()
            c = go(m, fw(add(e, ONE)), L)
            f = lambda x: tup(mksel(s, to(x)), out(x))
            last = eqi(add(e, ONE), n)
            if not first:
                return [((last,), EMPTY), ((neg(last),), seq(over(c, f)))]
            ne = le(ONE, length(c))
            return [((last,), NONE), ((neg(last), neg(ne)), NONE), ((neg(last), ne), some(f(elem(c, ZERO))))]
        return rows

    def t_match_backwards(first):
        def rows(I):
            L, s, e, n = parts_()
            c = go(m, bw(sub(s, ONE)), L)
            f = lambda x: tup(mksel(to(x), e), out(x))
            last = eqi(s, ZERO)
            if not first:
                return [((last,), EMPTY), ((neg(last),), seq(over(c, f)))]
            ne = le(ONE, length(c))
            return [((last,), NONE), ((neg(last), neg(ne)), NONE), ((neg(last), ne), some(f(elem(c, ZERO))))]
        return rows

    spec('match_forwards', 'one result per match at the token after the selection; own start kept', t_match_forwards(False))
    spec('match_first_forwards', 'first result of match_forwards', t_match_forwards(True))
    spec('match_backwards', 'one result per match at the token before the selection; own end kept', t_match_backwards(False))
    spec('match_first_backwards', 'first result of match_backwards', t_match_backwards(True))

    def found(both=False):
        L, s, e, n = parts_()
        i = new_bv('i')
        body = over(go(m, fw(i), L), lambda x: tup(mksel(i, to(x)), out(x)))
        if both:
            body = body + over(go(m, bw(i), L), lambda x: tup(mksel(to(x), i), out(x)))
        return close_for(i, s, add(e, ONE), False, body)

    spec('find_by', 'every token of the selection is tried as a start, one result per match', lambda I: [((), seq(found()))])
    spec('find_by_forwards_and_backwards', 'every token is tried as a start and as an end', lambda I: [((), seq(found(True)))])

    def first_rows(I):
        ns = found()
        ne = nonempty(ns)
        return [((neg(ne),), NONE), ((ne,), some(first_of(ns)))]
    spec('find_first_by', 'first result of find_by', first_rows)

    def after_rows(I):
        L, s, e, n = parts_()
        last = eqi(add(e, ONE), n)
        return [((last,), NONE), ((neg(last),), some(mksel(add(e, ONE), sub(n, ONE))))]
    spec('after', 'exactly the rest of the line, absent when there is none', after_rows)

    def from_line(I):
        L = p('arg1')
        n = length(N.F(L, 'LLLine', 'll_tokens'))
        return [((le(n, ZERO),), NONE), ((le(ONE, n),), some(N.A('LLSelection', ll_line=L, start_idx=ZERO, end_idx=sub(n, ONE))))]
    spec('from_line', 'the whole line, absent for an empty line', from_line,
         lambda: (({p('arg1'): M.plain(n)}, {}) for n in range(4)))

    def split_with(I):
        L, s, e, n = parts_()
        o = p('arg2')
        os_, oe = N.F(o, 'LLSelection', 'start_idx'), N.F(o, 'LLSelection', 'end_idx')
        rows = []
        for c1, l in (((lt(s, os_), le(os_, e)), some(mksel(s, sub(os_, ONE)))), ((lt(s, os_), lt(e, os_)), some(mksel(s, e))), ((le(os_, s),), NONE)):
            for c2, r in (((lt(oe, e), le(s, oe)), some(mksel(add(oe, ONE), e))), ((lt(oe, s),), some(mksel(s, e))), ((le(e, oe),), NONE)):
                rows.append((c1 + c2, seq((item(l), item(r)))))
        return rows
    spec('split_with', 'the parts of the selection before and after the other selection', split_with,
         lambda: M.pairs(4))

    def trim(from_start, from_end):
        def rows(I):
            L, s, e, n = parts_()
            cf, cb = go(m, fw(s), L), go(m, bw(e), L)
            ss = [((), s)]
            if from_start:
                hit = le(ONE, length(cf))
                ss = [((neg(hit),), s), ((hit,), add(to(elem(cf, ZERO)), ONE))]
            ee = [((), e)]
            if from_end:
                hit = le(ONE, length(cb))
                ee = [((neg(hit),), e), ((hit,), sub(to(elem(cb, ZERO)), ONE))]
            out_ = []
            for c1, a in ss:
                for c2, b in ee:
                    # something of the selection is left
                    keep = conj(le(a, b), le(s, b))
                    out_.append((c1 + c2 + (keep,), some(mksel(a, b))))
                    out_.append((c1 + c2 + (neg(keep),), NONE))
            return out_
        return rows
    # a trailing match may begin before the selection, a leading one may end after it: nothing is left then
    spec('trim_start', 'drops exactly the first match at the start', trim(True, False))
    spec('trim_end', 'drops exactly the first match at the end', trim(False, True))
    spec('trim', 'drops exactly the first match at either end', trim(True, True))

    import props.splitby as sb
    b = R.anchor('split_by', 'split_by', 'LLSelection')
    if b is not None:
        R.guard('split_by', lambda: sb.check(ctx, R, b, models), site(b), 'maximal uncovered runs')


META = {'C07': {
    'run': run, 'floor': 12,
    'explanation': 'Each public selection operation is summarised from its MIR (all paths, loops as comprehensions or transition '
                   'summaries) and its summary proved equal to the specified spans for every selection, line and matcher.',
}}
