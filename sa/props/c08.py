"""C08: basic matchers report all and only what is anchored at the position."""
from check import *
from models import Mod
from evalt import Sym, Agg


def over(c, f):
    b = new_bv('k')
    return close_for(b, ZERO, length(c), False, f(elem(c, b)))


def contains(set_, v):
    b = new_bv('m')
    return nonempty(close_for(b, ZERO, length(set_), False, alt_nodes([((eq(elem(set_, b), v),), (item(UNIT),))])))


class Idx:
    """the four indexes of a line"""

    def __init__(self, N, line):
        self.N = N
        a = N.F(line, 'LLLine', 'attrs')
        self.tokens = N.F(line, 'LLLine', 'll_tokens')
        self.starts = N.F(a, 'LLLineAttrs', 'starts_at')
        self.ends = N.F(a, 'LLLineAttrs', 'ends_at')
        self.ranges = N.F(a, 'LLLineAttrs', 'ranges')
        self.values = N.F(a, 'LLLineAttrs', 'values')

    def listed(self, many, ty):
        return mgetd(self.N.F(many, 'TypeIdToMany', 'map'), mk('tyid', ty))

    def vals(self, r, ty):
        return mk('vals', self.N.F(mgetd(self.values, r), 'TypeBucket', 'map'), ty)


def sets_():
    return [(), (0,), (0, 2), (2, 1, 0), (1, 1, 0, 1), (0, 0)] + [tuple(range(k, -1, -1)) for k in MODELS.HINT.many()]


def run(ctx, R):
    N = ctx.N
    M = Mod(N)
    to = lambda i: N.T('ToIdx', i)

    for dname, end, where in (('XForwards', 1, 'starts'), ('XBackwards', 0, 'ends')):
        me = p('self')

        def from_():
            return N.F(me, dname, 'from_idx')

        def pre(line):
            return (lt(from_(), length(N.F(line, 'LLLine', 'll_tokens'))),)

        def env_models(b, extra=None, argn='arg2', dname=dname):
            ty = ('param', b.generics[0]) if b.generics else ('param', 'T')

            def g():
                for n, ln, at in M.attr_lines(ty, 3, reps=10 if ctx.tier == 'quick' else 40):
                    for i in range(n):
                        env = {p('self'): Agg(N.adt(dname), None, (i,)), p(argn): ln}
                        for x in (extra() if extra else [{}]):
                            yield dict(env, **x) if False else {**env, **x}, {}
            return g

        def spec(name, rule, rows, models, prec):
            bs = N.fns(name, dname, 'XDirection')
            if len(bs) != 1:
                R.add('%s.%s' % (dname, name), OPEN, '', rule, 'no such direction method')
                return
            b = bs[0]
            try:
                pf = prec(b)
                ms = models(b)
            except Missing as e:
                R.add('%s.%s' % (dname, name), OPEN, site(b), rule, str(e))
                return
            outcome_spec(R, '%s.%s' % (dname, name), b, lambda I: rows(b), rule, ms, pre=pf)

        def anchored(line, ty):
            x = Idx(N, line)
            return x, x.listed(elem(x.starts if where == 'starts' else x.ends, from_()), ty)

        def r_attr(b):
            ty = ('param', b.generics[0])
            x, c = anchored(p('arg2'), ty)
            return [((), seq(over(c, lambda r: over(x.vals(r, ty), lambda v: (item(tup(v, to(fld(r, 'tuple', end)))),)))))]

        def r_attr_eq(b):
            ty = ('param', b.generics[0])
            x, c = anchored(p('arg3'), ty)
            return [((), seq(over(c, lambda r: over(x.vals(r, ty), lambda v: alt_nodes(
                [((eq(v, p('arg2')),), (item(tup(UNIT, to(fld(r, 'tuple', end)))),))])))))]

        def r_one_of(b):
            ty = ('param', b.generics[0])
            x = Idx(N, p('arg3'))
            r = tup(from_(), from_())
            return [((), seq(over(x.vals(r, ty), lambda v: alt_nodes(
                [((contains(p('arg2'), v),), (item(tup(v, to(from_()))),))]))))]

        def r_text(b):
            x = Idx(N, p('arg2'))
            t = N.F(elem(x.tokens, from_()), 'LLToken', 'token')
            lt_ = N.adt('LToken')
            return [((isv(t, lt_, 'Text'),), some(tup(vf(t, lt_, 'Text', 0), to(from_())))),
                    ((isv(t, lt_, 'Value'),), NONE)]

        def r_after(b):
            idx = p('arg2')
            n = length(N.F(p('arg3'), 'LLLine', 'll_tokens'))
            if dname == 'XForwards':
                c, v = lt(add(idx, ONE), n), N.T('XForwards', add(idx, ONE))
            else:
                c, v = lt(ZERO, idx), N.T('XBackwards', sub(idx, ONE))
            return [((c,), some(v)), ((neg(c),), NONE)]

        way = 'begins' if where == 'starts' else 'ends'
        spec('attr', 'every value whose span %s here, once per attachment, reaching the other end' % way, r_attr,
             lambda b: env_models(b), lambda b: pre(p('arg2')))
        eqs = lambda: [{p('arg2'): Sym('val', (i,))} for i in range(2)]
        spec('attr_eq', 'exactly the values equal to the given one', r_attr_eq,
             lambda b: env_models(b, eqs, 'arg3'), lambda b: pre(p('arg3')))
        sets = lambda: [{p('arg2'): tuple(Sym('val', (i,)) for i in s)} for s in sets_()]
        spec('token_attr_one_of', 'exactly the values of the single token that are in the set', r_one_of,
             lambda b: env_models(b, sets, 'arg3'), lambda b: pre(p('arg3')))
        spec('text_token', 'the text of the token itself', r_text, lambda b: env_models(b), lambda b: pre(p('arg2')))

        def after_models(b, dname=dname):
            def g():
                for n in range(1, 4):
                    for i in range(n):
                        yield {p('self'): Agg(N.adt(dname), None, (i,)), p('arg2'): i, p('arg3'): M.plain(n)}, {}
            return g
        spec('after', 'the adjacent token in the direction of travel, if any', r_after, after_models,
             lambda b: (lt(p('arg2'), length(N.F(p('arg3'), 'LLLine', 'll_tokens'))),))

    # the public matcher pieces hand over to the direction
    def piece(ty, rule, want, rows_extra=None):
        b = R.anchor(ty, 'go', ty, 'XMatch')
        if b is None:
            return
        dirs = ('XForwards', 'XBackwards')
        for d in dirs:
            key = '%s.%s' % (ty, d)
            g = b.generics[-1]
            dt = ('adt', N.adt(d), ())
            line = p('arg3')

            def opaque(body, fr):
                if body.impl_trait and body.impl_trait.split('::')[-1].split('<')[0] == 'XDirection':
                    return 'XDirection::' + body.name
                return None

            def go(b=b, g=g, dt=dt, key=key, d=d):
                # the direction's own methods are specified above; inline them and compare whole
                D = N.fn
                pre = (lt(N.F(p('arg2'), d, 'from_idx'), length(N.F(line, 'LLLine', 'll_tokens'))),)
                I, outs = ctx.analyse(b, tsubst={g: dt}, pre=pre)
                R.count('functions_summarised')
                R.reg(I, outs, lambda: piece_models(b, d), pre)
                rows = want(b, d)
                bad = compare.prove_outs(outs, rows)
                if bad is None:
                    return R.add(key, PROVED, site(b), rule, '%d outcomes' % len(outs))
                sep = separate(R, I, outs, rows, lambda: piece_models(b, d), pre)
                if sep:
                    return R.add(key, REFUTED, site(b), rule, 'in the model %s: %s' % sep)
                return R.add(key, OPEN, site(b), rule, 'not proved: %s expected %s' % (str(bad[1])[:300], str(bad[2][1])[:300]))
            R.guard(key, go, site(b), rule)

    def piece_models(b, d):
        ty = ('param', b.generics[0])
        tn = b.self_ty[1].split('::')[-1]
        for n, ln, at in M.attr_lines(ty, 3, reps=8 if ctx.tier == 'quick' else 30):
            for i in range(n):
                env = {p('arg2'): Agg(N.adt(d), None, (i,)), p('arg3'): ln}
                if tn == 'AttrEq':
                    for j in range(2):
                        yield {**env, p('self'): Agg(N.adt(tn), None, (Sym('val', (j,)),))}, {}
                elif tn == 'TokenHasAny':
                    for s in sets_():
                        yield {**env, p('self'): Agg(N.adt(tn), None, (tuple(Sym('val', (j,)) for j in s),))}, {}
                else:
                    yield {**env, p('self'): Agg(N.adt(tn), None, (Sym('zst', (0,)),))}, {}

    def anch(d, ty):
        x = Idx(N, p('arg3'))
        f = N.F(p('arg2'), d, 'from_idx')
        return x, x.listed(elem(x.starts if d == 'XForwards' else x.ends, f), ty), f, (1 if d == 'XForwards' else 0)

    def w_attr(b, d):
        ty = b.self_ty[2][0]
        x, c, f, end = anch(d, ty)
        return [((), seq(over(c, lambda r: over(x.vals(r, ty), lambda v: (item(tup(v, to(fld(r, 'tuple', end)))),)))))]

    def w_attr_eq(b, d):
        ty = [t for t in b.self_ty[2] if t[0] == 'param'][0]
        x, c, f, end = anch(d, ty)
        e = N.F(p('self'), 'AttrEq', 'attr')
        return [((), seq(over(c, lambda r: over(x.vals(r, ty), lambda v: alt_nodes([((eq(v, e),), (item(tup(UNIT, to(fld(r, 'tuple', end)))),))])))))]

    def w_has_any(b, d):
        ty = [t for t in b.self_ty[2] if t[0] == 'param'][0]
        x, c, f, end = anch(d, ty)
        s = N.F(p('self'), 'TokenHasAny', 'one_of')
        return [((), seq(over(x.vals(tup(f, f), ty), lambda v: alt_nodes([((contains(s, v),), (item(tup(v, to(f))),))]))))]

    def w_text(b, d):
        x, c, f, end = anch(d, ('param', 'T'))
        t = N.F(elem(x.tokens, f), 'LLToken', 'token')
        lt_ = N.adt('LToken')
        return [((isv(t, lt_, 'Text'),), seq((item(tup(vf(t, lt_, 'Text', 0), to(f))),))), ((isv(t, lt_, 'Value'),), EMPTY)]

    piece('Attr', 'attr: every value anchored here with the place its span reaches', w_attr)
    piece('AttrEq', 'attr_eq: exactly the anchored values equal to the given one', w_attr_eq)
    piece('TokenHasAny', 'token_has_any: exactly the single-token values contained in the set', w_has_any)
    piece('TokenText', 'token_text: exactly the text of the token itself', w_text)

    # constructors
    def ctor(name, want, rule, argm):
        b = R.anchor(name, name)
        if b is not None:
            outcome_spec(R, 'x::' + name, b, lambda I: [((), want())], rule, argm)
    one = lambda: [({p('arg1'): Sym('val', (0,))}, {}), ({p('arg1'): (Sym('val', (0,)),)}, {})]
    ctor('attr_eq', lambda: N.A('AttrEq', attr=p('arg1')), 'matches the value it was given', one)
    ctor('token_has_any', lambda: N.A('TokenHasAny', one_of=p('arg1')), 'matches the set it was given', one)
    ctor('whitespace', lambda: N.A('AttrEq', attr=N.V('TextTag', 'SPACE')), 'matches tokens tagged as space', lambda: [({}, {})])


META = {'C08': {
    'run': run, 'floor': 18,
    'explanation': 'The direction methods and the public matcher pieces (instantiated for both directions) are summarised from MIR '
                   'and proved equal to the comprehension over the values anchored at the position.',
}}
