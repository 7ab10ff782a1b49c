"""C14 whole-line queries, C19 typed containers, C13 display."""
import random
from check import *
from fold import Fold, Joined, over
from spec import Spec, vec_of
from models import Mod
from evalt import Sym, Agg, T2, FMap, canon
from props import c04

TY = ('param', 'T')


def span_text(N, S, line, r):
    """text of the tokens of a span"""
    a, b = fld(r, 'tuple', 0), fld(r, 'tuple', 1)
    k = new_bv('k')
    t = N.F(elem(S.tokens(line), add(a, k)), 'LLToken', 'token')
    lt_ = N.adt('LToken')
    return seq(close_for(k, ZERO, add(sub(b, a), ONE), False, alt_nodes([((isv(t, lt_, 'Text'),), (mk('spl', vf(t, lt_, 'Text', 0)),))])))


def run_c14(ctx, R):
    N = ctx.N
    S = Spec(N)
    M = Mod(N)
    me = p('self')
    c04.found(ctx, R, 'find')
    b = R.anchor('query', 'query', 'LLLine')
    if b is not None:
        def rows(I):
            ty = ('param', b.generics[-1])
            ranges, _, _, values = S.attrs(me)
            l = mgetd(N.F(ranges, 'TypeIdToMany', 'map'), mk('tyid', ty))
            k = new_bv('k')
            r = elem(l, k)
            y = tup(r, span_text(N, S, me, r), mk('vals', N.F(mgetd(values, r), 'TypeBucket', 'map'), ty))
            return [((), seq(close_for(k, ZERO, length(l), False, (item(y),))))]

        def models():
            for n, ln, at in M.attr_lines(('param', b.generics[-1]), nmax=4):
                yield {me: ln}, {}
        R.guard('query', lambda: outcome_spec(R, 'query', b, rows, 'every span carrying the type once: token range, text of exactly its tokens, all its values', models), site(b))
    b = R.anchor('tokens', 'll_tokens', 'LLLine')
    if b is not None:
        R.guard('tokens', lambda: outcome_spec(R, 'tokens', b, lambda I: [((), S.tokens(me))], 'all tokens in order', lambda: [({me: M.plain(n)}, {}) for n in range(4)]), site(b))
    b = R.anchor('token', 'get_token', 'LLToken')
    if b is not None:
        R.guard('token', lambda: outcome_spec(R, 'token', b, lambda I: [((), N.F(me, 'LLToken', 'token'))], 'the token itself',
                                              lambda: [({me: t}, {}) for t in M.f(M.plain(4), 'LLLine', 'll_tokens')]), site(b))


# ------------------------------------------------------------------ C19
def run_c19(ctx, R):
    N = ctx.N
    S = Spec(N)
    M = Mod(N)
    me = p('self')
    key = lambda ty: canon(('tyid', ty))

    def buckets(ty=TY):
        for i in range(4):
            d = {}
            if i & 1:
                d[key(ty)] = Agg('dyn', None, ((Sym('a', (0,)), Sym('a', (1,))),))
            if i & 2:
                d[key(('adt', 'other', ()))] = Agg('dyn', None, ((Sym('b', (0,)),),))
            yield M.S('TypeBucket', map=FMap(d))
        for k in MODELS.HINT.many(5000):
            yield M.S('TypeBucket', map=FMap({key(ty): Agg('dyn', None, (tuple(Sym('a', (i,)) for i in range(k)),))}))
        for k in around():
            yield M.S('TypeBucket', map=FMap({key(ty): Agg('dyn', None, (tuple(Sym('a', (i,)) for i in range(k)),))}))
        for k in MODELS.HINT.many(100):
            for n in (0, 1, 3):
                yield M.S('TypeBucket', map=FMap(dict([(key(('adt', 'other%d' % i, ())), Agg('dyn', None, ((Sym('b', (i,)),),))) for i in range(k)]
                                                      + [(key(ty), Agg('dyn', None, (tuple(Sym('a', (i,)) for i in range(n)),)))] * bool(n))))

    def manys(ty):
        for i in range(4):
            d = {}
            if i & 1:
                d[key(ty)] = (Sym('a', (0,)), Sym('a', (1,)))
            if i & 2:
                d[key(('adt', 'other', ()))] = (Sym('b', (0,)), Sym('a', (1,)))
            yield M.S('TypeIdToMany', map=FMap(d))
        for k in MODELS.HINT.many(5000):
            for r in (1, -1):
                yield M.S('TypeIdToMany', map=FMap({key(ty): tuple(Sym('a', (i,)) for i in range(k))[::r]}))
        for k in around():
            yield M.S('TypeIdToMany', map=FMap({key(ty): tuple(Sym('a', (i,)) for i in range(k))}))
        for k in MODELS.HINT.many(100):
            for n in (0, 1, 3):
                yield M.S('TypeIdToMany', map=FMap(dict([(key(('adt', 'other%d' % i, ())), (Sym('b', (i,)),)) for i in range(k)] + [(key(ty), tuple(Sym('a', (i,)) for i in range(n)))] * bool(n))))

    def around():
        return sorted({k + e for k in MODELS.HINT.ints if k < 300 for e in (-1, 0, 1)} - {-1, 0})
    aa = N.byname.get('AnyAttribute')

    def anys():
        for t in (TY, ('adt', 'other', ())):
            yield Agg('Any', None, (t, Sym('v', (repr(t),))))

    def method(k, nm, ty, rows, rule, models=None):
        b = R.anchor(k, nm, ty, private=ty != 'AnyAttribute')
        if b is None:
            return
        g = b.generics[-1] if b.generics else None
        R.guard(k, lambda: outcome_spec(R, k, b, lambda I: rows(('param', g)), rule, (lambda: sized(models(('param', g)))) if models else None), site(b))

    def sized(ms):
        """the type of the values may be any, of no size too"""
        for env, F in list(ms):
            for n in (8, 0):
                yield env, dict(F, size_of=lambda ev, ta, n=n: n, align_of=lambda ev, ta: 1, needs_drop=lambda ev, ta, n=n: n > 0)
    H = 'self'
    map_ = lambda n: N.F(me, n, 'map')
    if 'TypeBucket' in N.byname:
        method('bucket.new', 'new', 'TypeBucket', lambda ty: [((), N.A('TypeBucket', map=mk('mempty')))], 'empty', lambda ty: [({}, {})])
        method('bucket.insert', 'insert', 'TypeBucket', lambda ty: [((), UNIT, {H: S.bucket(me, mk('tyid', ty), ty, p('arg2'))})],
               'appends to the values of its own type', lambda ty: [({me: x, p('arg2'): Sym('n', ())}, {}) for x in buckets(ty)])
        method('bucket.insert_any', 'insert_any_attribute', 'TypeBucket',
               lambda ty: [((), UNIT, {H: S.bucket(me, mk('tyid', ('anyty', p('arg2'))), ('anyty', p('arg2')), mk('anyval', p('arg2')))})],
               'appends to the values of its own type', lambda ty: [({me: x, p('arg2'): a}, {}) for x in buckets(TY) for a in anys()])
        method('bucket.get', 'get', 'TypeBucket', lambda ty: [((), mk('vals', map_('TypeBucket'), ty))], 'exactly the values of the type, in order',
               lambda ty: [({me: x}, {}) for x in buckets(ty)])

        def dbg(ty):
            c = mk('vals', map_('TypeBucket'), ty)
            k = new_bv('k')
            return [((), seq(close_for(k, ZERO, length(c), False, (item(mk('call', 'debug', (), elem(c, k))),))))]
        method('bucket.get_debug', 'get_debug', 'TypeBucket', dbg, 'debug text of exactly the values of the type, in order',
               lambda ty: [({me: x}, {}) for x in buckets(ty)])
        method('bucket.clear', 'clear', 'TypeBucket', lambda ty: [((), UNIT, {H: N.A('TypeBucket', map=mk('mempty'))})], 'empty',
               lambda ty: [({me: x}, {}) for x in buckets(ty)])
    else:
        R.add('bucket', OPEN, '', 'typed container', 'no TypeBucket')
    if 'TypeIdToMany' in N.byname:
        method('many.insert', 'insert_distinct', 'TypeIdToMany', lambda ty: [((), UNIT, {H: S.listed(me, mk('tyid', ty), p('arg2'))})],
               'adds the value to its type unless already there',
               lambda ty: [({me: x, p('arg2'): v}, {}) for x in manys(ty) for v in (Sym('a', (0,)), Sym('a', (1,)), Sym('n', ()))])
        method('many.insert_any', 'insert_any_distinct', 'TypeIdToMany', lambda ty: [((), UNIT, {H: S.listed(me, p('arg2'), p('arg3'))})],
               'adds the value to the given type unless already there',
               lambda ty: [({me: x, p('arg2'): ('tyid', t), p('arg3'): v}, {}) for x in manys(TY) for t in (TY, ('adt', 'other', ()))
                           for v in (Sym('a', (0,)), Sym('a', (1,)), Sym('n', ()))])
        method('many.get', 'get', 'TypeIdToMany', lambda ty: [((), mgetd(map_('TypeIdToMany'), mk('tyid', ty)))], 'exactly the values of the type, in order',
               lambda ty: [({me: x}, {}) for x in manys(ty)])
    else:
        R.add('many', OPEN, '', 'typed container', 'no TypeIdToMany')

    # prepared attributes
    def made(ty):
        a = N.P.adts[N.adt('AnyAttribute')]['variants'][0]['fields']
        if len(a) != 3:
            raise Missing('AnyAttribute')
        return [((), agg(N.adt('AnyAttribute'), None, mk('tyid', ty), mk('dyn', vec_of(ty), EMPTY), mk('dyn', ty, p('arg1'))))]
    method('any.new', 'new', 'AnyAttribute', made, 'type id, bucket and value all of one type', lambda ty: [({p('arg1'): Sym('v', ())}, {})])

    def ext(ty):
        c = mk('tyeq', *sorted((mk('ty', ('anyty', me)), mk('ty', ty)), key=lambda x: x.u))
        return [((c,), ok(mk('undyn', ty, mk('dyn', ('anyty', me), mk('anyval', me))))), ((neg(c),), err(me))]
    method('any.extract', 'extract', 'AnyAttribute', ext, 'the value as its own type, otherwise itself back', lambda ty: [({me: a}, {}) for a in anys()])
    method('any.type_id', 'type_id', 'AnyAttribute', lambda ty: [((), mk('tyid', ('anyty', me)))], "the value's type", lambda ty: [({me: a}, {}) for a in anys()])
    it = N.adt('InputToken')
    for k, var, n in (('text', 'Text', 2), ('custom', 'Custom', 2)):
        b = R.anchor('input.' + k, k, 'InputToken')
        if b is not None:
            fl = next(v for v in N.P.adts[it]['variants'] if v['name'] == var)['fields']
            order = {'text': 'arg1', 'size': 'arg1', 'attrs': 'arg2'}
            outcome_spec(R, 'input.' + k, b, lambda I: [((), agg(it, var, *[p(order[f['name']]) for f in fl]))], 'keeps text/size and attributes',
                         lambda: [({p('arg1'): ('x',) if var == 'Text' else 3, p('arg2'): (Sym('a', ()), Sym('b', ()))}, {})])
    b = R.anchor('input.add', 'add_attr', 'InputToken')
    if b is not None:
        def added(I):
            ty = ('param', b.generics[-1])
            out = []
            x = agg(N.adt('AnyAttribute'), None, mk('tyid', ty), mk('dyn', vec_of(ty), EMPTY), mk('dyn', ty, p('arg2')))
            for var in ('Text', 'Custom'):
                fl = next(v for v in N.P.adts[it]['variants'] if v['name'] == var)['fields']
                fs = []
                for i, f in enumerate(fl):
                    o = vf(me, it, var, i)
                    fs.append(seq(spl_nodes(o) + (item(x),)) if f['name'] == 'attrs' else o)
                out.append(((isv(me, it, var),), UNIT, {H: agg(it, var, *fs)}))
            return out
        R.guard('input.add', lambda: outcome_spec(
            R, 'input.add', b, added, 'appends the value with its own type to the input\'s attributes',
            lambda: [({me: Agg(it, v, tuple((Sym('z', ()),) if f['name'] == 'attrs' else ('x',) if f['name'] == 'text' else 3
                                            for f in next(q for q in N.P.adts[it]['variants'] if q['name'] == v)['fields'])), p('arg2'): Sym('v', ())}, {})
                     for v in ('Text', 'Custom')]), site(b))


# ------------------------------------------------------------------ C13
def run_c13(ctx, R):
    N = ctx.N
    S = Spec(N)
    M = Mod(N)
    me = p('self')
    rule = 'one row per value of the type, span by span'

    def incl(ty):
        line = N.F(me, 'LLLineDisplay', 'll_line')
        ranges, _, _, values = S.attrs(line)
        l = mgetd(N.F(ranges, 'TypeIdToMany', 'map'), mk('tyid', ty))
        k, j = new_bv('k'), new_bv('j')
        r = elem(l, k)
        vs = mk('vals', N.F(mgetd(values, r), 'TypeBucket', 'map'), ty)
        inner = close_for(j, ZERO, length(vs), True, (item(tup(r, mk('call', 'debug', (), elem(vs, j)))),))
        return N.A('LLLineDisplay', ll_line=line, include_attrs=seq(spl_nodes(N.F(me, 'LLLineDisplay', 'include_attrs')) +
                                                                    close_for(k, ZERO, length(l), False, inner)))

    def models(ty):
        def g():
            for n, ln, at in M.attr_lines(ty, nmax=3):
                yield {me: M.S('LLLineDisplay', ll_line=ln, include_attrs=(T2(T2(0, 0), ('x',)),))}, {}
                if n < 3 or len(at) > 8:
                    for k in [0] + MODELS.HINT.many():
                        yield {me: M.S('LLLineDisplay', ll_line=ln, include_attrs=tuple(T2(T2(0, 0), ('x', str(i))) for i in range(k)))}, {}
        return g
    for nm in ('include', 'with'):
        b = R.anchor(nm, nm, 'LLLineDisplay')
        if b is not None:
            ty = ('param', b.generics[-1])
            rows = (lambda I: [((), UNIT, {'self': incl(ty)})]) if nm == 'include' else (lambda I: [((), incl(ty))])
            R.guard(nm, lambda: outcome_spec(R, nm, b, rows, rule, models(ty)), site(b))

    def bare():
        """lines that carry attributes of every type the function mentions"""
        for ty in [('char',), ('adt', N.adt('TextTag'), ())] + MODELS.HINT.types:
            for n, ln, at in M.attr_lines(ty, nmax=3, reps=6):
                yield {p('arg1'): ln}, {}
    for key, b in (('new', R.anchor('new', 'new', 'LLLineDisplay')), ('debug_line', R.anchor('debug_line', 'debug_line', crate='layered_nlp'))):
        if b is not None:
            R.guard(key, lambda b=b, key=key: outcome_spec(R, key, b, lambda I: [((), N.A('LLLineDisplay', ll_line=p('arg1'), include_attrs=EMPTY))],
                                         'nothing included at first', bare), site(b))
    bs = [b for b in ctx.P.bodies.values() if b.kind == 'fn' and b.name == 'fmt' and (b.impl_trait or '').endswith('Display')
          and b.self_ty and b.self_ty[0] == 'adt' and b.self_ty[1].endswith('LLLineDisplay')]
    if not bs:
        R.add('fmt.anchor', REFUTED, '', 'the public item must exist', 'Display for LLLineDisplay not found')
        return
    b = bs[0]
    R.guard('fmt', lambda: parts_spec(R, 'fmt', b, fmt_rows(ctx, R), 'first row: token texts two columns apart; then per included value: indent, underline, debug text',
                                      fmt_models(ctx)), site(b))
    for ax in R.lemmas:
        FX.AXIOMS.remove(ax)
        ctx.lemmas.append(ax)
    FX._memo.clear()
    R.lemmas.clear()


WIDTH = 'UnicodeWidthStr::width'


def fmt_rows(ctx, R):
    N = ctx.N
    S = Spec(N)
    me, f = p('self'), p('arg2')
    line = N.F(me, 'LLLineDisplay', 'll_line')
    toks = S.tokens(line)
    incl = N.F(me, 'LLLineDisplay', 'include_attrs')
    lt_ = N.adt('LToken')
    sp = item(mk('chr', ' '))
    ch = lambda c: item(mk('chr', c))

    def rows(I, outs):
        ws = {t for s, v in outs for x in list(s.mem.values()) for t in c04.reach(I, s, x) if t.op == 'call' and short(t.a[0]) == WIDTH}
        wname, wt = (next(iter(ws)).a[0], next(iter(ws)).a[1]) if ws else (WIDTH, ())
        width = lambda t: mk('call', wname, wt, t)

        def step(flag):
            def go(bs, st):
                t = N.F(elem(toks, bs[0]), 'LLToken', 'token')
                text = spl_nodes(vf(t, lt_, 'Text', 0))
                out = []
                for first in (True, False):
                    c = eqi(bs[0], ZERO) if not flag else st[3]
                    c = c if first else neg(c)
                    pre = nodes_of(st[2]) + (() if first else (sp, sp))
                    for g, body in ((isv(t, lt_, 'Text'), text), (isv(t, lt_, 'Value'), (ch('<'), ch('>')))):
                        out.append(((c, g), [seq(spl_nodes(st[0]) + (item(width(seq(pre))),)),
                                             seq(spl_nodes(st[1]) + (item(width(seq(pre + tuple(body)))),)),
                                             seq(pre + tuple(body))] + ([FALSE] if flag else [])))
                return out
            return go

        def lemma(env):
            """consequences of the fold: one column pair per token, and columns grow along the line
            (the display width of a text never shrinks when text is appended)"""
            A, B = env['starts'], env['ends']

            def ax(t):
                if t.op == 'len' and (t.a[0] is A or t.a[0] is B):
                    return [eqi(t, length(toks))]
                if t.op == 'elem' and t.a[0] is A and t.a[1].op == 'fld' and t.a[1].a[1] == 'tuple' and t.a[1].a[2] == 0:
                    return [le(t, elem(B, fld(t.a[1].a[0], 'tuple', 1))), le(ZERO, t)]
                if t.op == 'elem' and t.a[0] is B and t.a[1].op == 'fld' and t.a[1].a[1] == 'tuple' and t.a[1].a[2] == 1:
                    return [le(elem(A, fld(t.a[1].a[0], 'tuple', 0)), t), le(ZERO, t)]
                if t.op == 'fld' and t.a[1] == 'tuple' and t.a[2] in (0, 1) and t.a[0].op == 'fld' and t.a[0].a[1] == 'tuple' \
                        and t.a[0].a[2] == 0 and t.a[0].a[0].op == 'elem' and t.a[0].a[0].a[0] is incl:
                    r = t.a[0]
                    return [le(fld(r, 'tuple', 0), fld(r, 'tuple', 1)), lt(fld(r, 'tuple', 1), length(toks))]
            return ax

        def text(env):
            A, B = env['starts'], env['ends']
            k, j, l = new_bv('k'), new_bv('j'), new_bv('l')
            x = elem(incl, k)
            r = fld(x, 'tuple', 0)
            a, e = elem(A, fld(r, 'tuple', 0)), elem(B, fld(r, 'tuple', 1))
            row = (ch('\n'),) + close_for(j, ZERO, a, False, (sp,)) + (ch('╰'),) + \
                close_for(l, add(a, ONE), sub(e, ONE), False, (ch('─'),)) + \
                alt_nodes([((le(add(a, num(2)), e),), (ch('╯'),))]) + spl_nodes(fld(x, 'tuple', 1))
            return seq(nodes_of(f) + spl_nodes(env['line']) + close_for(k, ZERO, length(incl), False, row))
        names = ('starts', 'ends', 'line', 'first')
        alts = []
        for flag in (True, False):
            init = [EMPTY, EMPTY, EMPTY] + ([TRUE] if flag else [])
            fo = Fold(over(toks), init, step(flag), name='columns')
            cands = sorted({t.a[0] for s, v in outs for t in c04.reach(I, s, s.mem[('h', 'arg2')]) if t.op == 'fin'})
            alts.append([((), [('fold', [None] * len(init), Named(fo, cands), names), ('lemma', lemma),
                               ('eq', lambda s, v: s.mem[('h', 'arg2')], text), ('eq', lambda s, v: v, ok(UNIT))])])
        return alts
    return rows


class Named(Fold):
    """a fold all of whose components are hidden: try the given loops"""
    def __init__(self, f, lids):
        Fold.__init__(self, f.passes, f.init, f.step, f.inv, f.name)
        self.lids = lids


DEBUG = ['D%d', 'D%d', '"D%d "', ' D%d', 'D%d ', 'D%d\nE', '%d', '\t日%d', 'D\u0301%d', '%.0s', 'D%d', '\\n%d']


def fmt_models(ctx):
    N = ctx.N
    M = Mod(N)

    def w(ev, ta, s):
        return sum(2 if 0x2e80 <= ord(c) < 0x1f000 else 0 if c in '\u0301\u200b\u200d' else 1 for c in s)

    def g():
        rnd = random.Random(8)
        H = MODELS.HINT
        ws = ['a', 'bcd', ' ', None, '日本', 'é', '\u0301', '\u200b', '\n'] + H.texts()
        for n in [0, 1, 2, 3] + H.sizes(3, 10):
            for _ in range(20):
                ln = M.line([rnd.choice(ws) for _ in range(n)], (), [rnd.choice((0, 0, 1, 2)) for _ in range(n)]) if _ % 4 == 3 else M.line([rnd.choice(ws) for _ in range(n)])
                rs = [(a, b) for a in range(n) for b in range(a, n)]
                inc = tuple(T2(T2(*rnd.choice(rs)), tuple(rnd.choice(DEBUG) % i)) for i in range(rnd.randrange(0, 4))) if rs else ()
                yield {p('self'): M.S('LLLineDisplay', ll_line=ln, include_attrs=inc), p('arg2'): ('>',)}, {WIDTH: w}
        for t in ('\u0301', '\u200b', 'a', None, '\u65e5', ' '):
            for l, rs in (([t], [(0, 0)]), (['x', t, 'y'], [(1, 1), (0, 1), (1, 2), (0, 2)]), ([t, t], [(0, 0), (1, 1), (0, 1)])):
                inc = tuple(T2(T2(*r), tuple('D%d' % i)) for i, r in enumerate(rs))
                yield {p('self'): M.S('LLLineDisplay', ll_line=M.line(l), include_attrs=inc), p('arg2'): ('>',)}, {WIDTH: w}
        for k in H.ints:
            if k > 400:
                continue
            ln = M.line(['x', ' ', 'y'])
            inc = tuple(T2(T2(0, 2), tuple('a' * max(k + e, 0) + '\u00e9\u65e5' * 3)) for e in (-2, -1, 0))
            yield {p('self'): M.S('LLLineDisplay', ll_line=ln, include_attrs=inc), p('arg2'): ('>',)}, {WIDTH: w}
        for k in H.many(400):
            ln = M.line(['x' * k, 'y', 'z' * k, '日'])
            inc = tuple(T2(T2(*r), tuple('D')) for r in ((0, 0), (1, 1), (2, 2), (3, 3), (0, 3)))
            yield {p('self'): M.S('LLLineDisplay', ll_line=ln, include_attrs=inc), p('arg2'): ('>',)}, {WIDTH: w}
        for k in H.many(100):
            ln = M.line(['x'] * k)
            inc = tuple(T2(T2(i, i), tuple('D%d' % i)) for i in range(k))
            yield {p('self'): M.S('LLLineDisplay', ll_line=ln, include_attrs=inc), p('arg2'): ('>',)}, {WIDTH: w}
    return g


META = {
    'C13': {'run': run_c13, 'floor': 5,
            'explanation': 'include/with/new and the Display implementation are summarised from MIR; the column loop is proved to be the specified '
                           'fold over the tokens and the text written to the formatter equal to the specified rows.'},
    'C14': {'run': run_c14, 'floor': 4,
            'explanation': 'find, query and the token accessors are summarised from MIR and proved equal to the specified comprehension over the '
                           'line\'s tokens, span lists and value buckets.'},
    'C19': {'run': run_c19, 'floor': 13,
            'explanation': 'Every method of the typed containers and of the prepared attribute is summarised from MIR (with TypeId, Any and '
                           'HashMap modelled) and proved equal to its specification for all concrete types.'},
}
