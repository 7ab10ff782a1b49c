"""C04 / C05 / C02 (line construction): attributes and positions."""
import random
import zlib
from check import *
import cg
from fold import Fold, Joined, over
from spec import Spec, vec_of
from models import Mod
from evalt import Sym, Agg, T2, Clo


def at_getters(N):
    def g(f):
        return lambda s, v: N.F(N.F(v, 'LLLine', 'attrs'), 'LLLineAttrs', f)
    return [g(f) for f in ('ranges', 'starts_at', 'ends_at', 'values')]


def toks_getter(N):
    return lambda s, v: N.F(v, 'LLLine', 'll_tokens')


# ------------------------------------------------------------------ run
def run_rows(ctx, body):
    N = ctx.N
    S = Spec(N)
    line, res = p('self'), p('arg2')
    n = length(S.tokens(line))
    sel = N.A('LLSelection', ll_line=line, start_idx=ZERO, end_idx=sub(n, ONE))

    def rows(I, outs):
        calls = {t for s, v in outs for t in reach(I, s, v) if t.op == 'call' and t.a[0].endswith('Resolver::go')}
        targs = {c.a[1] for c in calls} or {()}
        alts = []
        for ta in targs:
            go = mk('call', next(iter(calls)).a[0] if calls else 'Resolver::go', ta, res, sel)
            ty = ('other', '<R as ll_line::Resolver>::Attr')
            tys = {t.a[0] for s, v in outs for t in reach(I, s, v) if t.op == 'tyid'}
            for ty in sorted(tys, key=repr) or [ty]:
                def step(bs, st, go=go, ty=ty):
                    x = elem(go, bs[0])
                    r = tup(N.F(x, 'LLCursorAssignment', 'start_idx'), N.F(x, 'LLCursorAssignment', 'end_idx'))
                    return [((), S.attach(st, r, ty, N.F(x, 'LLCursorAssignment', 'value')))]
                f = Fold(over(go), S.attrs(line), step, name='attaching the assignments')
                alts.append([
                    ((lt(ZERO, n),), [('eq', toks_getter(N), S.tokens(line)), ('fold', at_getters(N), f)]),
                    ((le(n, ZERO),), [('eq', lambda s, v: v, line)])])
        return alts
    return rows


def reach(I, s, v):
    """terms of an outcome and of the loops it mentions"""
    seen, todo, loops = set(), [v] + list(s.facts), set()
    out = []
    while todo:
        t = todo.pop()
        for x in subterms(t, seen):
            out.append(x)
            if x.op in ('fin', 'phi') and x.a[0] not in loops:
                loops.add(x.a[0])
                lp = I.loops.get(x.a[0])
                if lp is None:
                    continue
                for tr in lp.trans:
                    todo.extend(tr['vals'].values())
                    todo.extend(tr['guards'])
                for m in lp.mods.values():
                    todo.append(m['init'])
    return out


def run_models(ctx):
    N = ctx.N
    M = Mod(N)

    def resolver(asg):
        """answers `asg` when asked about the whole line it was made for, else something that depends on the span asked about"""
        def go(ev, ta, r, s):
            try:
                a, b, n = M.f(s, 'LLSelection', 'start_idx'), M.f(s, 'LLSelection', 'end_idx'), len(M.f(M.f(s, 'LLSelection', 'll_line'), 'LLLine', 'll_tokens'))
            except (Missing, AttributeError, TypeError):
                return asg
            if (a, b) == (0, n - 1):
                return asg
            return tuple(Agg(x.adt, x.var, tuple(Sym('part', (a, b, y)) if isinstance(y, Sym) else y for y in x.fs)) for x in asg)
        return go

    def g():
        rnd = random.Random(3)
        R_ = Sym('resolver', (0,))
        ws = ['a', ' ', 'b', None, '1'] + MODELS.HINT.texts()
        H = MODELS.HINT
        top = max([2] + [k for k in H.ints if k <= 12]) + 2
        for n in [0, 1, 2, 3] + H.sizes(3):
            for _ in range(24 if ctx.tier == 'quick' else 80):
                rs = [(a, b) for a in range(n) for b in range(a, n)]
                at = []
                asg = ()
                if rs:
                    for j in range(rnd.randrange(0, top)):
                        at.append((rnd.choice(rs), rnd.choice([('other', '<R as ll_line::Resolver>::Attr'), ('adt', 'old', ())]), Sym('old', (j,))))
                    asg = tuple(M.S('LLCursorAssignment', start_idx=r[0], end_idx=r[1], value=Sym('new', (j,)))
                                for j, r in enumerate(rnd.choice(rs) for _ in range(rnd.randrange(0, top))))
                yield ({p('self'): M.line([rnd.choice(ws) for _ in range(n)], at), p('arg2'): R_},
                       {'Resolver::go': resolver(asg)})
        new = ('other', '<R as ll_line::Resolver>::Attr')
        for n in (2, 3, 4):
            rs = [(a, b) for a in range(n) for b in range(a, n)]
            for back in (1, 2, 3, 4, 5):
                # assignments that repeat a span after `back` others
                for late in (False, True):
                    sp = [rs[j % len(rs)] for j in range(back)]
                    asg = tuple(M.S('LLCursorAssignment', start_idx=a, end_idx=b, value=Sym('new', (j,))) for j, (a, b) in enumerate(sp if late else sp + sp))
                    at = [(r, new, Sym('old', (j,))) for j, r in enumerate(sp)] if late else []
                    yield ({p('self'): M.line([ws[i % 5] for i in range(n)], at), p('arg2'): R_}, {'Resolver::go': resolver(asg)})
        for n in H.long():
            asg = tuple(M.S('LLCursorAssignment', start_idx=a, end_idx=b, value=Sym('new', (a, b))) for a, b in ((0, 0), (n - 1, n - 1), (0, n - 1), (n - 2, n - 1), (n // 2, n // 2)))
            yield ({p('self'): M.line([ws[i % 5] for i in range(n)], []), p('arg2'): R_}, {'Resolver::go': resolver(asg)})
        for k in H.many():
            new = ('other', '<R as ll_line::Resolver>::Attr')
            for n in (1, 3, k):
                rs = [(a, b) for a in range(n) for b in range(a, n)]
                for pick in (lambda j: rs[0], lambda j: rs[j % len(rs)]):
                    at = [(pick(j), new, Sym('old', (j,))) for j in range(k)]
                    asg = tuple(M.S('LLCursorAssignment', start_idx=pick(j)[0], end_idx=pick(j)[1], value=Sym('new', (j,))) for j in range(k))
                    for a_, b_ in ((at, asg), (at[:1], asg), (at, asg[:1])):
                        yield ({p('self'): M.line([ws[i % 5] for i in range(n)], a_), p('arg2'): R_},
                               {'Resolver::go': resolver(b_)})
    return g


# ------------------------------------------------------------------ building a line
TOKENISER = 'tokeniser'


def tokeniser(ctx):
    """opacity: the functions that cut a text into (token, size) pairs are summarised
    separately (C01-C03); here they are an arbitrary function of the text"""
    G = cg.Graph(ctx.P)
    want = vec_of(('tuple', (('adt', ctx.N.adt('LToken'), ()), ('int', 'usize'))))
    ids = {b.id for b in ctx.P.bodies.values()
           if b.kind == 'fn' and b.locals[0] == want and G.calls(b.id, 'split_word_bounds')}
    return lambda body, fr: TOKENISER if body.id in ids else None


def line_rows(ctx, what):
    """what: tokens (C02), auto (C03: automatic attributes), attrs (C04: all of them)"""
    N = ctx.N
    S = Spec(N)
    inp, size = p('arg1'), p('arg2')
    it = N.adt('InputToken')
    F = lambda x, var, f: vf(x, it, var, N.idx('InputToken', f, var))

    def rows(I, outs):
        every = {t for s, v in outs for t in reach(I, s, v)}
        calls = {t for t in every if t.op == 'call' and t.a[0] == TOKENISER}
        ta = next(iter(calls)).a[1] if calls else ()

        def token(st, t, n):
            return N.A('LLToken', token_idx=length(st[0]), pos_starts_at=st[1], pos_ends_at=add(st[1], n), token=t)

        def outer(bs, st):
            x = elem(inp, bs[0])
            ts = mk('call', TOKENISER, ta, F(x, 'Text', 'text'), size)

            def inner(bs2, st2):
                y = elem(ts, bs2[-1])
                n = fld(y, 'tuple', 1)
                return [((), [seq(spl_nodes(st2[0]) + (item(token(st2, fld(y, 'tuple', 0), n)),)), add(st2[1], n)])]

            def span(new, attrs):
                return [seq(spl_nodes(st[2]) + (item(tup(length(st[0]), sub(length(new), ONE), attrs)),))] if len(st) > 2 else []
            cs = F(x, 'Custom', 'size')
            one = seq(spl_nodes(st[0]) + (item(token(st, N.V('LToken', 'Value'), cs)),))
            return [((isv(x, it, 'Text'),), Joined(Fold(over(ts), st[:2], inner, name='tokens of a text input'),
                                                  lambda new: span(new[0], F(x, 'Text', 'attrs')))),
                    ((isv(x, it, 'Custom'),), [one, add(st[1], cs)] + span(one, F(x, 'Custom', 'attrs')))]
        T = toks_getter(N)
        if what == 'tokens':
            return [[((), [('fold', [T, None], Fold(over(inp), [EMPTY, ZERO], outer, name='tokens of the inputs'))])]]
        f1 = Fold(over(inp), [EMPTY, ZERO, EMPTY], outer, name='tokens of the inputs')

        def auto(env):
            toks = env['toks']
            none = N.A('TypeIdToMany', map=mk('mempty'))
            many = seq(close_for(new_bv('k'), ZERO, length(toks), False, (item(none),)))

            def step(bs, st):
                t = N.F(elem(toks, bs[0]), 'LLToken', 'token')
                lt_ = N.adt('LToken')
                text, tag = vf(t, lt_, 'Text', 0), vf(t, lt_, 'Text', 1)
                r = tup(bs[0], bs[0])
                tagged = S.attach(st, r, ('adt', N.adt('TextTag'), ()), tag)
                both = S.attach(S.attach(st, r, ('char',), elem(text, ZERO)), r, ('adt', N.adt('TextTag'), ()), tag)
                one = eqi(length(text), ONE)
                return [((isv(t, lt_, 'Value'),), st), ((isv(t, lt_, 'Text'), one), both), ((isv(t, lt_, 'Text'), neg(one)), tagged)]
            return Fold(over(toks), [none, many, many, mk('mempty')], step, name='automatic attributes')

        def custom(env):
            pend = env['spans']

            def step(bs, st):
                x = elem(pend, bs[0])
                r = tup(fld(x, 'tuple', 0), fld(x, 'tuple', 1))
                l = fld(x, 'tuple', 2)
                return [((), Fold(over(l), st, lambda bs2, st2: [((), S.attach_any(st2, r, elem(l, bs2[-1])))], name='attributes of an input'))]
            return Fold(over(pend), auto(env), step, name='attributes of the inputs')
        return [[((), [('fold', [T, None, None], f1, ('toks', 'pos', 'spans')), ('fold', at_getters(N), custom)])]]
    return rows


def line_models(ctx, attrs=True):
    N = ctx.N
    M = Mod(N)
    import re

    def tk(ev, ta, text, size):
        out = []
        f = (lambda w: ev.funcs['fn'](ev, (), size, w)) if not isinstance(size, Clo) else (lambda w, g=ev.closure(size.t, 1): ev.toint(g(tuple(w))))
        for w in re.findall(r'[a-z]+[\u0300-\u036f\ufe00-\ufe0f\u200d]*|[0-9]+| +|\n|[^\n][\u0300-\u036f\ufe00-\ufe0f\u200d]*', ''.join(text), re.S):
            out.append(T2(M.V('LToken', 'Text', tuple(w), M.V('TextTag', M.tag(w))), f(w)))
        return tuple(out)

    def g():
        rnd = random.Random(5)
        F = Sym('size', (0,))
        # sizes of a text: longer than it, nothing for blanks, nothing at all
        size = [lambda ev, ta, f, t: 3 * len(t), lambda ev, ta, f, t: 0 if not ''.join(t).strip(' ,.') else len(t), lambda ev, ta, f, t: 0]
        anys = [Agg('Any', None, (('adt', t, ()), Sym('v', (t, i)))) for t in ('A', 'B') for i in (0, 1)] + [Agg('Any', None, (('tuple', ()), Sym('v', ('unit', 0))))]
        H = MODELS.HINT
        ws = ['a', 'ab', 'ab c', '1,a', '  ', 'abc', 'x y z', '\u00e9', 'a\n', '\u20ac5  ', 'a b c d', '\u65e5', '-', '.', 'e\u0301', '\u0301', '\u00df', '\U0001f600'] + H.texts()
        top = max([1] + [k for k in H.ints if k <= 12]) + 2
        for rep in range(120 if ctx.tier == 'quick' else 400):
            inp = []
            for _ in range(rnd.randrange(0, 4 if rep % 3 else max(4, top + 1))):
                at = tuple(rnd.choice(anys) for _ in range(rnd.randrange(top))) if attrs else ()
                v = rnd.choice(['Text', 'Text', 'Custom'])
                fl = next(x for x in N.P.adts[N.adt('InputToken')]['variants'] if x['name'] == v)['fields']
                d = {'text': tuple(rnd.choice(ws)), 'size': rnd.choice([0, 1, 2] + [k + e for k in H.ints[-2:] for e in (0, 1) if k + e < 2**40] if rep % 4 else [255, 256, 300, 65535, 65536, 70000, 2**32 - 1, 2**32, 2**33 + 5]), 'attrs': at}
                if {f['name'] for f in fl} != ({'text', 'attrs'} if v == 'Text' else {'size', 'attrs'}):
                    raise Missing('InputToken')
                inp.append(M.V('InputToken', v, *[d[f['name']] for f in fl]))
            yield {p('arg1'): tuple(inp), p('arg2'): F}, {TOKENISER: tk, 'fn': size[rep % 3]}
        if 'InputToken' in N.byname:
            order = lambda v: [f['name'] for f in next(x for x in N.P.adts[N.adt('InputToken')]['variants'] if x['name'] == v)['fields']]
            text = lambda t, at: M.V('InputToken', 'Text', *[{'text': tuple(t), 'attrs': at}[f] for f in order('Text')])
            for k in H.many():
                at = tuple(Agg('Any', None, (('adt', 'A', ()), Sym('v', (i,)))) for i in range(k)) if attrs else ()
                yield {p('arg1'): (text('ab c', at),), p('arg2'): F}, {TOKENISER: tk, 'fn': lambda ev, ta, f, t: 3 * len(t)}
                yield {p('arg1'): tuple(text('ab c', at[:1]) for _ in range(k)), p('arg2'): F}, {TOKENISER: tk, 'fn': lambda ev, ta, f, t: 3 * len(t)}
                yield {p('arg1'): (text('ab c' * k, at[:1]), text('x', at[:1])), p('arg2'): F}, {TOKENISER: tk, 'fn': lambda ev, ta, f, t: 3 * len(t)}
                kinds = tuple(Agg('Any', None, (('adt', 'A%d' % i, ()), Sym('v', (i,)))) for i in range(k)) if attrs else ()
                yield {p('arg1'): (text('ab c', kinds), text('x', kinds[:1] + kinds)), p('arg2'): F}, {TOKENISER: tk, 'fn': lambda ev, ta, f, t: 3 * len(t)}
            a1 = (Agg('Any', None, (('adt', 'A', ()), Sym('v', (1,)))),) if attrs else ()
            for t in dict.fromkeys(['\n', '\t', '\0', '\u3000', '\ufeff', '\u00a0'] + H.texts()[:60]):
                for u in (t, 'a ' + t + ' 1', t + t + 'a', 'a1' + t):
                    yield {p('arg1'): (text(u, a1), text('x', a1)), p('arg2'): F}, {TOKENISER: tk, 'fn': lambda ev, ta, f, t: 3 * len(t)}
            for n in H.long():
                yield {p('arg1'): (text('a ' * n, a1), text('x', a1), text('x y', a1 * 2)), p('arg2'): F}, {TOKENISER: tk, 'fn': lambda ev, ta, f, t: 3 * len(t)}
    return g


def run_c04(ctx, R):
    N = ctx.N
    b = R.anchor('line', 'create_line_from_input_tokens', crate='layered_nlp')
    if b is not None:
        R.guard('line.attributes', lambda: parts_spec(
            R, 'line.attributes', b, line_rows(ctx, 'attrs'),
            'automatic attributes on each token, attributes of an input on exactly its tokens, each in all four indexes',
            line_models(ctx), opaque=tokeniser(ctx), akey='tok'), site(b))
    b = R.anchor('run', 'run', 'LLLine')
    if b is not None:
        R.guard('run.attributes', lambda: parts_spec(
            R, 'run.attributes', b, run_rows(ctx, b), 'every assignment enters all four indexes under its own span and type', run_models(ctx)), site(b))


def run_c05(ctx, R):
    N = ctx.N
    M = Mod(N)
    b = R.anchor('run', 'run', 'LLLine')
    if b is not None:
        R.guard('run', lambda: parts_spec(
            R, 'run', b, run_rows(ctx, b),
            'tokens kept; attributes = the existing ones plus, in order, the assignments returned for the whole line; empty line unchanged',
            run_models(ctx)), site(b))
    b = R.anchor('finish_with_attr', 'finish_with_attr', 'LLSelection')
    if b is not None:
        me = p('self')

        def rows(I):
            return [((), N.A('LLCursorAssignment', start_idx=N.F(me, 'LLSelection', 'start_idx'),
                             end_idx=N.F(me, 'LLSelection', 'end_idx'), value=p('arg2')))]
        outcome_spec(R, 'finish_with_attr', b, rows, 'the assignment covers exactly the selection',
                     lambda: (({p('self'): M.sel(M.plain(n), s, e), p('arg2'): Sym('v', (0,))}, {})
                              for n in range(1, 5) for s in range(n) for e in range(s, n)))
    b = next(iter(
        x for x in ctx.P.bodies.values() if x.kind == 'fn' and x.name == 'finish_with' and (x.impl_trait or '').split('<')[0].endswith('FinishWith')), None)
    if b is None:
        R.add('finish_with.anchor', REFUTED, '', 'the public item must exist', 'FinishWith::finish_with not found')
    else:
        def rows(I):
            c = p('self')
            k = new_bv('k')
            x = elem(c, k)
            sel = fld(x, 'tuple', 0)
            y = N.A('LLCursorAssignment', start_idx=N.F(sel, 'LLSelection', 'start_idx'), end_idx=N.F(sel, 'LLSelection', 'end_idx'),
                    value=mk('call', 'fn', (), p('arg2'), fld(x, 'tuple', 1)))
            return [((), seq(close_for(k, ZERO, length(c), False, (item(y),))))]

        def models():
            ln = M.plain(4)
            rs = [(s, e) for s in range(4) for e in range(s, 4)]
            rnd = random.Random(2)
            for _ in range(40):
                yield {p('self'): tuple(T2(M.sel(ln, *rnd.choice(rs)), Sym('t', (i,))) for i in range(rnd.randrange(4 + len(MODELS.HINT.ints)))), p('arg2'): Sym('f', ())}, {}
            for k in MODELS.HINT.many(300):
                for _ in range(2):
                    yield {p('self'): tuple(T2(M.sel(ln, *rnd.choice(rs)), Sym('t', (i,))) for i in range(k)), p('arg2'): Sym('f', ())}, {}
            for a in rs:
                for b in rs:
                    for c in rs[:3]:
                        yield {p('self'): tuple(T2(M.sel(ln, *r), Sym('t', (i,))) for i, r in enumerate((a, b, c))), p('arg2'): Sym('f', ())}, {}
        outcome_spec(R, 'finish_with', b, rows, 'one assignment per pair, in order, on exactly its selection', models)


def run_c02(ctx, R):
    N = ctx.N
    M = Mod(N)
    b = R.anchor('line', 'create_line_from_input_tokens', crate='layered_nlp')
    if b is not None:
        R.guard('line.positions', lambda: parts_spec(
            R, 'line.positions', b, line_rows(ctx, 'tokens'),
            'tokens tile the line from 0; each extends by its size', line_models(ctx), opaque=tokeniser(ctx), akey='tok'), site(b))
    sizes(ctx, R)
    byte_sizes(ctx, R)
    found(ctx, R, 'find.positions')
    for nm, rows in (('range', lambda me: tup(N.F(me, 'LLLineFind', 'start_pos_at'), N.F(me, 'LLLineFind', 'end_pos_at'))),
                     ('attr', lambda me: N.F(me, 'LLLineFind', 'found'))):
        b = R.anchor('found.' + nm, nm, 'LLLineFind')
        if b is None:
            continue

        def mods():
            fl = [f['name'] for f in N.P.adts[N.adt('LLLineFind')]['variants'][0]['fields']]
            ks = sorted({0, 1, 2, 3, 8, 300, 2 ** 16, 2 ** 32 + 7} | {k + d_ for k in MODELS.HINT.ints for d_ in (0, 1)})
            for a in ks:
                for z in ks:
                    if a <= z:
                        d = {'start_pos_at': a, 'end_pos_at': z, 'found': Sym('v', ())}
                        yield {p('self'): Agg(N.adt('LLLineFind'), None, tuple(d.get(f, Sym('ph', ())) for f in fl))}, {}
        R.guard('found.' + nm, lambda b=b, rows=rows: outcome_spec(R, 'found.' + nm, b, lambda I: [((), rows(p('self')))],
                                                                   'reports the stored positions / value', mods), site(b))


def sizes(ctx, R):
    """every token cut from a text carries the caller's size of exactly its own text"""
    import props.c01 as c01
    N = ctx.N
    rule = 'every (token, size) pair has size = f(text of that token)'

    def go(b):
        I, outs = ctx.analyse(b, key='alone')
        n, why = 0, None
        try:
            for s, v in outs:
                for t, fs in pieces(I, s, v):
                    n += 1
                    k, w = token_size(ctx, t, fs)
                    if k is False:
                        why = w
        except interp.Unsupported as e:
            why = str(e)
        R.count('token_constructions', n)
        if n == 0:
            why = why or 'no token construction seen'

        def numbers(t):
            t = ''.join(t)
            big = [x for x in MODELS.HINT.ints if x > 3][-2:]
            return ([0, 1, 2, 7] + big + [x + 1 for x in big])[zlib.crc32(t.encode()) % (4 + 2 * len(big))]

        def models():
            for env, fs in c01.text_models(ctx)():
                yield env, fs
                yield env, dict(fs, fn=lambda ev, ta, f, t: numbers(ev.toseq(t)))

        def oracle(env, ev, s, v):
            f = env[p('arg2')]
            for t, tag, size in c01.read_tokens(N, ev, v):
                want = numbers(t or '') if 'fn' in ev.funcs else Sym('call', ('fn', f, tuple(t or '')))
                if t is not None and size != want:
                    return 'token %r of %r has size %s%s' % (t, ''.join(env[p('arg1')]), short_(size), ', f of it is %d' % want if 'fn' in ev.funcs else '')
        conclude(R, 'tokeniser.sizes', b, rule, why, I, outs, models, oracle, detail='%d constructions' % n)
    c01.each_tokeniser(ctx, R, 'tokeniser.sizes', rule, go)


def pieces(I, s, v):
    """items appended to the resulting token list, with the facts known there"""
    out = []
    done = set()

    def nodes(ns, fs):
        for n in ns:
            if n.op == 'item':
                out.append((n.a[0], fs))
            elif n.op == 'spl':
                term(n.a[0], fs)
            elif n.op == 'for':
                b, lo, hi, rev, body = open_for(n)
                nodes(body, fs + (le(lo, b), lt(b, hi)))
            elif n.op == 'alt':
                for g, x in n.a:
                    nodes(x, fs + tuple(g))
            elif n.op == 'gen':
                for g, x in n.a[1]:
                    nodes(x, fs + tuple(g))
            else:
                raise interp.Unsupported('node ' + n.op)

    def term(t, fs):
        if t.op == 'seq':
            nodes(t.a, fs)
        elif t.op in ('fin', 'phi'):
            if t.a[:2] in done:
                return
            done.add(t.a[:2])
            lp = I.loops.get(t.a[0])
            if lp is None:
                raise interp.Unsupported('loop')
            loc = next((l for l, m in lp.mods.items() if m['kind'] != 'iter' and m['phi'].a[:2] == t.a[:2]), None)
            if loc is None:
                raise interp.Unsupported('loop state')
            term(lp.mods[loc]['init'], fs)
            for tr in lp.trans:
                term(tr['vals'][loc], tuple(tr['st'].facts))
        else:
            raise interp.Unsupported('token list from %s' % t.op)
    term(v, tuple(s.facts))
    return out


def token_size(ctx, t, fs):
    N = ctx.N
    lt_ = N.adt('LToken')
    tok, n = fld(t, 'tuple', 0), fld(t, 'tuple', 1)
    if FX.contradictory(fs):
        return True, ''
    if not FX.prove(fs, isv(tok, lt_, 'Text')):
        return False, 'not a text token: %s' % str(tok)[:200]
    want = mk('call', 'fn', (), p('arg2'), vf(tok, lt_, 'Text', 0))
    if compare.equal(fs, n, want):
        return True, ''
    return False, 'size %s, specified %s' % (str(n)[:300], str(want)[:300])


def byte_sizes(ctx, R):
    """create_line_from_string: one text input without attributes, UTF-8 byte sizes"""
    import props.c01 as c01
    N = ctx.N
    b = R.anchor('from_string', 'create_line_from_string', crate='layered_nlp')
    c = R.anchor('line', 'create_line_from_input_tokens', crate='layered_nlp')
    if b is None or c is None:
        return
    rule = 'one text input, sizes are UTF-8 byte lengths'

    def go():
        I, outs = ctx.analyse(b, opaque=lambda body, fr: 'line' if body.id == c.id else None, key='line')
        for s, v in outs:
            if v.op != 'call' or v.a[0] != 'line':
                return R.add('from_string', OPEN, site(b), rule, 'not the general constructor: %s' % str(v)[:200])
            inp, f = v.a[2], v.a[3]
            want = seq((item(N.V('InputToken', 'Text', p('arg1'), EMPTY)),))
            if not compare.equal(tuple(s.facts), inp, want):
                return R.add('from_string', OPEN, site(b), rule, 'input %s' % str(inp)[:200])
            if f.op != 'clo':
                return R.add('from_string', OPEN, site(b), rule, 'size function %s' % str(f)[:200])
            body = ctx.P.bodies[f.a[0]]
            J, o2 = ctx.analyse(body, args=[f, p('text')], key='size')
            bad = [v2 for s2, v2 in o2 if not compare.equal(tuple(s2.facts), v2, blen(p('text')))]
            if bad or os.environ.get('SA_FORCE'):
                def mods():
                    for tx in ['a', 'é', 'ab', '日本', '1', ' ', '\U0001f600', 'e\u0301'] + c01.string_texts():
                        yield {p('text'): tuple(tx)}, {}
                sep = refute(R, J, o2, mods, lambda env, ev, s_, v_: None if ev.toint(ev.ev(v_)) == len(''.join(env[p('text')]).encode())
                             else 'the size is %s' % (ev.ev(v_),))
                if bad or sep:
                    return R.add('from_string', REFUTED if sep else OPEN, site(b), rule, sep or 'size %s' % str(bad[0])[:200])
        R.add('from_string', PROVED, site(b), rule, '%d outcomes' % len(outs))
    R.guard('from_string', go, site(b), rule)


def found(ctx, R, key):
    """LLLine::find"""
    N = ctx.N
    M = Mod(N)
    S = Spec(N)
    b = R.anchor(key, 'find', 'LLLine')
    if b is None:
        return
    me, m = p('self'), p('arg2')

    def rows(I):
        toks = S.tokens(me)
        i, k = new_bv('i'), new_bv('k')
        c = mk('call', 'XMatch::go', (), m, N.A('XForwards', from_idx=i), me)
        x = elem(c, k)
        to = fld(fld(x, 'tuple', 1), N.adt('ToIdx'), 0)
        fl = [f['name'] for f in N.P.adts[N.adt('LLLineFind')]['variants'][0]['fields']]
        d = {'start_pos_at': N.F(elem(toks, i), 'LLToken', 'pos_starts_at'), 'end_pos_at': N.F(elem(toks, to), 'LLToken', 'pos_ends_at'),
             'found': fld(x, 'tuple', 0)}
        ph = I_phantom(ctx)
        if set(fl) - set(d) - {'_phantom'}:
            raise Missing('LLLineFind')
        y = agg(N.adt('LLLineFind'), None, *[d.get(f, ph) for f in fl])
        return [((), seq(close_for(i, ZERO, length(toks), False, close_for(k, ZERO, length(c), False, (item(y),)))))]

    def models():
        rnd = random.Random(4)
        m0 = Sym('matcher', (0,))
        for n in [0, 1, 2, 3] + MODELS.HINT.sizes(3):
            for _ in range(20):
                ln = M.line([rnd.choice(['a', 'bcd', ' ', None] + MODELS.HINT.texts()) for _ in range(n)], (),
                            [rnd.choice([0, 1, 1, 3]) for _ in range(n)])
                yield {me: ln, m: m0}, {'XMatch::go': M.go({m0: M.matcher(rnd, n)})}
        for k in MODELS.HINT.many():
            for n in (1, 2, 3):
                yield {me: M.line(['a', 'bcd', ' '][:n], ()), m: m0}, {'XMatch::go': M.go({m0: M.rich(rnd, n, k)})}
            yield {me: M.line((['a', 'bcd', ' '] * k)[:k], ()), m: m0}, {'XMatch::go': M.go({m0: M.rich(rnd, k, 1)})}
        for k in MODELS.HINT.long():
            yield {me: M.line((['a', 'bcd', ' '] * k)[:k], ()), m: m0}, {'XMatch::go': M.go({m0: M.rich(rnd, k, 1)})}
    R.guard(key, lambda: outcome_spec(R, key, b, rows, 'the matcher is tried at every token; each result with the positions of its span', models), site(b))


def I_phantom(ctx):
    return agg('core::marker::PhantomData', None)


META = {
    'C02': {'run': run_c02, 'floor': 5,
            'explanation': 'The line-building loops are summarised from MIR and proved to be the specified fold (token index, start = previous end, '
                           'end = start + size); every (token, size) construction in the tokeniser is proved to use the size function on that '
                           'token\'s text; find is proved to report the start of the first and the end of the last token.'},
    'C04': {'run': run_c04, 'floor': 2,
            'explanation': 'The loops that attach attributes (line construction, running a resolver) are summarised from MIR and proved to be '
                           'folds of one attach operation that updates the span list, both anchor indexes and the value map consistently.'},
    'C05': {'run': run_c05, 'floor': 3,
            'explanation': 'LLLine::run is summarised from MIR and proved to keep the tokens and to fold the attach operation over exactly the '
                           'assignments the resolver returns for the whole-line selection, starting from the existing attributes.'},
}
