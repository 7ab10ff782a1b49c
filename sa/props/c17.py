"""C17: amounts.  The scan is compared with a decision table over the selection operations (C07)."""
import itertools
import random
from check import *
from models import Mod
from evalt import Agg, Sym, T2, Some, NONEV
import sem
from props.c15 import analyse, call, got, differ, assign

DOT = item(mk('chr', '.'))


def chars(t):
    """the characters of a literal list, as a set"""
    out = set()
    for n in nodes_of(t):
        if n.op != 'item' or n.a[0].op != 'chr':
            return None
        out.add(n.a[0].a[0])
    return out


class Shape:
    """the matchers the scan uses, by what they match"""

    def __init__(self, N, I, lids, delims, decimal):
        self.N = N
        num = ('adt', N.adt('AttrEq'), (('adt', N.adt('TextTag'), ()),)), N.T('AttrEq', N.V('TextTag', 'NATN'))
        txt = ('adt', N.adt('TokenText'), ()), N.T('TokenText', UNIT)
        any_ = ('adt', N.adt('TokenHasAny'), (('char',),))
        self.nm = self.dl = self.dm = None
        for lid in lids:
            lp = I.loops[lid]
            for g in [g for e in lp.trans + lp.early for g in e['guards']]:
                for t in subterms(g):
                    if t.op != 'call' or t.a[0] not in ('LLSelection::match_first_forwards', 'LLSelection::find_first_by'):
                        continue
                    ty, m = t.a[1], t.a[3]
                    if ty == (any_,):
                        l = m.a[2] if m.op == 'agg' else None
                        if l is None:
                            continue
                        if l is delims or (chars(l) is not None and chars(l) == chars(delims)):
                            self.dl = ty, m
                        if compare.equal((), l, seq((item(decimal),))):
                            self.dm = ty, m
                    for k, (a, b) in enumerate([(num, txt), (txt, num)]):
                        if ty == (('adt', N.adt('All2'), (a[0], b[0])),) and \
                                m is mk('call', 'All::into_all', (('tuple', (a[0], b[0])),), tup(a[1], b[1])):
                            self.nm = ty, m
                            self.at = 1 - k
        if not (self.nm and self.dl and self.dm):
            raise Missing('matchers of the scan')

    def step(self, sel, m):
        return call('match_first_forwards', m[0], sel, m[1])

    def find(self, sel):
        return call('find_first_by', self.nm[0], sel, self.nm[1])

    def sel(self, t):
        return fld(vf(t, OPTION, 'Some', 0), 'tuple', 0)

    def text(self, t):
        return fld(fld(vf(t, OPTION, 'Some', 0), 'tuple', 1), 'tuple', self.at)


def some_(t):
    return isv(t, OPTION, 'Some')


def parts_of(N, sel):
    return [N.F(sel, 'LLSelection', f) for f in ('ll_line', 'start_idx', 'end_idx')]


def phi_of(lp, fs, want, N=None):
    """the local of the loop that starts as `want`"""
    for loc, m in lp.mods.items():
        if compare.equal(fs, m['init'], want):
            return loc, m['phi']
    return None


def selection_state(N, lp, fs, want):
    """the selection held by the loop that starts as `want`: ([locations], term over its phis)"""
    r = phi_of(lp, fs, want)
    if r:
        return [r[0]], r[1], lambda vals: vals[r[0]]
    # field by field, in one place
    hits = []
    for f, w in zip(('ll_line', 'start_idx', 'end_idx'), parts_of(N, want)):
        hits.append([(loc, m['phi']) for loc, m in lp.mods.items() if compare.equal(fs, m['init'], w)])
    for cand in itertools.product(*hits):
        if len({loc[0] if isinstance(loc, tuple) else loc for loc, _ in cand}) == 1:
            mk_ = lambda g: N.A('LLSelection', **dict(zip(('ll_line', 'start_idx', 'end_idx'), [g(loc, phi) for loc, phi in cand])))
            return [l for l, _ in cand], mk_(lambda l, ph: ph), lambda vals: mk_(lambda l, ph: vals[l])
    return None


def table(N, sh, S, text):
    """(conditions, target, its digits, selections the search may continue after)"""
    d, m, n = sh.step(S, sh.dl), sh.step(S, sh.dm), sh.step(S, sh.nm)
    dn, mn = sh.step(sh.sel(d), sh.nm), sh.step(sh.sel(m), sh.nm)
    no = lambda t: neg(some_(t))
    cat = lambda *ns: seq(spl_nodes(text) + tuple(x for g in ns for x in g))
    return [((some_(d), no(dn)), S, [text], [S, sh.sel(d)]),
            ((no(d), some_(m), some_(mn)), sh.sel(mn), [cat((DOT,), spl_nodes(sh.text(mn)))], [sh.sel(mn)]),
            ((no(d), some_(m), no(mn)), S, [text, cat((DOT,))], [S, sh.sel(m)]),
            ((no(d), no(m), some_(n)), sh.sel(n), [cat(spl_nodes(sh.text(n)))], [sh.sel(n)]),
            ((no(d), no(m), no(n)), S, [text], [S])]


def more(sh, S):
    d = sh.step(S, sh.dl)
    dn = sh.step(sh.sel(d), sh.nm)
    return d, dn


def prove_scan(R, N, I, outs, sel, delims, decimal):
    """None, or why the summary is not shown to be the scan"""
    lids = {x[1] for s, v in outs for x in s.meta if x[0] == 'exit'}
    tops = [l for l in lids if any(compare.equal((), m['init'], EMPTY) for m in I.loops[l].mods.values())]
    if len(tops) != 1:
        return 'no single scan loop'
    L = I.loops[tops[0]]
    inner = {x[1] for e in L.trans + L.early for x in e['st'].meta if x[0] == 'exit' and x[1] != L.id}
    if len(inner) != 1:
        return 'no single loop over delimiters'
    J = I.loops[inner.pop()]
    sh = Shape(N, I, [L.id, J.id], delims, decimal)
    st = selection_state(N, L, (), sel)
    acc = phi_of(L, (), EMPTY)
    if not st or not acc:
        return 'no search range or list of amounts'
    SR = st[1]
    f = sh.find(SR)
    js = selection_state(N, J, (), sh.sel(f))
    jt = phi_of(J, (), sh.text(f))
    if not js or not jt:
        return 'the delimiter loop does not start at the found number'
    S = js[1]
    # ---- the delimiter loop: goes on exactly over one delimiter followed by a number
    d, dn = more(sh, S)
    for tr in J.trans:
        R.count('transitions')
        fs = tuple(tr['st'].facts)
        if FX.contradictory(fs):
            continue
        if not (FX.prove(fs, some_(d)) and FX.prove(fs, some_(dn))):
            return 'a pass over delimiters without delimiter and number'
        if not compare.equal(fs, js[2](tr['vals']), sh.sel(dn)) and \
                not all(compare.equal(fs, a, b) for a, b in zip(parts_of(N, js[2](tr['vals'])), parts_of(N, sh.sel(dn)))):
            return 'a pass over delimiters does not end on the number'
        if not compare.equal(fs, tr['vals'][jt[0]], seq(spl_nodes(jt[1]) + spl_nodes(sh.text(dn)))):
            return 'a pass over delimiters does not append the number\'s digits'
    for e in J.early:
        fs = tuple(e['st'].facts)
        if not FX.contradictory(fs + (some_(d), some_(dn))):
            return 'the delimiter loop may end before a delimiter and a number'
    # ---- the scan
    texts = {}

    def row(fs, emitted, nxt, what):
        """one found number"""
        R.count('rows')
        if FX.contradictory(fs):
            return None
        if not FX.prove(fs, some_(f)):
            return '%s without a number' % what
        hit = 0
        for conds, target, strs, conts in table(N, sh, S, texts['S']):
            cs = fs + conds
            if FX.contradictory(cs):
                continue
            hit += 1
            val = None
            for s_ in strs:
                pr = mk('call', 'parse', sh.pty, s_)
                good = isv(pr, RESULT, 'Ok')
                if emitted:
                    w = assign(N, target, N.T('Amount', vf(pr, RESULT, 'Ok', 0)))
                    if len(emitted) == 1 and FX.prove(cs, good) and compare.equal(cs, emitted[0], w):
                        val = True
                elif FX.prove(cs, neg(good)):
                    val = True
            if not val:
                return '%s: %s is not the amount at %s' % (what, [str(x)[:300] for x in emitted], str(target)[:200])
            if not any(nxt(cs, elem(call('split_with', (), SR, c), ONE)) for c in conts):
                return '%s: the search does not go on right after the amount' % what
        return None if hit else '%s: no row of the table' % what

    ptys = {t.a[1] for e in L.trans + L.early for g in e['guards'] for t in subterms(g) if t.op == 'call' and t.a[0] == 'parse'}
    if len(ptys) != 1:
        return 'no single way of reading the digits'
    sh.pty = ptys.pop()
    if 'rust_decimal::decimal::Decimal' not in str(sh.pty):
        return 'the digits are not read as a Decimal'
    texts['S'] = J.final[jt[1]] if jt[1] in J.final else None
    if texts['S'] is None:
        return 'no digits after the delimiter loop'

    def items_after(v, pre):
        ns, ps = nodes_of(v), nodes_of(pre)
        if ns[:len(ps)] != ps or any(x.op != 'item' for x in ns[len(ps):]):
            return None
        return [x.a[0] for x in ns[len(ps):]]
    for tr in L.trans:
        fs = tuple(tr['st'].facts)
        em = items_after(tr['vals'][acc[0]], seq(spl_nodes(acc[1])))
        if em is None:
            return 'a pass of the scan does not only append'
        new = st[2](tr['vals'])

        def nxt(cs, rest):
            r = vf(rest, OPTION, 'Some', 0)
            return FX.prove(cs, some_(rest)) and all(compare.equal(cs, a, b) for a, b in zip(parts_of(N, new), parts_of(N, r)))
        w = row(fs, em, nxt, 'pass of the scan')
        if w:
            return w
    done = set()
    pre = L.final[acc[1]]
    for s, v in outs:
        ks = s.meta.get(('exit', L.id))
        if ks is None:
            return 'an outcome without the scan'
        for k in ks:
            done.add(k)
        fs = tuple(s.facts)
        if FX.contradictory(fs):
            continue
        em = items_after(v, pre)
        if em is None:
            return 'the result is not the list of amounts'
        if FX.prove(fs, neg(some_(f))):
            if em:
                return 'an amount without a number'
            continue
        w = row(fs, em, lambda cs, rest: FX.prove(cs, neg(some_(rest))), 'end of the scan')
        if w:
            return w
    for k, e in enumerate(L.early):
        if k not in done and not FX.contradictory(tuple(e['st'].facts)):
            return 'an exit of the scan without outcome'
    return None


def c17(ctx, R):
    N = ctx.N
    M = Mod(N)
    S = sem.Sem(N)
    go = R.anchor('go', 'go', 'AmountResolver', 'Resolver')
    if go is None:
        return
    sel = p('sel')
    F = S.funcs()

    def decimal(x):
        """a 96-bit number with a scale of at most 28, rounded where the fraction does not fit"""
        i, _, f = x.partition('.')
        if int(i) >= 1 << 96:
            return None
        n = min(len(f), 28)
        while int(i + f[:n]) >= 1 << 96:
            n -= 1
        m = int(i + f[:n]) + (len(f) > n and f[n] >= '5')
        return Sym('dec', (m, n)) if m < 1 << 96 else None

    def parse(ev, t, s):
        x = ''.join(ev.toseq(s))
        body = x[:-1] if x.endswith('.') else x
        if not body or body.count('.') > 1 or not all(c in '0123456789.' for c in body) or body.startswith('.'):
            return Agg(RESULT, 'Err', (Sym('bad', ()),))
        d = decimal(body)
        return Agg(RESULT, 'Err', (Sym('bad', ()),)) if d is None else Agg(RESULT, 'Ok', (d,))
    F['parse'] = parse

    def want(texts, delims, dec):
        out, i = [], 0
        isn = lambda k: 0 <= k < len(texts) and texts[k] is not None and texts[k].isascii() and texts[k].isdigit()
        at = lambda k: texts[k] if k < len(texts) else None
        while i < len(texts):
            if not isn(i):
                i += 1
                continue
            j, s = i, texts[i]
            while at(j + 1) is not None and at(j + 1) in delims and isn(j + 2):
                s += texts[j + 2]
                j += 2
            if at(j + 1) is not None and at(j + 1) in delims:
                pass
            elif at(j + 1) == dec and isn(j + 2):
                s += '.' + texts[j + 2]
                j += 2
            elif isn(j + 1):
                s += texts[j + 1]
                j += 1
            if decimal(s) is not None:
                out.append((i, j, Agg(N.adt('Amount'), None, (decimal(s),))))
            i = j + 1
        return out

    LONG = '1' * 40
    BITS = [['1', ',', '0', '.', '5'], ['1', '.', '0', '.', '5'], ['1', ' ', '2', ',', '3', ' ', '4'], ['1', "'", '2', ',', ',', '3'],
            ['1', ',', ',', '2'], ['1', '.', '.', '2'], ['1', ',', '2', '3', '4'], [LONG, ',', '2', ' ', '3'], [LONG, 'x', '2'],
            ['x', '1', ';', '2', ';', '3', ';'], ['0', '0', '0'], ['1', '  ', '2'], ['1', None, '2'], ['1', ',', None], ['1', ',', '.', '2'],
            ['1', '.', ',', '2'], ['1', '.', '2', ',', '3'], ['1', ',', '2', ',', '3', '.', '4', '.', '5', ',', '6'], ['1', '.', 'x'],
            ['001', ',', '000', ',', '000', ',', '000', ',', '000', '.', '0001'], ['12345678901', ',', '5', '.', '25'], ['0', '.', '00'],
            ['1', ';', '2', ',', '3'], ['0', ',', '5'], ['1000', '.', '10'], ['0', '5', '.', '1'], ['1', ',', '2', "'", '3', '.', '4']]
    BITS += [['1', c, '22', c, '333', d, '4'] for c in '_:;-/\u2019\u00a0~\u202f+ ,.\'' for d in ':,.;']
    for k in (19, 20, 27, 28, 29):
        BITS += [['1' * k, '.', '5'], ['1' * (k - 3), ',', '234', '.', '75'], ['0' * k, ',', '7'], ['7', '.', '1' * k]]
    BITS += [['79228162514264337593543950335'], ['79228162514264337593543950336'], ['1', '.', '0' * 31 + '1']]
    BITS += [['-', '1'], ['1', '.'], ['1', ','], ['1', ' '], ['1']]

    def lines():
        yield from BITS[:27]
        yield [t for b in BITS for t in ['x'] + b]
        yield [t for b in BITS for t in ['\u2022'] + b]
        for n in range(1, 4 if ctx.tier == 'quick' else 6):
            yield [t for w in itertools.product(['1', '20', ',', '.', ' '], repeat=n) for t in ('x',) + w]
        H = MODELS.HINT
        hs = [h for h in H.texts() if h and not h.isspace() and not any(c.isdigit() for c in h)]
        ds = ['1' * (k + e) for k in H.ints if 2 < k < 40 for e in (0, 1)]
        for h in hs:
            yield ['1', h, '2', ',', '3', h, h, '4', '.', h, '5']
        for d in ds:
            yield [d, ',', '2', ' x', '2', ',', d, '.', '5', 'x', d, d]
            yield [d, ',', 'x', '1', ',', d, ',', ',', '3', 'x', d, '.', 'x', d, "'", ' ', d, '.', d, '.', d, ' ', d, ';']
        for k in H.sizes(3, 30):
            yield (['1', ','] * k)[:2 * k - 1] + ['.', '5', 'x', '2']
        rnd = random.Random(4)
        for _ in range(40):
            yield [rnd.choice(['1', '20', '003', ',', '.', ' ', "'", 'x', ';', LONG, None]) for _ in range(rnd.randrange(4, 16))]

    def one(name, delims, dec, mdelims):
        rule = 'maximal runs N (delimiter N)* [mark N | N] from left to right, one amount each, spelling their digits'
        b = R.anchor(name, name, 'AmountResolver')
        if b is None:
            return

        def run():
            I, outs = analyse(ctx, go, b)
            R.count('functions_summarised', 2)
            R.count('outcomes', len(outs))
            try:
                why = prove_scan(R, N, I, outs, sel, delims, dec)
            except (Missing, KeyError, IndexError) as e:
                why = repr(e)

            def models():
                for ds, dc in mdelims:
                    for texts in lines():
                        yield {p('arg1'): tuple(ds), p('arg2'): dc, sel: S.whole(S.line(list(texts)))}, F

            def oracle(env, ev, s, v):
                ln = S.un(env[sel])[0]
                texts = [''.join(t.fs[0]) if t.var == 'Text' else None
                         for t in (M.f(t, 'LLToken', 'token') for t in M.f(ln, 'LLLine', 'll_tokens'))]
                return differ(got(M, ev, v), want(texts, env[p('arg1')], env[p('arg2')]))
            return conclude(R, name, b, rule, why, I, outs, models, oracle, detail="%d outcomes" % len(outs), deps=True)
        R.guard(name, run, site(b), rule)
    lit = lambda s: seq(tuple(item(mk('chr', c)) for c in s))
    one('new', p('arg1'), p('arg2'), [((',', "'"), '.'), ((';', ','), ':'), ((), '.'), (('.', ','), ' '), ((',', '.'), '.')])
    one('english', lit(",'"), mk('chr', '.'), [((',', "'"), '.')])
    one('french', lit(" .'"), mk('chr', ','), [((' ', '.', "'"), ',')])


META = {
    'C17': {'run': c17, 'floor': 3, 'explanation':
            'Each constructor of the amount resolver is composed with its go().  The scan loop and the delimiter loop in it are proved, '
            'by induction over their passes, to follow the table: after a number, one delimiter and a number are joined as often as '
            'possible, then one decimal mark and number or one adjacent number; every pass of the scan emits exactly the amount over that '
            'run with those digits (or nothing when they do not read as a Decimal) and goes on right after it, and the scan ends only '
            'when no number is left.'},
}
