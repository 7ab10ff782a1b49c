"""Small models of lines, selections and matchers (type invariants hold by construction)."""
import itertools
import random
import uni
from terms import *
from names import p, Missing
from evalt import Agg, FMap, Sym, T2, Some, NONEV, canon, DEF


class Hint:
    """constants an analysed function compares with: models are extended to sizes and texts around them"""
    def __init__(self, ints=(), chars=(), strs=(), types=()):
        self.types = sorted(types, key=str)
        self.ints, self.chars, self.strs = sorted(ints), sorted(chars), sorted(strs)

    def sizes(self, lo, hi=14):
        out = set()
        for k in self.ints:
            out |= {n for n in (k, k + 1, k + 2) if lo < n <= hi}
        return sorted(out)

    def long(self):
        """lengths of lines beyond a limit too large for the other models"""
        return [k + 2 for k in self.ints if 12 < k <= 5000][-2:]

    def many(self, hi=300):
        """a number of things beyond every limit in the function"""
        ks = [k for k in self.ints if 1 < k < hi]
        return sorted({k + 2 for k in ks[-2:]} | {1 << (k + 1).bit_length() for k in [k for k in ks if k > 3][:1] if k < 33})

    def texts(self):
        out = list(self.chars) + list(self.strs)
        out += [c + '\u0301' for c in self.chars if len(c) == 1]
        for x in list(out):
            out += [y for y in (x.upper(), x.lower(), x.capitalize(), x + 'x', 'x' + x) if y not in out]
        for k in self.ints:
            if 2 <= k <= 64:
                out += ['x' * (k + d) for d in (-1, 0, 1)] + ['1' * k, '\u00e9' * k, ' ' * k, '\u2003' * k]
        return out[:90]


HINT = Hint()


def harvest(I, outs):
    """the constants in a summary"""
    global HINT
    if getattr(I, 'hint', None) is None:
        ints, chars, strs, types = set(), set(), set(), set()
        seen = set()
        todo = []
        for s, v in outs:
            todo += [v] + list(s.facts) + [x for x in s.mem.values() if isinstance(x, T)]
        for lp in I.loops.values():
            for tr in lp.trans:
                todo += list(tr['guards']) + [x for x in tr['vals'].values() if isinstance(x, T)]
            todo += [m['init'] for m in lp.mods.values() if isinstance(m['init'], T)]
        for e in I.log:
            if e['k'] == 'oblig' and not e['ok']:
                todo += [e['cond']] + list(e['facts'])
        while todo:
            t = todo.pop()
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            if t.op == 'lin':
                ints.add(abs(t.a[0]))
            elif t.op == 'wrap' and t.a[1] <= 12:
                ints.add(1 << t.a[1])
            elif t.op == 'tyid':
                types.add(t.a[0])
            elif t.op == 'chr':
                chars.add(t.a[0])
            elif t.op == 'str' and 0 < len(t.a[0]) <= 16:
                strs.add(t.a[0])
            elif t.op == 'seq' and 1 < len(t.a) <= 16 and all(n.op == 'item' and n.a[0].op == 'chr' for n in t.a):
                strs.add(''.join(n.a[0].a[0] for n in t.a))
            for x in t.a:
                flatten(x, todo)
        I.hint = Hint(ints, chars, strs, types)
    HINT = I.hint
    return HINT


def flatten(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            flatten(y, out)


class Mod:
    def __init__(self, N):
        self.N = N

    def S(self, n, **fs):
        a = self.N.P.adts[self.N.adt(n)]
        fl = a['variants'][0]['fields']
        if {x['name'] for x in fl} != set(fs):
            raise Missing('fields of ' + n)
        return Agg(self.N.adt(n), None, tuple(fs[x['name']] for x in fl))

    def V(self, n, var, *fs):
        return Agg(self.N.adt(n), var, tuple(fs))

    def f(self, v, n, fld_):
        return v.fs[self.N.idx(n, fld_)]

    # ------------------------------------------------------------ lines
    def line(self, texts, attrs=(), sizes=None):
        """texts: list of str or None (custom); attrs: [(range, type, value)] in insertion order"""
        toks = []
        pos = 0
        for i, t in enumerate(texts):
            n = (sizes[i] if sizes else (len(t) if t is not None else 2))
            tok = self.V('LToken', 'Value') if t is None else self.V('LToken', 'Text', tuple(t), self.V('TextTag', self.tag(t)))
            toks.append(self.S('LLToken', token_idx=i, pos_starts_at=pos, pos_ends_at=pos + n, token=tok))
            pos += n
        st = [dict() for _ in texts]
        en = [dict() for _ in texts]
        rg = {}
        vals = {}
        for r, ty, v in attrs:
            for d in (st[r[0]], en[r[1]], rg):
                l = d.setdefault(ty, [])
                if r not in l:
                    l.append(r)
            vals.setdefault(r, {}).setdefault(ty, []).append(v)
        key = lambda ty: canon(('tyid', ty))
        many = lambda d: self.S('TypeIdToMany', map=FMap({key(k): tuple(T2(*r) for r in v) for k, v in d.items()}))
        at = self.S('LLLineAttrs', ranges=many(rg), starts_at=tuple(many(d) for d in st), ends_at=tuple(many(d) for d in en),
                    values=FMap({canon(T2(*r)): self.S('TypeBucket', map=FMap({key(k): Agg('dyn', None, (tuple(v),)) for k, v in d.items()}))
                                 for r, d in vals.items()}))
        return self.S('LLLine', ll_tokens=tuple(toks), attrs=at)

    def tag(self, t):
        if t and uni.alpha(t[0]) and all(uni.alpha(c) or c in "'-\u2013" for c in t):
            return 'WORD'
        return 'SPACE' if t and all(map(uni.space, t)) else 'NATN' if t.isascii() and t.isdigit() else 'PUNC' if len(t) == 1 and t in '.,!?;:\'"' else 'SYMB'

    def plain(self, n, k=0):
        w = ['if', ' ', 'x', '1', ',', None]
        if k:
            h = HINT.texts()
            w = [x for p_ in zip(w, (h[k % len(h):] + h + w)[:6]) for x in p_] if h else w[k % 6:] + w[:k % 6]
        return self.line([w[i % len(w)] for i in range(n)])

    def sel(self, line, s, e):
        return self.S('LLSelection', ll_line=line, start_idx=s, end_idx=e)

    # ------------------------------------------------------------ matchers
    def matcher(self, rnd, n, density=0.5):
        """direction -> from -> [(out, to)]"""
        fw, bw = {}, {}
        for i in range(n):
            k = rnd.choice([0, 0, 1, 1, 2]) if density < 1 else 1
            fw[i] = tuple(T2(Sym('out', ('f', i, j)), self.to(rnd.randrange(i, n))) for j in range(k))
            k = rnd.choice([0, 0, 1, 1, 2])
            bw[i] = tuple(T2(Sym('out', ('b', i, j)), self.to(rnd.randrange(0, i + 1))) for j in range(k))
        return fw, bw

    def sparse(self, rnd, n, k):
        """at most k matches, of one or two tokens"""
        fw, bw = {}, {}
        for _ in range(k):
            i = rnd.randrange(n)
            fw[i] = (T2(Sym('out', ('f', i, 0)), self.to(min(n - 1, i + rnd.randrange(2)))),)
            i = rnd.randrange(n)
            bw[i] = (T2(Sym('out', ('b', i, 0)), self.to(max(0, i - rnd.randrange(2)))),)
        return fw, bw

    def rich(self, rnd, n, k):
        """k results at every position"""
        fw = {i: tuple(T2(Sym('out', ('f', i, j)), self.to(rnd.randrange(i, n))) for j in range(k)) for i in range(n)}
        bw = {i: tuple(T2(Sym('out', ('b', i, j)), self.to(rnd.randrange(0, i + 1))) for j in range(k)) for i in range(n)}
        return fw, bw

    def to(self, i):
        return Agg(self.N.adt('ToIdx'), None, (i,))

    def go(self, table):
        """table: matcher value -> (fw, bw)"""
        F, B = self.N.adt('XForwards'), self.N.adt('XBackwards')

        def g(ev, targs, m, d, line):
            fw, bw = table[canon(m)]
            if isinstance(d, Agg) and d.adt == F:
                return fw.get(d.fs[0], ())
            if isinstance(d, Agg) and d.adt == B:
                return bw.get(d.fs[0], ())
            raise Missing('direction')
        return g

    def selections(self, nmax=4, reps=3, seed=1):
        """(env for self/arg2 = matcher, funcs)"""
        rnd = random.Random(seed)
        M = Sym('matcher', (0,))
        for n in range(1, nmax + 1):
            for s in range(n):
                for e in range(s, n):
                    for _ in range(reps):
                        ln = self.plain(n)
                        t = {M: self.matcher(rnd, n)}
                        yield {p('self'): self.sel(ln, s, e), p('arg2'): M}, {'XMatch::go': self.go(t)}
        for n in HINT.sizes(nmax):
            for k in range(60):
                s = rnd.randrange(n)
                t = {M: self.matcher(rnd, n)}
                yield {p('self'): self.sel(self.plain(n, k), s, rnd.randrange(s, n)), p('arg2'): M}, {'XMatch::go': self.go(t)}
        for n in sorted(set(HINT.sizes(nmax)) | {6, 9, 12}):
            ln = self.plain(n)
            for k in (0, 1, 1, 1, 1, 2, 2, 2, 3, 3):
                for s, e in ((0, n - 1), (rnd.randrange(2), n - 1 - rnd.randrange(2))):
                    yield {p('self'): self.sel(ln, s, e), p('arg2'): M}, {'XMatch::go': self.go({M: self.sparse(rnd, n, k)})}
        for n in HINT.long():
            ln = self.plain(n, 1)
            for s, e in ((0, 0), (0, n - 1), (n - 1, n - 1), (n // 2, n // 2), (1, n - 2), (n - 3, n - 2), (0, n - 2), (1, n - 1),
                         (0, 1), (1, 1), (2, 3), (n - 4, n - 4), (0, n - 3)):
                fw, bw = {}, {}
                for i in (0, 1, s, max(s - 1, 0), e, min(e + 1, n - 1), n - 2, n - 1, rnd.randrange(n)):
                    fw[i] = (T2(Sym('out', ('f', i, 0)), self.to(i)), T2(Sym('out', ('f', i, 1)), self.to(n - 1)))
                    bw[i] = (T2(Sym('out', ('b', i, 0)), self.to(i)), T2(Sym('out', ('b', i, 1)), self.to(0)))
                yield {p('self'): self.sel(ln, s, e), p('arg2'): M}, {'XMatch::go': self.go({M: (fw, bw)})}
        for k in HINT.many():
            for n in (1, 2, 3):
                for s in range(n):
                    t = {M: self.rich(rnd, n, k)}
                    yield {p('self'): self.sel(self.plain(n, k), s, rnd.randrange(s, n)), p('arg2'): M}, {'XMatch::go': self.go(t)}
        for k in range(60 if HINT.texts() else 20):
            n = rnd.randrange(1, 6)
            s = rnd.randrange(n)
            t = {M: self.matcher(rnd, n)}
            yield {p('self'): self.sel(self.plain(n, k), s, rnd.randrange(s, n)), p('arg2'): M}, {'XMatch::go': self.go(t)}
        ws = ['if', ' ', None, '1', None, ',', '  ', 'x'] + HINT.texts()[:8]
        for k in range(240):
            n = rnd.randrange(1, 6)
            s = rnd.randrange(n)
            ln = self.line([rnd.choice(ws) for _ in range(n)], (), [rnd.choice([0, 1, 1, 3]) for _ in range(n)])
            yield {p('self'): self.sel(ln, s, rnd.randrange(s, n)), p('arg2'): M}, {'XMatch::go': self.go({M: self.matcher(rnd, n)})}

    def pairs(self, nmax=4):
        for n in range(1, nmax + 1):
            ln = self.plain(n)
            rs = [(s, e) for s in range(n) for e in range(s, n)]
            for a in rs:
                for b in rs:
                    yield {p('self'): self.sel(ln, *a), p('arg2'): self.sel(ln, *b)}, {}
        rnd = random.Random(6)
        for n in HINT.sizes(nmax) + [5, 6]:
            ln = self.plain(n)
            for a in ((0, n - 1), (1, n - 1), (0, n - 2)):
                for b in [(s, e) for s in range(n) for e in range(s, n)]:
                    yield {p('self'): self.sel(ln, *a), p('arg2'): self.sel(ln, *b)}, {}
            for k in range(60):
                ln = self.plain(n, k)
                a, b = (sorted((rnd.randrange(n), rnd.randrange(n))) for _ in 'ab')
                yield {p('self'): self.sel(ln, *a), p('arg2'): self.sel(ln, *b)}, {}
        for n in HINT.long():
            ln = self.plain(n, 1)
            rs = [(0, 0), (0, n - 1), (n - 1, n - 1), (n // 2, n // 2), (1, n - 2), (n - 3, n - 2), (1, 1), (2, 2), (n - 2, n - 2)]
            for a in rs:
                for b in rs:
                    yield {p('self'): self.sel(ln, *a), p('arg2'): self.sel(ln, *b)}, {}

    def attr_lines(self, ty, nmax=3, seed=1, reps=24, values=None, other=('adt', 'other', ())):
        """lines carrying values of type `ty` and of another type on various spans"""
        rnd = random.Random(seed)
        kinds = [ty, ty, other] + [t for t in HINT.types if t not in (ty, other)][:3]

        def value(t, j):
            if t == ('char',):
                return 'abc1 ,'[j % 6]
            if t[:2] == ('adt', self.N.adt('TextTag')):
                return self.V('TextTag', ('WORD', 'SPACE', 'NATN', 'PUNC', 'SYMB')[j % 5])
            return Sym('oth', (j,))
        words = ['a', 'bc', ' ', None, '1', '\u00e9', '\u65e5', '\U0001f600', '-\u0301'] + HINT.texts()[:24]
        big = HINT.sizes(nmax)
        # every pattern of texts and custom tokens, with a value on every span
        vs = (lambda j: Sym('val', (j,))) if values is None else (lambda j: values[j % len(values)])
        for n in range(1, 5):
            for kinds_ in itertools.product((True, False), repeat=n):
                at = [((a, e), ty, vs(a + 2 * e)) for a in range(n) for e in range(a, n)]
                yield n, self.line([('a', 'bc', ' ', '\u00e9')[i] if k else None for i, k in enumerate(kinds_)], at), at
        base = words[:9]
        for n in list(range(1, nmax + 1)) + big:
            rs = [(s, e) for s in range(n) for e in range(s, n)]
            for i in range(reps):
                at = []
                for j in range(rnd.randrange(0, 6 if i % 3 or not HINT.ints else min(24, max(HINT.ints) + 3))):
                    t = rnd.choice(kinds)
                    v = Sym('val', (rnd.randrange(3),)) if values is None else rnd.choice(values)
                    at.append((rnd.choice(rs), t, v if t == ty else value(t, j)))
                yield n, self.line([rnd.choice(words if i % 2 else base) for _ in range(n)], at, [rnd.choice([0, 0, 1, 2]) for _ in range(n)] if i % 4 == 3 else None), at
        for n in HINT.long():
            rs = [(0, 0), (0, n - 1), (n - 1, n - 1), (n // 2, n // 2), (1, n - 2), (n - 2, n - 1), (0, 1)]
            at = [(r, ty, Sym('val', (j,)) if values is None else values[j % len(values)]) for j, r in enumerate(rs + rs[:2])]
            yield n, self.line([words[i % len(words)] for i in range(n)], at), at
        for k in HINT.many():
            n = 3
            rs = [(s, e) for s in range(n) for e in range(s, n)]
            for r in ((0, 0), (0, 1), (0, 2), (1, 2)):
                at = [(r, ty, Sym('val', (j,)) if values is None else values[j % len(values)]) for j in range(k)]
                yield n, self.line(['a', ' ', 'bc'], at), at
            if values is None:
                at = [((0, 0), ty, Sym('val', (j % 3,))) for j in range(k)]
                yield n, self.line(['a', ' ', 'bc'], at), at
            at = [(rnd.choice(rs), ty, Sym('val', (j,)) if values is None else values[j % len(values)]) for j in range(k)]
            yield n, self.line(['a', ' ', 'bc'], at), at
            n = k
            at = [((j, j), ty, Sym('val', (j,)) if values is None else values[j % len(values)]) for j in range(k)]
            at += [((0, j), ty, Sym('val', (0,)) if values is None else values[0]) for j in range(k)]
            yield n, self.line((['a', ' ', 'bc'] * k)[:k], at), at
