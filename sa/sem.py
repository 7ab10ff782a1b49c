"""Meaning of the selection operations and matchers in a small model.

This is the specification decided by C07, C08 and C09, written once more over model values, so
that the summary of a resolver (which calls those operations) can be given a value in a model.
Matchers are known by their type, as recorded at the call."""
from terms import *
from names import Missing
from models import Mod
from evalt import Agg, T2, Some, NONEV, Sym, Undef, canon, FMap, DEF

WRAP = {'All2', 'All3', 'Seq2', 'Seq3', 'AnyOf2Matcher', 'AnyOf3Matcher'}


class Sem:
    def __init__(self, N):
        self.N = N
        self.M = Mod(N)

    # ------------------------------------------------------------ lines with automatic attributes
    def line(self, texts, extra=(), tag=None):
        """a line as the tokeniser makes it: every text token has its tag, one-character tokens their char"""
        N, M = self.N, self.M
        at = []
        for i, t in enumerate(texts):
            if t is None:
                continue
            at.append(((i, i), ('adt', N.adt('TextTag'), ()), Agg(N.adt('TextTag'), M.tag(t), ())))
            if len(t) == 1:
                at.append(((i, i), ('char',), t))
        return M.line(texts, at + list(extra))

    def whole(self, ln):
        return self.M.sel(ln, 0, len(self.M.f(ln, 'LLLine', 'll_tokens')) - 1)

    # ------------------------------------------------------------ matchers
    def vals(self, ln, i, ty, fw):
        M = self.M
        at = M.f(ln, 'LLLine', 'attrs')
        key = canon(('tyid', ty))
        many = M.f(at, 'LLLineAttrs', 'starts_at' if fw else 'ends_at')[i]
        out = []
        vs = M.f(at, 'LLLineAttrs', 'values').d
        for r in M.f(many, 'TypeIdToMany', 'map').d.get(key, ()):
            b = vs.get(canon(r))
            if b is None:
                continue
            d = M.f(b, 'TypeBucket', 'map').d.get(key)
            for v in (d.fs[0] if d is not None else ()):
                out.append((v, r.fs[1] if fw else r.fs[0]))
        return out

    def go(self, ty, m, i, fw, ln):
        """[(value, where the match ends)]"""
        M = self.M
        toks = M.f(ln, 'LLLine', 'll_tokens')
        if not 0 <= i < len(toks):
            return []
        if ty[0] == 'ref':
            return self.go(ty[2], m, i, fw, ln)
        if ty[0] != 'adt':
            raise Undef('matcher type %r' % (ty,))
        n = ty[1].split('::')[-1]
        if n == 'Attr':
            return self.vals(ln, i, ty[2][0], fw)
        if n == 'AttrEq':
            w = canon(m.fs[0])
            return [(Agg('tuple', None, ()), j) for v, j in self.vals(ln, i, ty[2][0], fw) if canon(v) == w]
        if n == 'TokenHasAny':
            ws = [canon(x) for x in m.fs[0]]
            return [(v, j) for v, j in self.vals(ln, i, ty[2][0], fw) if j == i and canon(v) in ws]
        if n == 'TokenText':
            t = M.f(toks[i], 'LLToken', 'token')
            return [(t.fs[0], i)] if t.var == 'Text' else []
        if n in WRAP:
            parts = m.fs
            while len(parts) == 1 and isinstance(parts[0], Agg):
                parts = parts[0].fs
            ts = ty[2]
            if len(parts) != len(ts):
                raise Undef('parts of ' + n)
            if n.startswith('AnyOf'):
                for k, (p_, t_) in enumerate(zip(parts, ts)):
                    r = self.go(t_, p_, i, fw, ln)
                    if r:
                        return [(Agg(self.N.adt('AnyOf%d' % len(ts)), 'ABC'[k], (v,)), j) for v, j in r]
                return []
            acc = [((), i, True)]
            for p_, t_ in zip(parts, ts):
                nxt = []
                for vs, j, first in acc:
                    if n.startswith('All'):
                        for v, k in self.go(t_, p_, i, fw, ln):
                            if first or k == j:
                                nxt.append((vs + (v,), k, False))
                    else:
                        at = i if first else j + (1 if fw else -1)
                        for v, k in self.go(t_, p_, at, fw, ln):
                            nxt.append((vs + (v,), k, False))
                acc = nxt
            return [(Agg('tuple', None, vs), j) for vs, j, _ in acc]
        raise Undef('matcher ' + n)

    # ------------------------------------------------------------ operations
    def un(self, S):
        M = self.M
        return M.f(S, 'LLSelection', 'll_line'), M.f(S, 'LLSelection', 'start_idx'), M.f(S, 'LLSelection', 'end_idx')

    def funcs(self):
        M = self.M

        def mt(targs):
            if not targs:
                raise Undef('matcher type')
            return targs[-1]

        def find_by(ev, targs, S, m):
            ln, s, e = self.un(S)
            return tuple(T2(M.sel(ln, i, j), v) for i in range(s, e + 1) for v, j in self.go(mt(targs), m, i, True, ln))

        def both(ev, targs, S, m):
            ln, s, e = self.un(S)
            out = []
            for i in range(s, e + 1):
                out += [T2(M.sel(ln, i, j), v) for v, j in self.go(mt(targs), m, i, True, ln)]
                out += [T2(M.sel(ln, j, i), v) for v, j in self.go(mt(targs), m, i, False, ln)]
            return tuple(out)

        def fwd(ev, targs, S, m):
            ln, s, e = self.un(S)
            return tuple(T2(M.sel(ln, s, j), v) for v, j in self.go(mt(targs), m, e + 1, True, ln))

        def bwd(ev, targs, S, m):
            ln, s, e = self.un(S)
            return tuple(T2(M.sel(ln, j, e), v) for v, j in self.go(mt(targs), m, s - 1, False, ln))

        def first(f):
            def g(ev, targs, S, m):
                r = f(ev, targs, S, m)
                return Some(r[0]) if r else NONEV
            return g

        def find_first(ev, targs, S, m):
            ln, s, e = self.un(S)
            for i in range(s, e + 1):
                for v, j in self.go(mt(targs), m, i, True, ln):
                    return Some(T2(M.sel(ln, i, j), v))
            return NONEV

        def split_by(ev, targs, S, m):
            ln, s, e = self.un(S)
            cov = set()
            for x in find_by(ev, targs, S, m):
                _, a, b = self.un(x.fs[0])
                cov |= set(range(a, b + 1))
            out, cur = [], None
            for i in range(s, e + 2):
                free = i <= e and i not in cov
                if free and cur is None:
                    cur = i
                if not free and cur is not None:
                    out.append(M.sel(ln, cur, i - 1))
                    cur = None
            return tuple(out)

        def split_with(ev, targs, S, O):
            ln, s, e = self.un(S)
            _, a, b = self.un(O)
            return (Some(M.sel(ln, s, min(e, a - 1))) if s < a else NONEV,
                    Some(M.sel(ln, max(s, b + 1), e)) if b < e else NONEV)

        def trim(st, en):
            def g(ev, targs, S, m):
                ln, s, e = self.un(S)
                a, b = s, e
                if st:
                    r = self.go(mt(targs), m, s, True, ln)
                    a = r[0][1] + 1 if r else s
                if en:
                    r = self.go(mt(targs), m, e, False, ln)
                    b = r[0][1] - 1 if r else e
                return Some(M.sel(ln, a, b)) if a <= b and s <= b else NONEV
            return g

        def after(ev, targs, S):
            ln, s, e = self.un(S)
            n = len(M.f(ln, 'LLLine', 'll_tokens'))
            return Some(M.sel(ln, e + 1, n - 1)) if e + 1 < n else NONEV

        def from_line(ev, targs, ln):
            n = len(M.f(ln, 'LLLine', 'll_tokens'))
            return Some(M.sel(ln, 0, n - 1)) if n else NONEV

        def tupled(ev, targs, t):
            return t
        fs = {'find_by': find_by, 'find_first_by': find_first, 'find_by_forwards_and_backwards': both,
              'match_forwards': fwd, 'match_first_forwards': first(fwd), 'match_backwards': bwd,
              'match_first_backwards': first(bwd), 'split_by': split_by, 'split_with': split_with,
              'trim': trim(True, True), 'trim_start': trim(True, False), 'trim_end': trim(False, True),
              'after': after, 'from_line': from_line}
        out = {'LLSelection::' + k: v for k, v in fs.items()}
        out.update({'All::into_all': tupled, 'AnyOf::into_any': tupled, 'Seq::into_seq': tupled})
        return out


OPS = {'find_by', 'find_first_by', 'find_by_forwards_and_backwards', 'match_forwards', 'match_first_forwards', 'match_backwards',
       'match_first_backwards', 'split_by', 'split_with', 'trim', 'trim_start', 'trim_end', 'after', 'from_line'}


def opaque(body, fr):
    """the selection operations are used through their specification (C07)"""
    if body.kind == 'fn' and body.self_ty and body.self_ty[0] == 'adt' and body.self_ty[1].split('::')[-1] == 'LLSelection' \
            and not body.impl_trait and body.name in OPS:
        return 'LLSelection::' + body.name
