"""Resolution of the repository's own types and functions by the names its users see."""
from terms import *


class Missing(Exception):
    """a private representation detail the rules refer to is not there (any more)"""


class Names:
    def __init__(self, prog):
        self.P = prog
        self.byname = {}
        for k in prog.adts:
            self.byname.setdefault(k.split('::')[-1], []).append(k)

    def adt(self, n):
        c = self.byname.get(n, [])
        c = [x for x in c if x.split('::')[0] in self.P.crates] or c
        if len(c) != 1:
            raise Missing('type %s' % n)
        return c[0]

    def idx(self, n, f, var=None):
        a = self.P.adts[self.adt(n)]
        for v in a['variants']:
            if var is not None and v['name'] != var:
                continue
            for i, x in enumerate(v['fields']):
                if x['name'] == f:
                    return i
        raise Missing('field %s.%s' % (n, f))

    def has(self, n, *fs):
        try:
            for f in fs:
                self.idx(n, f)
            return len(self.P.adts[self.adt(n)]['variants'][0]['fields']) == len(fs)
        except Missing:
            return False

    def F(self, t, n, f):
        return fld(t, self.adt(n), self.idx(n, f))

    def A(self, n, **fs):
        """struct literal"""
        a = self.P.adts[self.adt(n)]
        fl = a['variants'][0]['fields']
        if {x['name'] for x in fl} != set(fs):
            raise Missing('fields of %s' % n)
        return agg(self.adt(n), None, *[fs[x['name']] for x in fl])

    def V(self, n, var, *fs):
        return agg(self.adt(n), var, *fs)

    def T(self, n, *fs):
        return agg(self.adt(n), None, *fs)

    # ------------------------------------------------------------ functions
    def fns(self, name, self_ty=None, trait=None, crate=None):
        out = []
        for b in self.P.bodies.values():
            if b.kind != 'fn' or b.name != name:
                continue
            if self_ty is not None:
                s = b.self_ty
                if s is None:
                    continue
                nm = s[1].split('::')[-1] if s[0] == 'adt' else s[0]
                if nm != self_ty:
                    continue
            elif b.self_ty is not None and trait is None:
                continue
            if (b.impl_trait.split('::')[-1] if b.impl_trait else None) != trait:
                continue
            if crate and b.crate != crate:
                continue
            out.append(b)
        return out

    def fn(self, name, self_ty=None, trait=None, crate=None):
        r = self.fns(name, self_ty, trait, crate)
        if len(r) != 1:
            raise Missing('function %s%s' % (self_ty + '::' if self_ty else '', name))
        return r[0]


def p(n):
    return mk('p', n)
