"""Specification terms shared by the checks: how attributes are attached to a span."""
from terms import *
from names import Missing

GLOBAL = ('adt', 'alloc::alloc::Global', ())


def vec_of(ty):
    return ('adt', 'alloc::vec::Vec', (ty, GLOBAL))


class Spec:
    def __init__(self, N):
        self.N = N

    def attrs(self, line):
        """the four indexes of a line"""
        at = self.N.F(line, 'LLLine', 'attrs')
        if set(x['name'] for x in self.N.P.adts[self.N.adt('LLLineAttrs')]['variants'][0]['fields']) != \
                {'ranges', 'starts_at', 'ends_at', 'values'}:
            raise Missing('fields of LLLineAttrs')
        return [self.N.F(at, 'LLLineAttrs', f) for f in ('ranges', 'starts_at', 'ends_at', 'values')]

    def tokens(self, line):
        return self.N.F(line, 'LLLine', 'll_tokens')

    def listed(self, many, tid, r):
        """the type's list with r added unless already there"""
        m = self.N.F(many, 'TypeIdToMany', 'map')
        l = mgetd(m, tid)
        b = new_bv('k')
        hit = close_for(b, ZERO, length(l), False, alt_nodes([((eq(r, elem(l, b)),), (item(UNIT),))]))
        return self.N.A('TypeIdToMany', map=mset(m, tid, seq(spl_nodes(l) + alt_nodes([((le0(cnt_of(hit)),), (item(r),))]))))

    def bucket(self, tb, tid, ty, v):
        m = self.N.F(tb, 'TypeBucket', 'map')
        return self.N.A('TypeBucket', map=mset(m, tid, mk('dyn', vec_of(ty), seq((mk('spl', mk('vals', m, ty)), item(v))))))

    def attach(self, st, r, ty, v):
        """state (ranges, starts_at, ends_at, values) after attaching v of type ty to span r"""
        tid = mk('tyid', ty)
        ranges, starts, ends, values = st
        a, b = fld(r, 'tuple', 0), fld(r, 'tuple', 1)
        return [self.listed(ranges, tid, r),
                upd(starts, a, self.listed(elem(starts, a), tid, r)),
                upd(ends, b, self.listed(elem(ends, b), tid, r)),
                mset(values, r, self.bucket(mgetd(values, r), tid, ty, v))]

    def attach_any(self, st, r, x):
        return self.attach(st, r, ('anyty', x), mk('anyval', x))
