"""Type invariants of the library's own data, used as axioms by the entailment
engine.  Each is established by the check named beside it."""
import facts as F
from terms import *
from names import Names, Missing

PRESENT = []


def install(prog):
    N = Names(prog)
    F.AXIOMS.clear()
    F.PRESENT.clear()
    F._memo.clear()

    def tryadd(f):
        try:
            f()
        except Missing:
            pass

    def selection():                       # C06
        sel, line = N.adt('LLSelection'), N.adt('LLLine')
        i_l, i_s, i_e = (N.idx('LLSelection', x) for x in ('ll_line', 'start_idx', 'end_idx'))
        i_t = N.idx('LLLine', 'll_tokens')

        def ax(t):
            if t.op == 'fld' and t.a[1] == sel and t.a[2] in (i_s, i_e):
                x = t.a[0]
                s, e = fld(x, sel, i_s), fld(x, sel, i_e)
                n = length(fld(fld(x, sel, i_l), line, i_t))
                return [le(s, e), lt(e, n)]
            if t.op == 'len' and t.a[0].op == 'fld' and t.a[0].a[1] == line and t.a[0].a[2] == i_t:
                y = t.a[0].a[0]
                if y.op == 'fld' and y.a[1] == sel and y.a[2] == i_l:
                    return [lt(fld(y.a[0], sel, i_e), t)]
        F.AXIOMS.append(ax)

    def indexes():                         # C04
        line, at = N.adt('LLLine'), N.adt('LLLineAttrs')
        i_a, i_t = N.idx('LLLine', 'attrs'), N.idx('LLLine', 'll_tokens')
        i_r, i_s, i_e, i_v = (N.idx('LLLineAttrs', x) for x in ('ranges', 'starts_at', 'ends_at', 'values'))
        tm = N.adt('TypeIdToMany')
        i_m = N.idx('TypeIdToMany', 'map')

        def owner(t):
            """line of an index expression fld(fld(line, attrs), which)"""
            if t.op == 'fld' and t.a[1] == at and t.a[0].op == 'fld' and t.a[0].a[1] == line and t.a[0].a[2] == i_a:
                return t.a[0].a[0], t.a[2]
            return None

        def entry(r):
            """r is a range listed in an index: (line, which, position or None)"""
            if r.op != 'elem' or r.a[0].op != 'mgetd':
                return None
            m = r.a[0].a[0]
            if m.op != 'fld' or m.a[1] != tm or m.a[2] != i_m:
                return None
            x = m.a[0]
            if x.op == 'elem':
                o = owner(x.a[0])
                if o and o[1] in (i_s, i_e):
                    return o + (x.a[1],)
            o = owner(x)
            if o and o[1] == i_r:
                return o + (None,)
            return None

        def ax(t):
            if t.op == 'len':
                o = owner(t.a[0])
                if o and o[1] in (i_s, i_e):
                    return [eqi(t, length(fld(o[0], line, i_t)))]
            if t.op == 'fld' and t.a[1] == 'tuple' and t.a[2] in (0, 1):
                r = t.a[0]
                e = entry(r)
                if e:
                    a, b = fld(r, 'tuple', 0), fld(r, 'tuple', 1)
                    out = [le(a, b), lt(b, length(fld(e[0], line, i_t)))]
                    if e[1] == i_s:
                        out.append(eqi(a, e[2]))
                    if e[1] == i_e:
                        out.append(eqi(b, e[2]))
                    return out

        def present(m, k, fs):
            o = owner(m)
            e = entry(k)
            return bool(o and e and o[1] == i_v and e[0] is o[0])
        F.AXIOMS.append(ax)
        F.PRESENT.append(present)

    def matches():                         # C06: every matcher's end point lies in the line
        to = N.adt('ToIdx')
        line = N.adt('LLLine')
        i_t = N.idx('LLLine', 'll_tokens')
        fw, bw = N.adt('XForwards'), N.adt('XBackwards')
        sel = N.adt('LLSelection')

        def ax(t):
            if t.op != 'fld' or t.a[1] != to:
                return
            x = t.a[0]
            if x.op != 'fld' or x.a[1] != 'tuple' or x.a[2] != 1 or x.a[0].op != 'elem':
                return
            c = x.a[0].a[0]
            if c.op != 'call' or not (c.a[0].endswith('XMatch::go') or '::XDirection::' in c.a[0]):
                return
            d, ln = (c.a[3], c.a[4]) if c.a[0].endswith('XMatch::go') else (c.a[2], c.a[-1])
            out = [lt(t, length(fld(ln, line, i_t)))]
            if d.op == 'agg' and d.a[0] == fw:
                out.append(le(d.a[2], t))
            if d.op == 'agg' and d.a[0] == bw:
                out.append(le(t, d.a[2]))
            return out
        F.AXIOMS.append(ax)

    F.AXIOMS.append(segments)
    for f in (selection, indexes, matches):
        tryadd(f)
    return N


def segments(t):
    """pieces of a text cut at word boundaries are not empty (unicode-segmentation)"""
    if t.op in ('len', 'blen') and t.a[0].op == 'elem':
        c = t.a[0].a[0]
        if c.op == 'call' and c.a[0] in ('split_word_bounds', 'unicode_words', 'graphemes'):
            return [le(ONE, t)]
