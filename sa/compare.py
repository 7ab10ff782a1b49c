"""Equality of summaries: normal forms under entailed facts."""
from terms import *
from facts import prove, contradictory, decide

DEPTH = [0]


def facts_of(fs):
    return tuple(f for f in fs if f is not TRUE)


def equal(fs, v, w):
    """provably the same value under the facts"""
    if v is w:
        return True
    DEPTH[0] += 1
    try:
        if DEPTH[0] > 60:
            return False
        return _equal(tuple(fs), v, w)
    finally:
        DEPTH[0] -= 1


BOOLOPS = ('true', 'false', 'le', 'eq0', 'eq', 'not', 'and', 'or', 'isv')


def _equal(fs, v, w):
    a, b = v.op, w.op
    if a in ('lin', 'len', 'cnt', 'blen', 'min', 'max', 'pos') or b in ('lin', 'len', 'cnt', 'blen', 'min', 'max', 'pos'):
        return prove(fs, eqi(v, w))
    if a in BOOLOPS or b in BOOLOPS:
        return (contradictory(fs + (v, neg(w))) or prove(fs + (v,), w)) and (contradictory(fs + (neg(v), w)) or prove(fs + (w,), v))
    if a == 'agg' or b == 'agg':
        if a != 'agg':
            v, w = w, v
            a, b = b, a
        if b == 'agg':
            if v.a[:2] != w.a[:2] or len(v.a) != len(w.a):
                return False
            return all(equal(fs, x, y) for x, y in zip(v.a[2:], w.a[2:]))
        adt, var = v.a[:2]
        if var is None:
            return all(equal(fs, x, fld(w, adt, i)) for i, x in enumerate(v.a[2:]))
        return prove(fs, isv(w, adt, var)) and all(equal(fs, x, vf(w, adt, var, i)) for i, x in enumerate(v.a[2:]))
    if a in ('seq', 'str') or b in ('seq', 'str'):
        return eq_nodes(fs, nodes_of(v), nodes_of(w))
    if prove(fs, eq(v, w)) or prove(fs, eqi(v, w)):
        return True
    if a == b and a not in ('ubv', 'cbv', 'phi', 'p') and len(v.a) == len(w.a):
        return all(_eqarg(fs, x, y) for x, y in zip(v.a, w.a))
    if a in ('mgetd', 'vals', 'call', 'elem', 'fld', 'p', 'vf') or b in ('mgetd', 'vals'):
        # both collections empty
        try:
            return prove(fs, le0(length(v))) and prove(fs, le0(length(w)))
        except Exception:
            return False
    return False


def _eqarg(fs, x, y):
    if isinstance(x, T) and isinstance(y, T):
        return equal(fs, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(_eqarg(fs, p, q) for p, q in zip(x, y))
    return x == y


def simp(fs, nodes):
    """resolve alternatives and iterations decided by the facts"""
    out = []
    for n in norm_nodes(nodes):
        if n.op == 'alt':
            al = []
            done = False
            for g, ns in n.a:
                if contradictory(fs + tuple(g)):
                    continue
                if all(prove(fs, x) for x in g):
                    out.extend(simp(fs, ns))
                    done = True
                    break
                al.append((g, ns))
            if not done and al:
                out.append(mk('alt', *al))
        elif n.op == 'for':
            if prove(fs, le(n.a[2], n.a[1])):
                continue
            b, lo, hi, rev, body = open_for(n)
            if not simp(fs + (le(lo, b), lt(b, hi)), body):
                continue
            out.append(n)
        elif n.op == 'spl':
            if prove(fs, le0(length(n.a[0]))):
                continue
            out.append(n)
        else:
            out.append(n)
    return tuple(out)


def as_for(n):
    """a splice seen as an iteration"""
    if n.op == 'spl':
        b = new_bv('k')
        c = n.a[0]
        return b, ZERO, length(c), False, (item(elem(c, b)),)
    return open_for(n)


def eq_nodes(fs, xs, ys):
    xs, ys = simp(fs, xs), simp(fs, ys)
    if xs == ys:
        return True
    # an undecided alternative at top level: split on its guards
    for ns, other, flip in ((xs, ys, False), (ys, xs, True)):
        for n in ns:
            if n.op == 'alt':
                cases = [tuple(g) for g, _ in n.a]
                rest = fs
                for g in cases:
                    c = TRUE
                    for q in g:
                        c = conj(c, q)
                    rest = rest + (neg(c),)
                return all(contradictory(fs + g) or eq_nodes(fs + g, xs, ys) for g in cases) and \
                    (contradictory(rest) or eq_nodes_rest(rest, xs, ys, n))
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if x is y:
            continue
        if x.op == 'item' and y.op == 'item':
            if not equal(fs, x.a[0], y.a[0]):
                return False
        elif x.op == 'spl' and y.op == 'spl' and equal(fs, x.a[0], y.a[0]):
            pass
        elif x.op in ('for', 'spl') and y.op in ('for', 'spl'):
            b, lo, hi, rev, body = as_for(x)
            c, lo2, hi2, rev2, body2 = as_for(y)
            if rev != rev2:
                return False
            if not (equal(fs, lo, lo2) and equal(fs, hi, hi2)):
                # the same number of passes, shifted
                if rev or not prove(fs, eqi(sub(hi, lo), sub(hi2, lo2))):
                    return False
                body2 = subst_nodes(body2, {c: add(b, sub(lo2, lo))})
            else:
                body2 = subst_nodes(body2, {c: b})
            if not eq_nodes(fs + (le(lo, b), lt(b, hi)), body, body2):
                return False
        else:
            return False
    return True


def eq_nodes_rest(fs, xs, ys, n):
    """none of the guards of alternative n hold"""
    drop = lambda zs: tuple(z for z in zs if z is not n)
    return eq_nodes(fs, drop(xs), drop(ys))


def prove_outs(outs, rows, mem=()):
    """every outcome agrees with every compatible row of the specification.
    rows: [(conditions, value, {location: value})]; returns None or the first open pair"""
    for s, v in outs:
        for row in rows:
            conds, w = row[0], row[1]
            fs = tuple(s.facts) + tuple(c for c in conds if c is not TRUE)
            if any(c is FALSE for c in conds) or contradictory(fs):
                continue
            if w is not None and not equal(fs, v, w):
                return (s, v, row, 'value')
            if len(row) > 2:
                for loc, x in row[2].items():
                    if not equal(fs, s.mem.get(('h', loc), UNIT), x):
                        return (s, s.mem.get(('h', loc)), row, loc)
    return None
