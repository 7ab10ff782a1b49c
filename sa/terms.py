"""Hash-consed abstract values.

Every value the analysis manipulates is an interned term.  Integers are linear
expressions over atoms, collections are comprehensions (ordered lists of items,
spliced collections, bounded iterations and guarded alternatives).
"""
import itertools

_tab = {}
_uid = itertools.count()


class T:
    __slots__ = ('op', 'a', 'u', '_fb', '_hb')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.u = next(_uid)
        t._fb = None
        t._hb = None
        _tab[k] = t
    return t


TRUE = mk('true')
FALSE = mk('false')
UNIT = mk('agg', 'tuple', None)
_fresh = itertools.count(1)


def fresh_id():
    return next(_fresh)


# ------------------------------------------------------------------ integers
def lin(c, items):
    items = tuple(sorted(((t, k) for t, k in items if k != 0), key=lambda x: x[0].u))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', c, items)


def num(c):
    return mk('lin', c, ())


ZERO = num(0)
ONE = num(1)


def parts(t):
    if t.op == 'lin':
        return t.a
    return 0, ((t, 1),)


def add(x, y, k=1):
    cx, ix = parts(x)
    cy, iy = parts(y)
    d = dict(ix)
    for t, c in iy:
        d[t] = d.get(t, 0) + k * c
    return lin(cx + k * cy, d.items())


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    c, i = parts(x)
    return lin(c * k, [(t, q * k) for t, q in i])


def is_const(t):
    return t.op == 'lin' and not t.a[1]


def cval(t):
    return t.a[0]


# ------------------------------------------------------------------ booleans
def _exnorm(l):
    """emptiness comparisons of non-negative counts, in existence normal form:
    sum >= 1 is a disjunction, sum <= 0 a conjunction"""
    c, it = l
    if not it or any(t.op not in ('cnt', 'blen', 'len') for t, _ in it):
        return None
    if c == 1 and all(k == -1 for _, k in it):
        pos = True
    elif c == 0 and all(k > 0 for _, k in it):
        pos = False
    else:
        return None
    if len(it) == 1 and it[0][0].op == 'len':
        return None
    if len(it) == 1 and it[0][0].op == 'cnt':
        n = it[0][0].a
        if len(n) == 1 and n[0].op in ('for', 'gen') and exform(n) == n:
            return None
    r = FALSE
    for t, _ in it:
        if t.op == 'len':
            e = mk('le', lin(1, [(t, -1)]))
        elif t.op == 'blen':
            e = nonempty(nodes_of(t.a[0]))
        else:
            e = nonempty(t.a)
        r = disj(r, e)
    return r if pos else neg(r)


def le0(l):
    """l <= 0"""
    if is_const(l):
        return TRUE if cval(l) <= 0 else FALSE
    c, it = parts(l)
    n = _exnorm((c, it))
    if n is not None:
        return n
    # integer tightening
    g = 0
    for _, k in it:
        g = _gcd(g, abs(k))
    if g > 1:
        l = lin(-((-c) // g), [(t, k // g) for t, k in it])
    return mk('le', l)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(add(sub(x, y), ONE))


def eqi(x, y):
    d = sub(x, y)
    if is_const(d):
        return TRUE if cval(d) == 0 else FALSE
    c, it = parts(d)
    if it[0][1] < 0:
        d = scale(d, -1)
        c, it = parts(d)
    # an emptiness test written as == 0
    if c == 0 and len(it) == 1 and it[0][1] == 1 and it[0][0].op in ('cnt', 'len', 'blen'):
        return le0(d)
    return mk('eq0', d)


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le':
        return le0(add(scale(b.a[0], -1), ONE))
    if b.op == 'and':
        return _nary('or', [neg(x) for x in b.a])
    if b.op == 'or':
        return _nary('and', [neg(x) for x in b.a])
    return mk('not', b)


def _nary(op, xs):
    out = set()
    for x in xs:
        if x.op == op:
            out.update(x.a)
        else:
            out.add(x)
    unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    out.discard(unit)
    if zero in out:
        return zero
    if not out:
        return unit
    if any(neg(x) in out for x in out if x.op not in ('and', 'or')):
        return zero
    if len(out) == 1:
        return next(iter(out))
    return mk(op, *sorted(out, key=lambda x: x.u))


def conj(a, b):
    return _nary('and', (a, b))


def disj(a, b):
    return neg(conj(neg(a), neg(b)))


INTISH = ('lin', 'len', 'cnt', 'blen')


def eq(x, y):
    if x is y:
        return TRUE
    if x.op in INTISH or y.op in INTISH:
        return eqi(x, y)
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    if x is FALSE:
        return neg(y)
    if y is FALSE:
        return neg(x)
    if x.op == 'agg' and y.op == 'agg':
        if x.a[1] != y.a[1] or x.a[0] != y.a[0]:
            return FALSE if x.a[0] == y.a[0] else mk('eq', x, y)
        r = TRUE
        for p, q in zip(x.a[2:], y.a[2:]):
            r = conj(r, eq(p, q))
        return r
    for p, q in ((x, y), (y, x)):
        if p.op == 'agg' and p.a[1] is not None and len(p.a) == 2:
            return isv(q, p.a[0], p.a[1])
    if x.op in ('chr', 'str', 'tyid') and y.op == x.op and x.op != 'tyid':
        return FALSE
    if y.u < x.u:
        x, y = y, x
    return mk('eq', x, y)


# ------------------------------------------------------------------ enums, structs
OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
CFLOW = 'core::ops::control_flow::ControlFlow'
ORDERING = 'core::cmp::Ordering'
VARIANTS = {
    OPTION: ['None', 'Some'],
    RESULT: ['Ok', 'Err'],
    CFLOW: ['Continue', 'Break'],
    ORDERING: ['Less', 'Equal', 'Greater'],
    'core::convert::Infallible': [],
}
DISCR = {ORDERING: [-1, 0, 1]}


AGG_REWRITE = []


def agg(adt, var, *fs):
    if adt == 'alloc::borrow::Cow' and len(fs) == 1:
        return fs[0]          # borrowed or owned, it is the text (telling them apart is not supported)
    for f in AGG_REWRITE:
        r = f(adt, var, fs)
        if r is not None:
            return r
    # eta: S{ t.f0, t.f1, .. } == t
    if var is None and fs and adt != 'tuple0':
        f0 = fs[0]
        if f0.op == 'fld' and f0.a[1] == adt and f0.a[2] == 0:
            b = f0.a[0]
            if all(f.op == 'fld' and f.a[0] is b and f.a[1] == adt and f.a[2] == i for i, f in enumerate(fs)) \
                    and STRUCT_ARITY.get(adt, len(fs) if adt != 'tuple' else None) == len(fs):
                return b
    return mk('agg', adt, var, *fs)


STRUCT_ARITY = {}


def tup(*fs):
    return mk('agg', 'tuple', None, *fs)


def some(x):
    return mk('agg', OPTION, 'Some', x)


NONE = mk('agg', OPTION, 'None')


def ok(x):
    return mk('agg', RESULT, 'Ok', x)


def err(x):
    return mk('agg', RESULT, 'Err', x)


FLD_REWRITE = []


def fld(t, adt, i, name=None):
    if t.op == 'agg':
        if 2 + i < len(t.a):
            return t.a[2 + i]
    for f in FLD_REWRITE:
        r = f(t, adt, i)
        if r is not None:
            return r
    return mk('fld', t, adt, i)


def vf(t, adt, var, i):
    """payload field i of enum term t known to be variant var"""
    if t.op == 'agg':
        if t.a[1] == var and 2 + i < len(t.a):
            return t.a[2 + i]
        return mk('bad', 'payload')
    if t.op == 'mget' and var == 'Some':
        return mk('mgetd', *t.a)
    return mk('vf', t, adt, var, i)


def isv(t, adt, var):
    if t.op == 'agg':
        return TRUE if t.a[1] == var else FALSE
    vs = VARIANTS.get(adt)
    if vs and len(vs) == 1:
        return TRUE if var == vs[0] else FALSE
    if vs and len(vs) == 2 and var == vs[0] and adt in (OPTION,):
        return mk('not', mk('isv', t, adt, vs[1]))
    if vs and len(vs) == 2 and var == vs[1] and adt in (RESULT, CFLOW):
        return mk('not', mk('isv', t, adt, vs[0]))
    return mk('isv', t, adt, var)


# ------------------------------------------------------------------ binders
def new_bv(hint=''):
    return mk('ubv', fresh_id(), hint)


def height(t):
    """1 + the largest canonical binder bound or mentioned in t (0 if none)"""
    if t._hb is not None:
        return t._hb
    if t.op == 'cbv':
        h = t.a[0] + 1
    else:
        h = 0
        for x in flat(t.a):
            v = height(x)
            if v > h:
                h = v
    t._hb = h
    return h


def flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def free_ubv(t):
    """set of unique (open) binders and loop symbols occurring in t"""
    if t._fb is not None:
        return t._fb
    if t.op in ('ubv', 'phi', 'fin', 'liter'):
        s = frozenset([t])
    else:
        s = frozenset()
    for x in flat(t.a):
        s |= free_ubv(x)
    t._fb = s
    return s


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in flat(t.a):
        yield from subterms(x, seen)


def occurs(pred, t):
    return any(pred(x) for x in subterms(t))


# ------------------------------------------------------------------ rebuild / substitution
def rebuild(op, a):
    """smart-constructor dispatch, used by substitution"""
    if op == 'lin':
        c, it = a
        r = num(c)
        for t, k in it:
            r = add(r, scale(t, k))
        return r
    if op == 'le':
        return le0(a[0])
    if op == 'eq0':
        return eqi(a[0], ZERO)
    if op == 'eq':
        return eq(*a)
    if op == 'not':
        return neg(a[0])
    if op == 'and' or op == 'or':
        return _nary(op, a)
    if op == 'fld':
        return fld(*a)
    if op == 'vf':
        return vf(*a)
    if op == 'isv':
        return isv(*a)
    if op == 'agg':
        return agg(*a)
    if op == 'elem':
        return elem(*a)
    if op == 'len':
        return length(a[0])
    if op == 'seq':
        return seq(a)
    if op == 'cnt':
        return cnt_of(a)
    if op == 'first':
        return first_of(a)
    if op == 'alt':
        return mk_alt(a)
    if op == 'for':
        return mk('for', *a)
    if op == 'min':
        return tmin(*a)
    if op == 'max':
        return tmax(*a)
    if op == 'mget':
        return mget(*a)
    if op == 'mgetd':
        return mgetd(*a)
    if op == 'slice':
        return slice_of(*a)
    if op == 'blen':
        return blen(*a)
    return mk(op, *a)


def subst(t, m, cache=None):
    """capture-free substitution; may return a tuple of nodes for node terms"""
    if not m:
        return t
    if cache is None:
        cache = {'raw': all(k.op == 'cbv' for k in m)}
    r = cache.get(t, cache)
    if r is not cache:
        return r
    if t in m:
        r = m[t]
    elif t.op == 'for':
        if cache['raw']:
            na = _sub_args(t.a, m, cache)
            r = t if na is t.a else mk('for', na[0], na[1], na[2], na[3], norm_nodes(na[4]))
        elif not _touches(t, m):
            r = t
        else:
            b, lo, hi, rev, body = open_for(t)
            r = close_for(b, subst(lo, m, cache), subst(hi, m, cache), rev, subst_nodes(body, m, cache))
            if len(r) == 1:
                r = r[0]
    else:
        na = _sub_args(t.a, m, cache)
        r = t if na is t.a else rebuild(t.op, na)
    cache[t] = r
    return r


def _touches(t, m):
    seen = set()
    for x in subterms(t, seen):
        if x in m:
            return True
    return False


def subst_nodes(nodes, m, cache=None):
    if cache is None:
        cache = {'raw': all(k.op == 'cbv' for k in m)}
    return norm_nodes(tuple(subst(x, m, cache) for x in nodes))


def _sub_args(a, m, cache):
    out = None
    for i, x in enumerate(a):
        if isinstance(x, T):
            y = subst(x, m, cache)
        elif isinstance(x, tuple):
            y = _sub_args(x, m, cache)
        else:
            y = x
        if y is not x and out is None:
            out = list(a[:i])
        if out is not None:
            out.append(y)
    return a if out is None else tuple(out)


# ------------------------------------------------------------------ comprehensions
# node := item(v) | spl(c) | for(bv, lo, hi, rev, nodes) | alt(((guards),(nodes)), ...)
def item(v):
    return mk('item', v)


def spl_nodes(c):
    """nodes that enumerate collection term c"""
    if c.op == 'seq':
        return c.a
    if c.op == 'str':
        return tuple(item(mk('chr', ch)) for ch in c.a[0])
    return (mk('spl', c),)


def mk_alt(alts):
    out = []
    for g, ns in alts:
        if any(x is FALSE for x in g):
            continue
        g = tuple(sorted({x for x in g if x is not TRUE}, key=lambda x: x.u))
        out.append((g, norm_nodes(ns)))
    if not any(ns for _, ns in out):
        return None
    if len(out) == 1 and not out[0][0]:
        return out[0][1]
    out = [(g, ns) for g, ns in out if ns]
    out.sort(key=lambda x: tuple(y.u for y in x[0]))
    return (mk('alt', *out),)


def alt_nodes(alts):
    r = mk_alt(alts)
    return r if r is not None else ()


def close_for(bv, lo, hi, rev, nodes):
    """for bv in lo..hi { nodes }, bv an open binder; returns node tuple"""
    nodes = norm_nodes(nodes)
    if not nodes:
        return ()
    d = sub(hi, lo)
    if is_const(d) and cval(d) <= 0:
        return ()
    if is_const(d) and cval(d) == 1:
        return subst_nodes(nodes, {bv: lo})
    if is_const(d) and cval(d) <= 4:
        ks = range(cval(d))
        return norm_nodes(tuple(subst_nodes(nodes, {bv: add(lo, num(k))}) for k in (reversed(ks) if rev else ks)))
    # splice contraction
    if len(nodes) == 1 and nodes[0].op == 'item' and not rev and lo is ZERO:
        v = nodes[0].a[0]
        if v.op == 'elem' and v.a[1] is bv and bv not in free_ubv(v.a[0]) and hi is length(v.a[0]):
            return spl_nodes(v.a[0])
    h = 0
    for x in nodes:
        h = max(h, height(x))
    cb = mk('cbv', h)
    body = _rename(nodes, bv, cb)
    return (mk('for', cb, lo, hi, rev, body),)


def open_for(n):
    cb, lo, hi, rev, body = n.a
    b = new_bv('i')
    return b, lo, hi, rev, _rename(body, cb, b)


def _rename(nodes, x, y):
    return subst_nodes(nodes, {x: y}, {'raw': True})


def norm_nodes(nodes):
    out = []
    for n in nodes:
        if isinstance(n, tuple):
            out.extend(norm_nodes(n))
        elif n is None:
            pass
        elif n.op == 'spl' and n.a[0].op in ('seq', 'str'):
            out.extend(norm_nodes(spl_nodes(n.a[0])))
        else:
            out.append(n)
    return tuple(out)


def seq(nodes):
    nodes = norm_nodes(nodes)
    if len(nodes) == 1 and nodes[0].op == 'spl':
        return nodes[0].a[0]
    return mk('seq', *nodes)


EMPTY = mk('seq')


def nodes_of(c):
    return norm_nodes(spl_nodes(c))


def length(c):
    if c.op == 'seq':
        return cnt_of(c.a)
    if c.op == 'str':
        return num(len(c.a[0]))
    if c.op == 'upd':
        return length(c.a[0])
    if c.op == 'slice':
        base, lo, hi = c.a
        return sub(hi, lo)
    return mk('len', c)


def cnt_of(nodes):
    """number of items a node list yields, as an integer term"""
    nodes = norm_nodes(nodes)
    tot = ZERO
    for n in nodes:
        if n.op == 'item':
            tot = add(tot, ONE)
        elif n.op == 'spl':
            tot = add(tot, length(n.a[0]))
        elif n.op == 'for' and len(n.a[4]) == 1 and n.a[4][0].op == 'item':
            tot = add(tot, posn(sub(n.a[2], n.a[1])))
        else:
            tot = add(tot, mk('cnt', *units(n)))
    return tot


def posn(d):
    """max(0, d); all atoms are non-negative"""
    c, it = parts(d)
    if c >= 0 and all(k >= 0 for _, k in it):
        return d
    return mk('pos', d)


def units(n):
    """n (as a node list) with every item replaced by unit"""
    if n.op == 'item':
        return (item(UNIT),)
    if n.op == 'spl':
        return close_for(new_bv(), ZERO, length(n.a[0]), False, (item(UNIT),))
    if n.op == 'for':
        b, lo, hi, rev, body = open_for(n)
        return close_for(b, lo, hi, False, tuple(units(x) for x in body))
    if n.op == 'alt':
        return alt_nodes([(g, tuple(units(x) for x in ns)) for g, ns in n.a])
    return (n,)


def nonempty(nodes):
    """boolean term: the node list yields at least one item"""
    nodes = norm_nodes(nodes)
    r = FALSE
    for n in nodes:
        if n.op == 'item':
            return TRUE
        if n.op == 'spl':
            r = disj(r, le0(sub(ONE, length(n.a[0]))))
        elif n.op == 'alt':
            for g, ns in n.a:
                e = nonempty(ns)
                for x in g:
                    e = conj(e, x)
                r = disj(r, e)
        elif n.op == 'for':
            b, lo, hi, rev, body = open_for(n)
            e = nonempty(body)
            if e is TRUE:
                d = posn(sub(hi, lo))
                r = disj(r, le0(sub(ONE, d)) if d.op != 'pos' else lt(lo, hi))
            elif e is FALSE:
                pass
            else:
                ns = close_for(b, lo, hi, False, alt_nodes([(conjuncts(e), (item(UNIT),))]))
                r = disj(r, _some_unit(ns))
        else:
            r = disj(r, _some_unit((n,)))
        if r is TRUE:
            return r
    return r


def _some_unit(ns):
    """>= 1 for a node list in existence normal form"""
    ns = norm_nodes(ns)
    if not ns:
        return FALSE
    if len(ns) == 1 and ns[0].op in ('for', 'gen'):
        return mk('le', lin(1, [(mk('cnt', *ns), -1)]))
    return nonempty(ns)


def conjuncts(e):
    return e.a if e.op == 'and' else (e,)


def exform(nodes):
    """existence normal form of a single iteration"""
    n = nodes[0]
    if len(nodes) != 1:
        return None
    if n.op == 'gen':
        return nodes
    b, lo, hi, rev, body = open_for(n)
    e = nonempty(body)
    if e is TRUE or e is FALSE:
        return None
    return close_for(b, lo, hi, False, alt_nodes([(conjuncts(e), (item(UNIT),))]))


def first_of(nodes):
    """first item of a non-empty node list"""
    nodes = norm_nodes(nodes)
    if nodes and nodes[0].op == 'item':
        return nodes[0].a[0]
    if len(nodes) == 1 and nodes[0].op == 'spl':
        return elem(nodes[0].a[0], ZERO)
    if len(nodes) == 1 and nodes[0].op == 'for':
        b, lo, hi, rev, body = open_for(nodes[0])
        if len(body) == 1 and body[0].op == 'item':
            return subst(body[0].a[0], {b: add(hi, ONE, -1) if rev else lo})
        if not (len(body) == 1 and body[0].op == 'alt' and len(body[0].a) == 1
                and len(body[0].a[0][1]) == 1 and body[0].a[0][1][0].op == 'item'):
            g = nonempty(body)
            body = alt_nodes([((g,), (item(first_of(body)),))])
            nodes = close_for(b, lo, hi, rev, body)
    if len(nodes) == 1 and nodes[0].op == 'alt' and len(nodes[0].a) == 1:
        return first_of(nodes[0].a[0][1])
    return mk('first', *nodes)


def elem(c, i):
    if c.op == 'seq':
        ns = c.a
        if is_const(i):
            k = cval(i)
            for n in ns:
                if n.op != 'item':
                    break
                if k == 0:
                    return n.a[0]
                k -= 1
        if i is ZERO and ns:
            r = first_of(ns)
            return r
        if len(ns) == 1 and ns[0].op == 'for':
            cb, lo, hi, rev, body = ns[0].a
            if len(body) == 1 and body[0].op == 'item' and not rev:
                b, lo, hi, rev, body = open_for(ns[0])
                return subst(body[0].a[0], {b: add(lo, i)})
    if c.op == 'str' and is_const(i) and 0 <= cval(i) < len(c.a[0]):
        return mk('chr', c.a[0][cval(i)])
    if c.op == 'upd':
        base, j, v = c.a
        if i is j:
            return v
        d = sub(i, j)
        if is_const(d):
            return elem(base, i)
    if c.op == 'slice':
        return elem(c.a[0], add(c.a[1], i))
    return mk('elem', c, i)


def slice_of(c, lo, hi):
    if lo is ZERO and hi is length(c):
        return c
    if c.op == 'slice':
        return mk('slice', c.a[0], add(c.a[1], lo), add(c.a[1], hi))
    return mk('slice', c, lo, hi)


def upd(c, i, v):
    if c.op == 'upd' and c.a[1] is i:
        c = c.a[0]
    if elem(c, i) is v:
        return c
    return mk('upd', c, i, v)


# ------------------------------------------------------------------ maps
def mget(m, k):
    if m.op == 'mset':
        if m.a[1] is k:
            return some(m.a[2])
        if m.a[1].op == 'tyid' and k.op == 'tyid' and concrete(m.a[1]) and concrete(k):
            return mget(m.a[0], k)
    if m.op == 'mempty':
        return NONE
    return mk('mget', m, k)


def concrete(t):
    return not has_param(t.a)


def has_param(x):
    if isinstance(x, tuple):
        if x and x[0] in ('param', 'anyty', 'other'):
            return True
        return any(has_param(y) for y in x)
    return False


def mgetd(m, k):
    if m.op == 'mset':
        if m.a[1] is k:
            return m.a[2]
        if m.a[1].op == 'tyid' and k.op == 'tyid' and concrete(m.a[1]) and concrete(k):
            return mgetd(m.a[0], k)
    if m.op == 'mempty':
        return mk('mgetd', m, k)
    return mk('mgetd', m, k)


def mset(m, k, v):
    if m.op == 'mset' and m.a[1] is k:
        m = m.a[0]
    return mk('mset', m, k, v)


# ------------------------------------------------------------------ arithmetic helpers
def tmin(x, y):
    if x is y:
        return x
    d = sub(x, y)
    if is_const(d):
        return x if cval(d) <= 0 else y
    if y.u < x.u:
        x, y = y, x
    return mk('min', x, y)


def tmax(x, y):
    if x is y:
        return x
    d = sub(x, y)
    if is_const(d):
        return x if cval(d) >= 0 else y
    if y.u < x.u:
        x, y = y, x
    return mk('max', x, y)


def blen(s):
    if s.op == 'str':
        return num(len(s.a[0].encode()))
    if s is EMPTY:
        return ZERO
    return mk('blen', s)


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 14:
        return '…'
    if not isinstance(t, T):
        return repr(t)
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op == 'lin':
        c, it = a
        out = ''
        for x, k in it:
            out += (' + ' if k > 0 else ' - ') if out else ('' if k > 0 else '-')
            out += ('' if abs(k) == 1 else '%d*' % abs(k)) + s(x)
        if c or not out:
            out += (' + %d' % c if c > 0 else ' - %d' % -c) if out else str(c)
        return out
    if op == 'fld':
        return '%s.%s' % (s(a[0]), FNAMES.get((a[1], a[2]), a[2]))
    if op == 'vf':
        return '%s@%s.%d' % (s(a[0]), a[2], a[3])
    if op == 'agg':
        if a[0] == 'tuple':
            return '(%s)' % ', '.join(s(x) for x in a[2:])
        nm = (a[1] or a[0].split('::')[-1])
        return '%s(%s)' % (nm, ', '.join(s(x) for x in a[2:])) if len(a) > 2 else nm
    if op == 'le':
        c, it = parts(a[0])
        pos = lin(max(c, 0), [(x, k) for x, k in it if k > 0])
        ng = lin(max(-c, 0), [(x, -k) for x, k in it if k < 0])
        return '%s <= %s' % (s(pos), s(ng))
    if op == 'eq0':
        return '%s == 0' % s(a[0])
    if op == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if op == 'not':
        return '!(%s)' % s(a[0])
    if op == 'isv':
        return '%s is %s' % (s(a[0]), a[2])
    if op in ('true', 'false'):
        return op
    if op == 'p':
        return str(a[0])
    if op == 'ubv':
        return 'i%d' % a[0]
    if op == 'cbv':
        return 'b%d' % a[0]
    if op == 'phi':
        return 'phi%s' % '_'.join(str(x) for x in a[:2])
    if op == 'fin':
        return 'fin%s' % '_'.join(str(x) for x in a[:2])
    if op == 'elem':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'len':
        return 'len(%s)' % s(a[0])
    if op in ('str', 'chr'):
        return repr(a[0])
    if op == 'seq':
        return '[%s]' % '; '.join(s(x) for x in a)
    if op == 'item':
        return s(a[0])
    if op == 'spl':
        return '..%s' % s(a[0])
    if op == 'for':
        return 'for %s in %s%s..%s {%s}' % (s(a[0]), 'rev ' if a[3] else '', s(a[1]), s(a[2]), '; '.join(s(x) for x in a[4]))
    if op == 'alt':
        return '{%s}' % ' | '.join('%s => [%s]' % (' & '.join(s(x) for x in g), '; '.join(s(x) for x in ns)) for g, ns in a)
    if op == 'call':
        return '%s(%s)' % (short(a[0]), ', '.join(s(x) for x in a[2:]))
    if op == 'tyid':
        return 'TypeId<%s>' % showty(a[0])
    if op == 'mref':
        return '&mut %s' % (a,)
    return '%s(%s)' % (op, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))


FNAMES = {}


def short(n):
    return '::'.join(n.split('::')[-2:])


def showty(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'adt':
        return t[1].split('::')[-1] + ('<%s>' % ','.join(showty(x) for x in t[2] if x != ('adt', 'alloc::alloc::Global', ())) if t[2] else '')
    if t[0] == 'ref':
        return '&' + ('mut ' if t[1] else '') + showty(t[2])
    if t[0] == 'tuple':
        return '(%s)' % ','.join(showty(x) for x in t[1])
    return str(t[-1])


BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}


def intname(t):
    """the name of an integer type; usize where it is not known"""
    while t and t[0] == 'ref':
        t = t[-1]
    return t[1] if t and t[0] in ('int', 'uint') and len(t) > 1 and t[1] in BITS else 'usize'
