"""Finite-model interpretation of abstract values.

A comparison of two summaries that the normal-form / entailment rules cannot
settle is only reported as a violation when a small model of the type
invariants separates the two *summaries*.  Nothing of /repo is executed: the
objects interpreted here are the terms and loop summaries the analysis computed
from MIR.
"""
import hashlib
import sys
from collections import namedtuple
import uni
from terms import *

sys.setrecursionlimit(20000)

Agg = namedtuple('Agg', 'adt var fs')
Sym = namedtuple('Sym', 'tag args')


class Undef(Exception):
    """no value in this model (unsupported construct): the comparison is inconclusive"""


class Panics(Undef):
    """a pass of a loop that is entered has no way on: every path through it panics"""


class RunsOn(Undef):
    """a loop does not come to an end within the passes tried"""


class NotHere(Exception):
    """the symbol belongs to an exit that is not taken in this model"""


def longest(vs):
    """the length of the longest sequence in the model"""
    best, todo, k = 0, list(vs), 0
    while todo and k < 400:
        v = todo.pop()
        k += 1
        if isinstance(v, Agg):
            todo.extend(v.fs)
        elif isinstance(v, (tuple, list)):
            best = max(best, len(v))
            todo.extend(v[:4])
    return best


class FMap:
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    def __eq__(self, o):
        return isinstance(o, FMap) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        return 'Map%r' % (self.d,)


class _Def:
    def __repr__(self):
        return 'DEFAULT'


DEF = _Def()


def T2(*fs):
    return Agg('tuple', None, tuple(fs))


NONEV = Agg(OPTION, 'None', ())


def Some(x):
    return Agg(OPTION, 'Some', (x,))


def canon(v):
    """observable part of a value"""
    if v is DEF:
        return ()
    if isinstance(v, Agg):
        if v.adt == 'tuple0' or (v.adt == 'tuple' and not v.fs):
            return 'unit'
        fs = tuple(canon(x) for x in v.fs)
        if v.var is None and v.adt not in ('tuple', 'dyn') and fs and all(f == () for f in fs):
            return ()
        if v.adt == 'dyn':
            return ('dyn', canon(v.fs[0]))
        return (v.adt, v.var) + fs
    if isinstance(v, FMap):
        d = {k: canon(x) for k, x in v.d.items()}
        d = {k: x for k, x in d.items() if x != () and x != ('dyn', ())}
        return FMap(d) if d else ()
    if isinstance(v, tuple) and not isinstance(v, Sym):
        return tuple(canon(x) for x in v)
    if isinstance(v, Clo):
        raise Undef('closure')
    return v


def snap(v):
    """as canon, a line standing for itself"""
    if isinstance(v, Clo):
        raise Undef('closure')
    if isinstance(v, Agg):
        return ('line', id(v)) if v.adt.endswith('::LLLine') else (v.adt, v.var) + tuple(snap(x) for x in v.fs)
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    return canon(v)


def uncanon(v):
    """a value with the given observable part (map keys are kept by their observable part)"""
    if isinstance(v, tuple) and not isinstance(v, Sym) and len(v) >= 2 and isinstance(v[0], str) and len(v[0]) > 1 \
            and (v[1] is None or (isinstance(v[1], str) and len(v[1]) > 1)) and ('::' in v[0] or v[0] == 'tuple'):
        return Agg(v[0], v[1], tuple(uncanon(x) for x in v[2:]))
    if v == 'unit':
        return Agg('tuple', None, ())
    if isinstance(v, tuple) and not isinstance(v, Sym):
        return tuple(uncanon(x) for x in v)
    return v


def h(*x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=6).digest(), 'big')


SHARED = {'call', 'seq', 'fin', 'phi', 'cnt', 'sorted', 'hashseq'}


class Ev:
    def __init__(self, interp, env=None, funcs=None, seed=0, variants=None, strings_free=False):
        self.I = interp
        self.loops = getattr(interp, 'loops', {}) if interp is not None else {}
        self.env = dict(env or {})
        self.funcs = funcs or {}
        self.seed = seed
        self.memo = {}
        self.scale = 1 + longest(self.env.values()) // 60
        self.budget = 200000 * self.scale
        self.cache = {}
        self.ops = frozenset(k.op for k in self.env) | {'ubv', 'phi', 'fin', 'cbv', 'liter'}
        if interp is not None:
            self.fvs = interp.__dict__.setdefault('_fvs', {}).setdefault(self.ops, {})
        else:
            self.fvs = {}

    def fv(self, t):
        """everything a term's value depends on"""
        r = self.fvs.get(t)
        if r is not None:
            return r
        self.fvs[t] = ()
        out = {t: 1} if t.op in self.ops else {}
        for x in flat(t.a):
            out.update(dict.fromkeys(self.fv(x)))
        lid = t.a[0] if t.op in ('phi', 'gen', 'fin') else getattr(self.I, 'bv_loop', {}).get(t) if t.op == 'ubv' else None
        lp = self.loops.get(lid) if lid is not None else None
        for d in (lp.deps or () if lp is not None else ()):
            out.update(dict.fromkeys(self.fv(d)))
        self.fvs[t] = tuple(out)
        return self.fvs[t]

    # ------------------------------------------------------------ coercions
    def toint(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if v is DEF:
            return 0
        if isinstance(v, str) and len(v) == 1:
            return ord(v)
        raise Undef('int from %r' % (v,))

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        raise Undef('bool from %r' % (v,))

    def toseq(self, v):
        if v is DEF:
            return ()
        if isinstance(v, Agg) and v.adt == OPTION:
            return v.fs
        if isinstance(v, Agg) and v.adt == 'dyn':
            return self.toseq(v.fs[0])
        if isinstance(v, tuple) and not isinstance(v, Agg):
            return v
        raise Undef('seq from %r' % (v,))

    def tomap(self, v):
        if v is DEF:
            return {}
        if isinstance(v, FMap):
            return v.d
        raise Undef('map from %r' % (v,))

    # ------------------------------------------------------------ evaluation
    def ty(self, t):
        if isinstance(t, T):
            return self.ev(t)
        if isinstance(t, tuple):
            if t and t[0] == 'anyty':
                v = self.ev(t[1])
                if isinstance(v, Agg) and v.adt == 'Any':
                    return v.fs[0]
                return ('anyty', v)
            return tuple(self.ty(x) for x in t)
        return t

    def ev(self, t):
        self.budget -= 1
        if self.budget < 0:
            raise Undef('budget')
        if t in self.env:
            return self.env[t]
        f = getattr(self, 'e_' + t.op, None)
        if f is None:
            raise Undef('op ' + t.op)
        if t.op not in SHARED:
            return f(*t.a)
        vals = tuple(self.env.get(x, self) for x in self.fv(t))
        key = (t, tuple(map(id, vals)))
        r = self.cache.get(key)
        if r is None:
            try:
                r = (True, f(*t.a), vals)
            except NotHere as e:
                r = (False, e, vals)
            self.cache[key] = r
        if r[0]:
            return r[1]
        raise r[1]

    def e_true(self):
        return True

    def e_false(self):
        return False

    def e_lin(self, c, it):
        for t, k in it:
            c += k * self.toint(self.ev(t))
        return c

    def e_le(self, l):
        return self.toint(self.ev(l)) <= 0

    def e_eq0(self, l):
        return self.toint(self.ev(l)) == 0

    def e_eq(self, x, y):
        return canon(self.ev(x)) == canon(self.ev(y))

    def e_not(self, x):
        return not self.tobool(self.ev(x))

    def e_and(self, *xs):
        return self.all3(xs)

    def e_or(self, *xs):
        und = None
        for x in xs:
            try:
                if self.tobool(self.ev(x)):
                    return True
            except (Undef, NotHere) as e:
                und = e
        if und:
            raise und
        return False

    def all3(self, xs):
        und = None
        for x in xs:
            try:
                if not self.tobool(self.ev(x)):
                    return False
            except Undef as e:
                und = e
        if und:
            raise und
        return True

    def e_p(self, *a):
        raise Undef('parameter %s' % (a,))

    def e_agg(self, adt, var, *fs):
        return Agg(adt, var, tuple(self.ev(f) for f in fs))

    def e_fld(self, t, adt, i):
        v = self.ev(t)
        if v is DEF:
            return DEF
        if isinstance(v, Agg):
            if i < len(v.fs):
                return v.fs[i]
            raise Undef('field')
        if isinstance(v, Sym):
            return Sym('fld', (v, adt, i))
        raise Undef('field of %r' % (v,))

    def variant(self, v, adt):
        if isinstance(v, Agg):
            return v.var
        raise Undef('variant of %r' % (v,))

    def e_isv(self, t, adt, var):
        return self.variant(self.ev(t), adt) == var

    def e_vf(self, t, adt, var, i):
        v = self.ev(t)
        if self.variant(v, adt) != var:
            raise NotHere('payload')
        if isinstance(v, Agg):
            return v.fs[i]
        return Sym('vf', (v, var, i))

    def e_discr(self, t, adt):
        v = self.ev(t)
        vs = VARIANTS.get(adt)
        if not vs:
            raise Undef('discr')
        i = vs.index(self.variant(v, adt))
        return DISCR.get(adt, list(range(len(vs))))[i]

    def e_str(self, s):
        return tuple(s)

    def e_chr(self, c):
        return c

    def e_ord(self, x):
        v = self.ev(x)
        return ord(v) if isinstance(v, str) else self.toint(v)

    def e_b2i(self, x):
        return int(self.tobool(self.ev(x)))

    def e_wrap(self, x, bits, signed):
        v = self.toint(self.ev(x)) % 2 ** bits
        return v - 2 ** bits if signed and v >= 2 ** (bits - 1) else v

    def e_min(self, x, y):
        return min(self.toint(self.ev(x)), self.toint(self.ev(y)))

    def e_max(self, x, y):
        return max(self.toint(self.ev(x)), self.toint(self.ev(y)))

    def e_pos(self, x):
        return max(0, self.toint(self.ev(x)))

    def e_mul(self, x, y):
        return self.toint(self.ev(x)) * self.toint(self.ev(y))

    def e_div(self, x, y):
        b = self.toint(self.ev(y))
        if b == 0:
            raise Undef('div')
        return self.toint(self.ev(x)) // b

    def e_rem(self, x, y):
        b = self.toint(self.ev(y))
        if b == 0:
            raise Undef('rem')
        return self.toint(self.ev(x)) % b

    def e_bitnot(self, x):
        v = self.ev(x)
        if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
            return 2 ** 64 - 1 - v        # usize
        raise Undef('bitnot')

    def e_len(self, c):
        return len(self.toseq(self.ev(c)))

    def e_blen(self, c):
        return sum(len(x.encode()) if isinstance(x, str) else 1 for x in self.toseq(self.ev(c)))

    def e_cnt(self, *ns):
        return len(self.nodes(ns))

    def e_first(self, *ns):
        s = self.nodes(ns)
        if not s:
            raise NotHere('first of empty')
        return s[0]

    def e_elem(self, c, i):
        s = self.toseq(self.ev(c))
        k = self.toint(self.ev(i))
        if not 0 <= k < len(s):
            raise NotHere('index')
        return s[k]

    def e_slice(self, c, lo, hi):
        s = self.toseq(self.ev(c))
        a, b = self.toint(self.ev(lo)), self.toint(self.ev(hi))
        if not 0 <= a <= b <= len(s):
            raise NotHere('slice')
        return s[a:b]

    def e_upd(self, c, i, v):
        s = list(self.toseq(self.ev(c)))
        k = self.toint(self.ev(i))
        if not 0 <= k < len(s):
            raise NotHere('index')
        s[k] = self.ev(v)
        return tuple(s)

    def e_seq(self, *ns):
        return self.nodes(ns)

    def nodes(self, ns):
        out = []
        self._nodes(ns, out)
        return tuple(out)

    def _nodes(self, ns, out):
        for n in ns:
            if n.op == 'item':
                out.append(self.ev(n.a[0]))
            elif n.op == 'spl':
                out.extend(self.toseq(self.ev(n.a[0])))
            elif n.op == 'for':
                b, lo, hi, rev, body = n.a
                r = range(self.toint(self.ev(lo)), self.toint(self.ev(hi)))
                save = self.env.get(b, self)
                for i in (reversed(r) if rev else r):
                    self.env[b] = i
                    self._nodes(body, out)
                if save is self:
                    self.env.pop(b, None)
                else:
                    self.env[b] = save
            elif n.op == 'alt':
                for g, x in n.a:
                    if self.guard(g):
                        self._nodes(x, out)
                        break
            elif n.op == 'gen':
                self.run_loop(n.a[0], gen=(n.a[1], out))
            else:
                raise Undef('node ' + n.op)

    def guard(self, gs):
        for g in gs:
            try:
                if not self.tobool(self.ev(g)):
                    return False
            except NotHere:
                return False
        return True

    # ------------------------------------------------------------ maps, dynamic values
    def e_mempty(self):
        return FMap({})

    def e_mset(self, m, k, v):
        d = dict(self.tomap(self.ev(m)))
        d[canon(self.ev(k))] = self.ev(v)
        return FMap(d)

    def e_mdel(self, m, k):
        d = dict(self.tomap(self.ev(m)))
        d.pop(canon(self.ev(k)), None)
        return FMap(d)

    def e_setof(self, s):
        return FMap({canon(x): () for x in self.toseq(self.ev(s))})

    def e_mget(self, m, k):
        m = self.ev(m)
        k = canon(self.ev(k))
        d = self.tomap(m)
        return Some(d[k]) if k in d else NONEV

    def e_mgetd(self, m, k):
        m = self.ev(m)
        k = canon(self.ev(k))
        return self.tomap(m).get(k, DEF)

    def e_mgetor(self, m, k, dflt):
        d = self.tomap(self.ev(m))
        k = canon(self.ev(k))
        return d[k] if k in d else self.ev(dflt)

    def e_tyid(self, t):
        return ('tyid', self.normty(self.ty(t)))

    def normty(self, t):
        return t

    def e_vals(self, m, t):
        d = self.tomap(self.ev(m))
        v = d.get(canon(self.e_tyid(t)), DEF)
        return self.toseq(v)

    def e_dyn(self, t, v):
        return Agg('dyn', None, (self.ev(v),))

    def e_asdyn(self, t, v):
        x = self.ev(v)
        if isinstance(x, Agg) and x.adt == 'dyn':
            return x.fs[0]
        if x is DEF:
            return DEF
        raise Undef('asdyn')

    e_undyn = e_asdyn

    def e_tyeq(self, a, b):
        return self.ev(a) == self.ev(b)

    def e_ty(self, t):
        return ('ty', self.ty(t))

    def e_anyval(self, t):
        v = self.ev(t)
        if isinstance(v, Agg) and v.adt == 'Any':
            return v.fs[1]
        if isinstance(v, Sym):
            return Sym('anyval', (v,))
        raise Undef('anyval')

    def e_zst(self, *a):
        return Sym('zst', (repr(a),))

    def e_const(self, *a):
        return Sym('const', (repr(a),))

    def e_mfrom(self, s):
        d = {}
        for x in self.toseq(self.ev(s)):
            if not isinstance(x, Agg) or len(x.fs) != 2:
                raise Undef('map entry')
            d[canon(x.fs[0])] = x.fs[1]
        return FMap(d)

    def e_hashseq(self, how, m):
        d = self.tomap(self.ev(m))
        ks = sorted(d, key=lambda k: h(self.seed, 'order', k))
        return self.mapseq(how, d, ks)

    def e_btseq(self, how, m):
        d = self.tomap(self.ev(m))
        return self.mapseq(how, d, sorted(d))

    def mapseq(self, how, d, ks):
        if 'key' in how:
            return tuple(uncanon(k) for k in ks)
        if 'value' in how:
            return tuple(d[k] for k in ks)
        return tuple(T2(uncanon(k), d[k]) for k in ks)

    def closure(self, clo, n):
        """a closure as a function of model values"""
        from interp import St, Unsupported, Impure
        bs = [new_bv('arg') for _ in range(n)]
        try:
            outs = self.I.call_value(St({}, ()), None, clo, bs, '')
        except (Unsupported, Impure, AttributeError):
            raise Undef('closure')

        def app(*vs):
            save = dict(self.env)
            self.env.update(zip(bs, vs))
            try:
                o = self.outcome(outs)
                if o is None:
                    raise Undef('closure')
                return canon(self.ev(o[1]))
            finally:
                self.restore(save)
        return app

    def e_sorted(self, how, c, *clo):
        import functools
        xs = list(self.toseq(self.ev(c)))
        if not clo:
            return tuple(sorted(xs, key=lambda x: _key(canon(x))))
        key = 'key' in how
        app = self.closure(clo[0], 1 if key else 2)
        if key:
            return tuple(sorted(xs, key=lambda x: _key(app(x))))

        def cmp(x, y):
            o = app(x, y)
            if not (isinstance(o, tuple) and len(o) == 2 and o[1] in ('Less', 'Equal', 'Greater')):
                raise Undef('ordering')
            return ('Less', 'Equal', 'Greater').index(o[1]) - 1
        return tuple(sorted(xs, key=functools.cmp_to_key(cmp)))

    def e_dedup(self, how, c, *clo):
        xs = self.toseq(self.ev(c))
        if how == 'dedup':
            same = lambda a, b: canon(a) == canon(b)
        elif how == 'dedup_by_key':
            k = self.closure(clo[0], 1)
            same = lambda a, b: k(a) == k(b)
        else:
            same = self.closure(clo[0], 2)
        out = []
        for x in xs:
            if not out or not self.tobool(same(x, out[-1])):
                out.append(x)
        return tuple(out)

    # ------------------------------------------------------------ calls
    def e_call(self, name, targs, *args):
        f = self.funcs.get(short(name)) or self.funcs.get(name) or self.funcs.get(name.split('::')[-1])
        if f is not None:
            return f(self, targs, *[self.ev(a) for a in args])
        g = STDF.get(name)
        if g is not None:
            r = g(self, *[self.ev(a) for a in args])
            if r is not None:
                return r
        # an uninterpreted function separates nothing: two ways of computing the same thing
        # would look different
        if name not in UNINTERPRETED:
            raise Undef('uninterpreted ' + name)
        return Sym('call', (name,) + tuple(canon(self.ev(a)) for a in args))

    def e_clo(self, *a):
        return Clo(mk('clo', *a))

    def e_panic(self, *a):
        # an item whose computation panics; whoever gets hold of the item has panicked
        return Sym('panic', a)

    # ------------------------------------------------------------ loops
    def e_fin(self, lid, k, ty, *deps):
        r = self.loop_result(lid, deps)
        if r['end'] != 'done':
            raise NotHere('loop left early')
        return r['fin'][k]

    def e_phi(self, lid, k, *a):
        # after the loop: the value in the pass that left it
        r = self.loop_result(lid, None)
        if r['end'] == 'done':
            raise NotHere('loop ran to its end')
        return r['env'][mk('phi', lid, k, *a)]

    def e_ubv(self, i, hint):
        # binder of a pass that left its loop
        b = mk('ubv', i, hint)
        lid = getattr(self.I, 'bv_loop', {}).get(b)
        if lid is None:
            raise Undef('open binder')
        r = self.loop_result(lid, None)
        if r['end'] == 'done' or b not in r['env']:
            raise NotHere('binder')
        return r['env'][b]

    def loop_result(self, lid, deps):
        lp = self.loops.get(lid)
        if lp is None:
            raise Undef('loop summary')
        bind = {}
        if deps is not None:
            for s, d in zip(lp.deps, deps):
                bind[s] = self.ev(d)
        else:
            for s in lp.deps:
                try:
                    bind[s] = self.ev(s)
                except NotHere:
                    raise Undef('pass of an enclosing loop')
        key = ('loop', lid, tuple(map(id, bind.values())))
        r = self.cache.get(key)
        if r is None:
            save = dict(self.env)
            self.env.update(bind)
            try:
                r = self.exec_loop(lp)
            finally:
                self.restore(save)
            self.cache[key] = (r, tuple(bind.values()))
        else:
            r = r[0]
        return r

    def run_loop(self, lid, gen=None):
        lp = self.loops.get(lid)
        if lp is None:
            raise Undef('loop summary')
        save = dict(self.env)
        try:
            self.exec_loop(lp, gen)
        finally:
            self.restore(save)

    def restore(self, save):
        self.env.clear()
        self.env.update(save)

    def exec_loop(self, lp, gen=None):
        """fold the transition summaries over the items of the driver"""
        env = self.env
        mods = {loc: m for loc, m in lp.mods.items() if m['kind'] != 'iter'}
        cur = {m['phi']: self.ev(m['init']) for m in mods.values()}
        counter = lp.counter['phi'] if lp.counter else None
        memo0 = self.memo

        def one(leaf):
            """one pass; returns None to go on or an early-exit index"""
            self.memo = {}
            for phi, v in cur.items():
                if phi is not counter or lp.tree is None:
                    env[phi] = v
            for i, e in enumerate(lp.early):
                if (e['leaf'] == leaf or leaf is None) and self.holds(e['guards'], e['st'], lp):
                    return ('early', i)
            hit = None
            for t in lp.trans:
                if t['leaf'] == leaf or leaf is None:
                    if self.holds(t['guards'], t['st'], lp):
                        hit = t
                        break
            if hit is None:
                self.stuck(lp)
            if gen is not None:
                for g, ns in gen[0]:
                    if self.guard(g):
                        self._nodes(ns, gen[1])
                        break
            new = {}
            for loc, m in mods.items():
                v = hit['vals'][loc]
                new[m['phi']] = cur[m['phi']] if v is m['phi'] else self.ev(v)
            cur.update(new)
            return None

        res = None
        if lp.tree is not None:
            for leaf in self.drive(lp.tree):
                res = one(leaf)
                if res is not None:
                    break
        else:
            if not hasattr(lp, 'control'):
                lp.control = self.control(lp, mods)
            ctl, seen = lp.control, set()
            for _ in range(1500 * self.scale):
                state = tuple(snap(cur[x]) for x in ctl)
                if state in seen:
                    raise RunsOn('loop at %s returns to an earlier state' % lp.span)
                seen.add(state)
                res = one(None)
                if res is not None:
                    break
            else:
                raise RunsOn('loop at %s runs on' % lp.span)
        self.memo = memo0
        if res is None:
            return {'end': 'done', 'fin': {phi.a[1]: v for phi, v in cur.items()}, 'env': {}}
        return {'end': res, 'fin': {}, 'env': dict(env)}

    def control(self, lp, mods):
        """the variables of a loop that have a say in where it goes"""
        phis = {m['phi']: loc for loc, m in mods.items()}

        def used(x, out, seen):
            if isinstance(x, T):
                for t in subterms(x, seen):
                    if t in phis:
                        out.add(t)
            elif isinstance(x, dict):
                for y in x.values():
                    used(y, out, seen)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    used(y, out, seen)
        rel, seen = set(), set()
        used([tr['guards'] for tr in lp.trans] + [e['guards'] for e in lp.early], rel, seen)
        for l in self.loops.values():
            if l is not lp:
                used([[m['init'] for m in l.mods.values()], l.tree, [t['guards'] for t in l.trans], [e['guards'] for e in l.early]], rel, seen)
        todo = list(rel)
        while todo:
            x = todo.pop()
            new = set()
            used([tr['vals'][phis[x]] for tr in lp.trans], new, set())
            todo += new - rel
            rel |= new
        return sorted(rel, key=lambda t: t.u)

    def stuck(self, lp):
        """no path of the summary leads on from here"""
        try:
            if self.guard(lp.entry.facts):
                raise Panics('no pass of the loop at %s leads on' % lp.span)
        except NotHere:
            pass
        raise Undef('no transition of loop at %s' % lp.span)

    def holds(self, guards, st, lp):
        return self.applies(guards, st, lp.entry)

    def applies(self, guards, st, entry=None):
        """the path took the exits it says it took, and its facts hold"""
        try:
            if not self.markers(st, entry):
                return False
        except NotHere:        # a loop this path never reaches in the model: one of its facts fails before
            if self.guard(guards):
                raise Undef('exit of a loop that is not reached')
            return False
        return self.guard(guards)

    def markers(self, st, entry=None):
        for k, v in st.meta.items():
            if k[0] != 'exit':
                continue
            if entry is not None and entry.meta.get(k) == v:
                continue
            r = self.loop_result(k[1], None)
            e = r['end'] if r['end'] == 'done' else r['end'][1]
            if e not in v:
                return False
        return True

    def drive(self, tree):
        for e in tree:
            if e[0] == 'leaf':
                yield e[1]
            elif e[0] == 'for':
                r = range(self.toint(self.ev(e[2])), self.toint(self.ev(e[3])))
                for i in (reversed(r) if e[4] else r):
                    self.env[e[1]] = i
                    yield from self.drive(e[5])
            elif e[0] == 'alt':
                for g, sub_ in e[1]:
                    if self.guard(g):
                        yield from self.drive(sub_)
                        break
            else:
                raise Undef('driver ' + e[0])

    # ------------------------------------------------------------ outcomes
    def outcome(self, outs):
        """the outcome of a function that applies in this model"""
        hit = None
        for s, v in outs:
            self.memo = {}
            if self.applies(s.facts, s):
                if hit is not None and not (hit[1] is v and hit[0].mem == s.mem):
                    a, b = self.obs(hit), self.obs((s, v))
                    if a != b:
                        raise Undef('two outcomes apply')
                hit = (s, v)
        return hit

    def obs(self, o):
        return canon(self.ev(o[1]))


class Rev:
    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return o.k < self.k

    def __ge__(self, o):
        return not self < o

    def __eq__(self, o):
        return self.k == o.k


def _key(v):
    if isinstance(v, tuple) and all(isinstance(c, str) and len(c) == 1 for c in v):
        return ''.join(v).encode()
    if isinstance(v, (int, bool)):
        return v
    if isinstance(v, str) and len(v) == 1:
        return v.encode()
    if isinstance(v, tuple) and len(v) > 1 and v[0] == 'tuple':
        return tuple(_key(x) for x in v[2:])
    if isinstance(v, tuple) and len(v) == 3 and str(v[0]).endswith('::Reverse'):
        return Rev(_key(v[2]))
    raise Undef('order of %r' % (v,))


def _cmp(ev, a, b):
    a, b = _key(canon(a)), _key(canon(b))
    return Agg(ORDERING, 'Less' if a < b else 'Equal' if a == b else 'Greater', ())


def _lower(ev, s):
    s = ev.toseq(s)
    if all(isinstance(c, str) for c in s):
        return tuple(''.join(s).lower())
    return None


def _chf(f):
    def g(ev, c, *a):
        if isinstance(c, str) and len(c) == 1:
            return f(c, *a)
        return None
    return g


def _digit(c, r):
    i = '0123456789abcdefghijklmnopqrstuvwxyz'.find(c.lower() if c.isascii() else '?')
    return i if 0 <= i < r else None


UNINTERPRETED = {'debug', 'debug#', 'fn'}


def _bit(f):
    def g(ev, x, y):
        if isinstance(x, bool) and isinstance(y, bool):
            return bool(f(x, y))
        return f(x, y) if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool) and not isinstance(y, bool) else None
    return g


def _bsearch(ev, c, x):
    """the standard library's search, also on slices that are not sorted"""
    c, x = ev.toseq(c), _key(canon(x))
    lo, n = 0, len(c)
    if n == 0:
        return Agg(RESULT, 'Err', (0,))
    while n > 1:
        half = n // 2
        if not _key(canon(c[lo + half])) > x:
            lo += half
        n -= half
    k = _key(canon(c[lo]))
    return Agg(RESULT, 'Ok', (lo,)) if k == x else Agg(RESULT, 'Err', (lo + (1 if k < x else 0),))


class Clo:
    """a closure of the analysed code, handed to an opaque function"""
    def __init__(self, t):
        self.t = t

STDF = {
    'BitAnd': _bit(lambda x, y: x & y),
    'BitOr': _bit(lambda x, y: x | y),
    'BitXor': _bit(lambda x, y: x ^ y),
    'Shl': _bit(lambda x, y: (x << y) & (2 ** 64 - 1) if 0 <= y < 64 else None),
    'Shr': _bit(lambda x, y: x >> y if 0 <= y < 64 else None),
    'seq::binary_search': _bsearch,
    'Rc::unique': lambda ev, *a: True,
    # a vector grown from empty by push: the amortised growth of the standard library
    'capacity': lambda ev, v: (lambda n: 0 if n == 0 else max(4, 1 << (n - 1).bit_length()))(len(ev.toseq(v))),
    'lower': _lower,
    'Ord::cmp': _cmp,
    'HashMap::len': lambda ev, m: len(ev.tomap(m)),
    'HashMap::is_empty': lambda ev, m: not ev.tomap(m),
    'is_ascii_digit': _chf(lambda c: '0' <= c <= '9'),
    'is_digit': _chf(lambda c, r=10: _digit(c, r) is not None),
    'char::is_alphabetic': _chf(uni.alpha),
    'char::is_numeric': _chf(uni.num),
    'char::is_whitespace': _chf(uni.space),
    'char::is_alphanumeric': _chf(uni.alnum),
}

for _k in [k for k in STDF if k.startswith('char::')]:
    STDF[_k[6:]] = STDF[_k]
STDF.update({
    'is_ascii_alphabetic': _chf(lambda c: c.isascii() and c.isalpha()),
    'is_ascii_alphanumeric': _chf(lambda c: c.isascii() and c.isalnum()),
    'is_ascii_whitespace': _chf(lambda c: c in ' \t\n\r\x0c'),
    'is_ascii_punctuation': _chf(lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' '),
    'is_ascii': _chf(lambda c: c.isascii()),
    'is_uppercase': _chf(uni.upper),
    'is_lowercase': _chf(uni.lower),
    'is_ascii_hexdigit': _chf(lambda c: c in '0123456789abcdefABCDEF'),
    'is_ascii_graphic': _chf(lambda c: '!' <= c <= '~'),
    'is_ascii_control': _chf(lambda c: ord(c) < 32 or ord(c) == 127),
    'char::to_digit': _chf(lambda c, r: NONEV if _digit(c, r) is None else Some(_digit(c, r))),
    'char::from_digit': lambda ev, n, r: Some('0123456789abcdefghijklmnopqrstuvwxyz'[n]) if 0 <= n < r <= 36 else NONEV,
    'char::to_lowercase': _chf(lambda c: tuple(c.lower())),
    'char::to_uppercase': _chf(lambda c: tuple(c.upper())),
    'char::from_code': lambda ev, n: n if isinstance(n, str) else chr(n),
    'is_ascii_uppercase': _chf(lambda c: c.isascii() and c.isupper()),
    'is_ascii_lowercase': _chf(lambda c: c.isascii() and c.islower()),
    'is_control': _chf(uni.control),
})


def _s(ev, v):
    v = ev.toseq(v)
    if not all(isinstance(c, str) for c in v):
        raise Undef('text')
    return ''.join(v)


def _pat(ev, v):
    """a char or a string pattern"""
    if isinstance(v, str):
        return v
    if isinstance(v, tuple) and all(isinstance(c, str) for c in v):
        return ''.join(v)
    raise Undef('pattern')


def _strf(f):
    return lambda ev, s, *a: f(_s(ev, s), *[_pat(ev, x) for x in a])


def _t(s):
    return tuple(s)


def _opt(s):
    return NONEV if s is None else Some(tuple(s))


def _index(ev, s, lo, hi):
    b = _s(ev, s).encode()
    lo, hi = ev.toint(lo), ev.toint(hi)
    if not 0 <= lo <= hi <= len(b):
        raise NotHere('str index')
    try:
        return tuple(b[lo:hi].decode())
    except UnicodeDecodeError:
        raise NotHere('str index')


def _charrange(ev, s, lo, hi):
    try:
        _index(ev, s, lo, hi)
        return True
    except NotHere:
        return False


def _trim(s, m):
    while m & 1 and s and uni.space(s[0]):
        s = s[1:]
    while m & 2 and s and uni.space(s[-1]):
        s = s[:-1]
    return s


def _rstrip(s, p):
    while p and s.endswith(p):
        s = s[:-len(p)]
    return s


def _lstrip(s, p):
    while p and s.startswith(p):
        s = s[len(p):]
    return s


STDF.update({
    'str::index': _index,
    'is_char_range': _charrange,
    'str::trim': _strf(lambda s: _t(_trim(s, 3))),
    'str::trim_start': _strf(lambda s: _t(_trim(s, 1))),
    'str::trim_end': _strf(lambda s: _t(_trim(s, 2))),
    'str::to_uppercase': _strf(lambda s: _t(s.upper())),
    'str::to_ascii_lowercase': _strf(lambda s: _t(''.join(c.lower() if c.isascii() else c for c in s))),
    'str::to_ascii_uppercase': _strf(lambda s: _t(''.join(c.upper() if c.isascii() else c for c in s))),
    'str::eq_ignore_ascii_case': _strf(lambda s, t: ''.join(c.lower() if c.isascii() else c for c in s)
                                       == ''.join(c.lower() if c.isascii() else c for c in t)),
    'str::starts_with': _strf(lambda s, t: s.startswith(t)),
    'str::ends_with': _strf(lambda s, t: s.endswith(t)),
    'str::contains': _strf(lambda s, t: t in s),
    'str::trim_end_matches': _strf(lambda s, t: _t(_rstrip(s, t))),
    'str::trim_start_matches': _strf(lambda s, t: _t(_lstrip(s, t))),
    'str::trim_matches': _strf(lambda s, t: _t(_lstrip(_rstrip(s, t), t))),
    'str::strip_suffix': _strf(lambda s, t: _opt(s[:len(s) - len(t)] if s.endswith(t) else None)),
    'str::strip_prefix': _strf(lambda s, t: _opt(s[len(t):] if s.startswith(t) else None)),
    'str::replace': _strf(lambda s, t, u: _t(s.replace(t, u))),
    'char::to_ascii_lowercase': _chf(lambda c: c.lower() if c.isascii() else c),
    'char::to_ascii_uppercase': _chf(lambda c: c.upper() if c.isascii() else c),
})


def _pairs(ev, c):
    return [x.fs for x in ev.toseq(c)]


def _opt1(xs):
    return Some(xs[0]) if xs else NONEV


def _while(ev, c, drop):
    out, on = [], True
    for b, v in _pairs(ev, c):
        on = on and ev.tobool(b)
        if on != drop:
            out.append(v)
    return tuple(out)


def _mapwhile(ev, c):
    out = []
    for o, _ in _pairs(ev, c):
        if o.var != 'Some':
            break
        out.append(o.fs[0])
    return tuple(out)


def _maxby(ev, c, big):
    best = None
    for k, v in _pairs(ev, c):
        k = _key(canon(k))
        if best is None or (k >= best[0] if big else k < best[0]):
            best = (k, v)
    return NONEV if best is None else Some(best[1])


def _chunks(ev, c, n, exact):
    c = ev.toseq(c)
    return tuple(c[i:i + n] for i in range(0, len(c), n) if not exact or i + n <= len(c))


def _join(ev, c, sep):
    sep = tuple(sep) if isinstance(sep, str) else ev.toseq(sep)
    out = ()
    for i, x in enumerate(ev.toseq(c)):
        out += (sep if i else ()) + ev.toseq(x)
    return out


def _product(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def _boff(s, i):
    return NONEV if i < 0 else Some(len(s[:i].encode()))


def _once(s, t, right):
    i = s.rfind(t) if right else s.find(t)
    return NONEV if i < 0 else Some(T2(tuple(s[:i]), tuple(s[i + len(t):])))


def _rlines(s):
    out = s.split('\n')
    if out and out[-1] == '':
        out.pop()
    return tuple(tuple(x[:-1] if x.endswith('\r') else x) for x in out)


def _words(s, sp):
    out, cur = [], ''
    for c in s + ' ':
        if sp(c):
            if cur:
                out.append(tuple(cur))
            cur = ''
        else:
            cur += c
    return tuple(out)


STDF.update({
    'seq::position': lambda ev, c: _opt1([i for i, (b, v) in enumerate(_pairs(ev, c)) if ev.tobool(b)]),
    'seq::rposition': lambda ev, c: _opt1([i for i, (b, v) in enumerate(_pairs(ev, c)) if ev.tobool(b)][::-1]),
    'seq::take_while': lambda ev, c: _while(ev, c, False),
    'seq::skip_while': lambda ev, c: _while(ev, c, True),
    'seq::map_while': _mapwhile,
    'seq::max_by_key': lambda ev, c: _maxby(ev, c, True),
    'seq::min_by_key': lambda ev, c: _maxby(ev, c, False),
    'seq::max': lambda ev, c: _opt1(sorted(ev.toseq(c), key=lambda x: _key(canon(x)))[::-1]),
    'seq::min': lambda ev, c: _opt1(sorted(ev.toseq(c), key=lambda x: _key(canon(x)))),
    'seq::sum': lambda ev, c: sum(map(ev.toint, ev.toseq(c))),
    'seq::product': lambda ev, c: _product(map(ev.toint, ev.toseq(c))),
    'seq::step_by': lambda ev, c, k: tuple(ev.toseq(c))[::k],
    'seq::chunks': lambda ev, c, n: _chunks(ev, c, n, False),
    'seq::chunks_exact': lambda ev, c, n: _chunks(ev, c, n, True),
    'seq::join': _join,
    'seq::starts_with': lambda ev, c, d: canon(ev.toseq(c))[:len(ev.toseq(d))] == canon(ev.toseq(d)),
    'seq::ends_with': lambda ev, c, d: len(ev.toseq(c)) >= len(ev.toseq(d)) and canon(ev.toseq(c))[len(ev.toseq(c)) - len(ev.toseq(d)):] == canon(ev.toseq(d)),
    'str::is_ascii': _strf(str.isascii),
    'str::find': _strf(lambda s, t: _boff(s, s.find(t))),
    'str::rfind': _strf(lambda s, t: _boff(s, s.rfind(t))),
    'str::split_once': _strf(lambda s, t: _once(s, t, False)),
    'str::rsplit_once': _strf(lambda s, t: _once(s, t, True)),
    'str::bytes': _strf(lambda s: tuple(s.encode())),
    'str::lines': _strf(_rlines),
    'str::split_whitespace': _strf(lambda s: _words(s, uni.space)),
    'str::split_ascii_whitespace': _strf(lambda s: _words(s, lambda c: c in ' \t\n\r\x0c')),
    'str::split': _strf(lambda s, t: tuple(tuple(x) for x in s.split(t)) if t else None),
    'str::rsplit': _strf(lambda s, t: tuple(tuple(x) for x in s.split(t)[::-1]) if t else None),
    'str::is_char_boundary': lambda ev, s, i: _charrange(ev, s, 0, i),
    'str::truncated': lambda ev, s, n: _index(ev, s, 0, min(n, len(_s(ev, s).encode()))),
})


def _dec(f):
    """a Decimal read from digits: mantissa and scale"""
    def g(ev, d, *a):
        if not isinstance(d, Sym) or d.tag != 'dec':
            return None
        r = f(*d.args, *[ev.toint(x) for x in a])
        return Sym('dec', r) if isinstance(r, tuple) else r
    return g


def _round(m, n, k, how):
    if k >= n:
        return m, n
    q, r = divmod(m, 10 ** (n - k))
    h = 10 ** (n - k)
    up = {'even': 2 * r > h or (2 * r == h and q % 2), 'down': False, 'up': r > 0}[how]
    return q + (1 if up else 0), k


STDF.update({
    'Decimal::round_dp': _dec(lambda m, n, k: _round(m, n, k, 'even')),
    'Decimal::round': _dec(lambda m, n: _round(m, n, 0, 'even')),
    'Decimal::trunc': _dec(lambda m, n: _round(m, n, 0, 'down')),
    'Decimal::floor': _dec(lambda m, n: _round(m, n, 0, 'down')),
    'Decimal::ceil': _dec(lambda m, n: _round(m, n, 0, 'up')),
    'Decimal::trunc_with_scale': _dec(lambda m, n, k: _round(m, n, k, 'down')),
    'Decimal::abs': _dec(lambda m, n: (m, n)),
    'Decimal::is_zero': _dec(lambda m, n: m == 0),
    'Decimal::is_integer': _dec(lambda m, n: m % 10 ** n == 0),
    'Decimal::is_sign_negative': _dec(lambda m, n: False),
    'Decimal::is_sign_positive': _dec(lambda m, n: True),
    'Decimal::scale': _dec(lambda m, n: n),
    'Decimal::mantissa': _dec(lambda m, n: m),
})


def _ucall(self, name, *args):
    g = STDF.get(name)
    if g is None:
        raise Undef('unknown ' + name)
    r = g(self, *[self.ev(a) for a in args])
    if r is None:
        raise Undef('unknown ' + name)
    return r


Ev.e_ucall = _ucall


# ------------------------------------------------------------------ string functions with a predicate
def _cuts(s, bs, inclusive=False):
    out, cur = [], ''
    for c, b in zip(s, bs):
        if b:
            out.append(tuple(cur + c if inclusive else cur))
            cur = ''
        else:
            cur += c
    out.append(tuple(cur))
    return out


def _pre(bs):
    n = 0
    while n < len(bs) and bs[n]:
        n += 1
    return n


def _first(bs):
    return next((i for i, b in enumerate(bs) if b), -1)


def _last(bs):
    return next((i for i in range(len(bs) - 1, -1, -1) if bs[i]), -1)


def _trimboth(s, bs):
    a = _pre(bs)
    return '' if a == len(s) else s[a:len(s) - _pre(bs[::-1])]


def _noend(xs):
    return xs[:-1] if xs and xs[-1] == () else xs


PREDF = {
    'trim_start_matches': lambda s, bs: tuple(s[_pre(bs):]),
    'trim_end_matches': lambda s, bs: tuple(s[:len(s) - _pre(bs[::-1])]),
    'trim_matches': lambda s, bs: tuple(_trimboth(s, bs)),
    'find': lambda s, bs: _boff(s, _first(bs)),
    'rfind': lambda s, bs: _boff(s, _last(bs)),
    'contains': lambda s, bs: any(bs),
    'starts_with': lambda s, bs: bool(bs) and bs[0],
    'ends_with': lambda s, bs: bool(bs) and bs[-1],
    'strip_prefix': lambda s, bs: _opt(s[1:] if bs and bs[0] else None),
    'strip_suffix': lambda s, bs: _opt(s[:-1] if bs and bs[-1] else None),
    'split': lambda s, bs: tuple(_cuts(s, bs)),
    'rsplit': lambda s, bs: tuple(_cuts(s, bs)[::-1]),
    'split_terminator': lambda s, bs: tuple(_noend(_cuts(s, bs))),
    'split_inclusive': lambda s, bs: tuple(_noend(_cuts(s, bs, True))),
    'split_once': lambda s, bs: NONEV if _first(bs) < 0 else Some(T2(tuple(s[:_first(bs)]), tuple(s[_first(bs) + 1:]))),
    'rsplit_once': lambda s, bs: NONEV if _last(bs) < 0 else Some(T2(tuple(s[:_last(bs)]), tuple(s[_last(bs) + 1:]))),
    'replace': lambda s, bs, t: tuple(''.join(t if b else c for c, b in zip(s, bs))),
    'matches': lambda s, bs: tuple((c,) for c, b in zip(s, bs) if b),
    'match_indices': lambda s, bs: tuple(T2(len(s[:i].encode()), (s[i],)) for i, b in enumerate(bs) if b),
}


def _predf(f):
    def g(ev, ps, *rest):
        ps = _pairs(ev, ps)
        return f(''.join(c for b, c in ps), [ev.tobool(b) for b, c in ps], *[_pat(ev, x) for x in rest])
    return g


def _setf(f):
    def g(ev, s, cs, *rest):
        s, cs = _s(ev, s), set(ev.toseq(cs))
        return f(s, [c in cs for c in s], *[_pat(ev, x) for x in rest])
    return g


for _k, _f in PREDF.items():
    STDF['str::%s@p' % _k] = _predf(_f)
    STDF['str::%s@set' % _k] = _setf(_f)


def _midx(s, t):
    out, i = [], 0
    while t:
        i = s.find(t, i)
        if i < 0:
            return tuple(out)
        out.append(T2(len(s[:i].encode()), tuple(t)))
        i += len(t)


STDF['str::matches'] = _strf(lambda s, t: tuple(x.fs[1] for x in _midx(s, t)) if t else None)
STDF['str::match_indices'] = _strf(lambda s, t: _midx(s, t))
STDF['str::split_terminator'] = _strf(lambda s, t: tuple(_noend([tuple(x) for x in s.split(t)])) if t else None)


def _incl(s, t):
    out = [x + t for x in s.split(t)]
    out[-1] = out[-1][:len(out[-1]) - len(t)]
    return tuple(tuple(x) for x in (out if out[-1] else out[:-1]))


STDF['str::split_inclusive'] = _strf(lambda s, t: _incl(s, t) if t else None)
