"""Abstract interpreter over exported MIR.

Values are the terms of terms.py.  Shared references, boxes and Rc's are
transparent (the borrow checker guarantees that the referent does not change
while the reference is usable); `&mut` references are access paths into an
abstract store.  Branches partition the abstract state; loops are summarised at
their header: every location the body changes is generalised to a symbol, the
body is analysed once from the generalised state, and append-only collections
are given their closed comprehension form.
"""
import re
import time
from terms import *
import facts as F
from facts import prove, decide

SKIP_ADT = {'alloc::boxed::Box', 'alloc::boxed::BoxRaw', 'core::mem::manually_drop::ManuallyDrop',
            'core::mem::maybe_uninit::MaybeUninit', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull',
            'core::mem::maybe_dangling::MaybeDangling'}
BOX_INNER = {'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'}
MAXPATHS = 6000


class Unsupported(Exception):
    pass


class Irregular(Unsupported):
    """a loop that does not advance one iterator exactly once per pass: its iterators become positions"""
    def __init__(self, lid, msg):
        Unsupported.__init__(self, msg)
        self.lid = lid


class Impure(Exception):
    pass


class St:
    __slots__ = ('mem', 'facts', 'meta')

    def __init__(self, mem=None, facts=(), meta=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts
        self.meta = meta if meta is not None else {}

    def copy(self):
        return St(dict(self.mem), self.facts, dict(self.meta))


class Frame:
    def __init__(self, body, tsubst, stack):
        self.id = fresh_id()
        self.body = body
        self.ts = tsubst
        self.stack = stack


class Loop:
    """summary of one analysed loop"""
    pass


def tsub(t, m):
    if not m or not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == 'param':
        return m.get(t[1], t)
    return tuple(tsub(x, m) if isinstance(x, tuple) else x for x in t)


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<' and p[i - 2:i] == '::' and not p.startswith('<impl', i):
            d += 1
            if d == 1:
                out = out[:-2]
        elif c == '<' and d:
            d += 1
        elif c == '>' and d:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_keyc = {}


def callee_key(c):
    """(family, name) under which std functions are modelled"""
    k = c['path']
    r = _keyc.get((k, c.get('trait')))
    if r is None:
        name = c['name']
        if c.get('trait'):
            fam = c['trait'].split('<')[0].split('::')[-1]
        else:
            p = strip_generics(k)
            m = re.search(r'<impl (.+)>::', p)
            if m:
                fam = m.group(1)
                fam = {'[T]': 'slice', 'str': 'str', 'char': 'char', '[T; N]': 'array'}.get(fam, fam)
                if 'Box<(dyn std::any::Any' in fam:
                    fam = 'BoxAny'
                elif fam in ('usize', 'u32', 'u64', 'u8', 'u16', 'i32', 'i64', 'isize'):
                    fam = 'int'
            elif p.startswith('<(dyn std::any::Any'):
                fam = 'dynAny'
            else:
                segs = p.split('::')
                fam = segs[-2] if len(segs) > 1 else ''
        r = (fam, name)
        _keyc[(k, c.get('trait'))] = r
    return r


WATCH = {'LLSelection', 'XForwards', 'XBackwards', 'LLCursorAssignment'}


class Interp:
    def __init__(self, prog, opaque=None, contracts=None):
        self.prog = prog
        self.panics = False
        self.opaque = opaque or (lambda body, fr: None)     # -> name or None
        self.contracts = contracts                          # (interp, st, name, term, args) -> facts
        self.log = []          # ordered records: dicts with 'k'
        self.unknown = {}
        self.fninfo = {}
        self.liters = {}
        self.loops = {}
        self.bv_loop = {}
        self.paths = 0
        self.fn_seen = set()
        self.construct_watch = {a for a in prog.adts if a.split('::')[-1] in WATCH and a.startswith('layered_nlp')}
        self.deadline = None
        self.depth = 0
        import stdmodel
        install_any_attribute(prog)
        self.models = stdmodel.MODELS
        self.std = stdmodel

    # ------------------------------------------------------------ state
    def assume(self, st, f):
        """st with fact f, or None when infeasible; returns a new state"""
        if f is TRUE:
            return st
        if f is FALSE:
            return None
        if f.op == 'and':
            for x in f.a:
                st = self.assume(st, x)
                if st is None:
                    return None
            return st
        d = decide(st.facts, f)
        if d is True:
            return st
        if d is False:
            return None
        n = st.copy()
        n.facts = st.facts + (f,)
        return n

    def branch(self, st, c):
        """[(state, truth)]"""
        out = []
        a = self.assume(st, c)
        if a is not None:
            out.append((a, True))
        b = self.assume(st, neg(c))
        if b is not None:
            out.append((b, False))
        return out

    def is_some(self, st, t, adt=OPTION, var='Some'):
        """[(state, True/False)]"""
        return self.branch(st, isv(t, adt, var))

    # ------------------------------------------------------------ store
    def getp(self, v, path):
        for s in path:
            k = s[0]
            if v.op == 'mref':
                raise Unsupported('path through reference')
            if k == 'f':
                v = self.field(v, s[1], s[2])
            elif k == 'vf':
                v = vf(v, s[1], s[2], s[3])
            elif k == 'i':
                v = elem(v, s[1])
            elif k == 'key':
                v = mgetd(v, s[1]) if s[2] is None else self.mgetor(v, s[1], s[2])
            elif k == 'as':
                v = self.std.as_dyn(v, s[1])
            elif k == 'cur':
                v = self.position(v, s[1])
        return v

    def position(self, v, c):
        """how far an iterator over c has advanced"""
        if v.op == 'it' and not v.a[1]:
            x = v.a[0]
            if x is c:
                return ZERO
            if x.op == 'slice' and x.a[0] is c and x.a[2] is length(c):
                return x.a[1]
            if x is EMPTY:
                return length(c)
        raise Unsupported('an iterator that is not a position in its sequence')

    def mgetor(self, m, k, d):
        if m.op == 'mset' and m.a[1] is k:
            return m.a[2]
        return mk('mgetor', m, k, d)

    def field(self, v, base, i):
        if v.op == 'clo':
            return v.a[2 + i]
        if base in SKIP_ADT:
            return v
        if base.startswith('tuple') and base[5:].isdigit():
            base = 'tuple'
        return fld(v, base, i)

    def setp(self, v, path, x):
        if not path:
            return x
        s = path[0]
        k = s[0]
        if k == 'f':
            base, i = s[1], s[2]
            if v.op == 'clo':
                a = list(v.a)
                a[2 + i] = self.setp(a[2 + i], path[1:], x)
                return mk('clo', *a)
            if base in SKIP_ADT:
                return self.setp(v, path[1:], x)
            if v.op == 'agg':
                fs = list(v.a[2:])
                fs[i] = self.setp(fs[i], path[1:], x)
                return agg(v.a[0], v.a[1], *fs)
            if base.startswith('tuple') and base[5:].isdigit():
                n, adt = int(base[5:]), 'tuple'
            elif base in STRUCT_ARITY:
                n, adt = STRUCT_ARITY[base], base
            else:
                raise Unsupported('write to field of ' + base)
            fs = [fld(v, adt, j) for j in range(n)]
            fs[i] = self.setp(fs[i], path[1:], x)
            return agg(adt, None, *fs)
        if k == 'vf':
            _, adt, var, i = s
            if v.op == 'agg' and v.a[1] == var:
                fs = list(v.a[2:])
            else:
                n = self.variant_arity(adt, var)
                fs = [vf(v, adt, var, j) for j in range(n)]
            fs[i] = self.setp(fs[i], path[1:], x)
            return mk('agg', adt, var, *fs)
        if k == 'i':
            new = self.setp(elem(v, s[1]), path[1:], x)
            if v.op == 'seq' and is_const(s[1]):
                j = cval(s[1])
                if all(n.op == 'item' for n in v.a[:j + 1]) and j < len(v.a):
                    ns = list(v.a)
                    ns[j] = item(new)
                    return seq(ns)
            return upd(v, s[1], new)
        if k == 'key':
            new = self.setp(self.getp(v, path[:1]), path[1:], x)
            return mset(v, s[1], new)
        if k == 'as':
            new = self.setp(self.std.as_dyn(v, s[1]), path[1:], x)
            return mk('dyn', s[1], new)
        if k == 'cur':
            return mk('it', mk('slice', s[1], x, length(s[1])), ())
        raise Unsupported('store path ' + k)

    def all_unit(self, adt):
        """field-less enum whose equality is derived (compares variants)"""
        a = self.prog.adts.get(adt)
        if not a or not all(not v['fields'] for v in a['variants']):
            return False
        for b in self.prog.bodies.values():
            if b.kind == 'fn' and b.name == 'eq' and b.self_ty and b.self_ty[0] == 'adt' and b.self_ty[1] == adt:
                return 'StructuralPartialEq' in self.prog.traits_of(adt)
        return False

    def variant_arity(self, adt, var):
        if adt in (OPTION, RESULT, CFLOW):
            return 0 if var == 'None' else 1
        a = self.prog.adts.get(adt)
        if a:
            for v in a['variants']:
                if v['name'] == var:
                    return len(v['fields'])
        raise Unsupported('variant %s of %s' % (var, adt))

    def rd(self, st, m):
        """read through a `&mut` value"""
        if m.op != 'mref':
            return m
        root, path = m.a
        if root not in st.mem:
            raise Unsupported('read of unknown root')
        return self.getp(st.mem[root], path)

    def wr(self, st, m, v):
        """new state with *m = v"""
        if m.op != 'mref':
            raise Unsupported('write through a value that is not a tracked reference')
        root, path = m.a
        n = st.copy()
        n.mem[root] = self.setp(st.mem[root], path, v)
        return n

    def sub_ref(self, m, *steps):
        return mk('mref', m.a[0], m.a[1] + tuple(steps))

    def new_root(self, st, v):
        r = ('h', fresh_id())
        n = st.copy()
        n.mem[r] = v
        return n, mk('mref', r, ())

    # ------------------------------------------------------------ places
    def lv(self, st, fr, place):
        """-> (root, path)"""
        root, path = (fr.id, place['l']), ()
        pend = None
        for x in place['p']:
            k = x[0]
            if k == 'deref':
                v = self.peek(st, root, path)
                if v is not None and v.op == 'mref':
                    root, path = v.a
            elif k == 'downcast':
                pend = (x[3], x[2])
                continue
            elif k == 'field':
                v = self.peek(st, root, path) if x[3] in SKIP_ADT else None
                if x[3] in SKIP_ADT:
                    pass
                elif pend:
                    path = path + (('vf', pend[0], pend[1], x[1]),)
                else:
                    path = path + (('f', x[3], x[1]),)
            elif k == 'index':
                path = path + (('i', st.mem[(fr.id, x[1])]),)
            elif k == 'cindex':
                if x[2]:
                    path = path + (('i', add(length(self.peek(st, root, path)), num(-x[1]))),)
                else:
                    path = path + (('i', num(x[1])),)
            else:
                raise Unsupported('projection ' + k)
            pend = None
        return root, path

    def peek(self, st, root, path):
        if root not in st.mem:
            return None
        try:
            return self.getp(st.mem[root], path)
        except Unsupported:
            return None

    def read(self, st, fr, place):
        root, path = self.lv(st, fr, place)
        if root not in st.mem:
            raise Unsupported('read of uninitialised local _%d' % place['l'])
        return self.getp(st.mem[root], path)

    def store(self, st, fr, place, v):
        root, path = self.lv(st, fr, place)
        if not path:
            st.mem[root] = v
        else:
            if root not in st.mem:
                raise Unsupported('partial write of uninitialised local')
            st.mem[root] = self.setp(st.mem[root], path, v)

    # ------------------------------------------------------------ operands
    def const(self, st, fr, c):
        ty = tsub(c['ty'], fr.ts)
        if 'fn' in c:
            return self.fnitem(c['fn'], fr)
        if 'int' in c:
            return num(c['int'])
        if 'bool' in c:
            return TRUE if c['bool'] else FALSE
        if 'char' in c:
            return mk('chr', c['char'])
        if 'str' in c:
            return mk('str', c['str'])
        if 'promoted' in c:
            return self.eval_const(fr.body.id.split('#promoted')[0] + '#promoted%d' % c['promoted'], fr)
        if 'uneval' in c:
            if c['uneval'] in self.prog.bodies:
                return self.eval_const(c['uneval'], fr)
            return mk('const', c['uneval'], ty)
        if 'zst' in c:
            if ty[0] == 'tuple' and not ty[1]:
                return UNIT
            if ty[0] == 'closure':
                return mk('clo', ty[1], tuple(sorted(fr.ts.items())))
            if ty[0] == 'adt':
                if ty[1] in STRUCT_ARITY and STRUCT_ARITY[ty[1]] == 0:
                    return mk('agg', ty[1], None)
                return mk('zst', ty[1])
            if ty[0] == 'fndef':
                raise Unsupported('fn zst')
            if ty[0] == 'array':
                return EMPTY
            return mk('zst', ty)
        if 'opaque' in c:
            if ty[0] in ('ref',) and ty[2][0] in ('array', 'slice') and c['opaque'].strip('&').startswith('['):
                pass
            return mk('opaque', c['opaque'], ty)
        return mk('const?', str(ty))

    def eval_const(self, bid, fr):
        b = self.prog.bodies.get(bid)
        if b is None:
            raise Unsupported('const body ' + bid)
        n0 = len(self.log)
        r = self.inline(St(), b, [], fr.ts if fr else {}, fr)
        if len(r) != 1:
            raise Unsupported('const evaluates on %d paths' % len(r))
        return r[0][1]

    def fnitem(self, c, fr):
        args = tuple(tsub(a, fr.ts) for a in c['args'])
        k = (c['id'], args)
        self.fninfo[k] = (c, dict(fr.ts))
        return mk('fnitem', c['id'], args)

    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            p = o[1]['p']
            ty = o[1].get('ty')
            if (p and p[-1][0] == 'field' and p[-1][3] in BOX_INNER) or \
                    (o[0] == 'copy' and ty and ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box'):
                # the raw pointer inside a box: an alias of the boxed value
                root, path = self.lv(st, fr, o[1])
                v = self.peek(st, root, path)
                return v if v is not None and v.op == 'mref' else mk('mref', root, path)
            return self.read(st, fr, o[1])
        if o[0] == 'const':
            return self.const(st, fr, o[1])
        raise Unsupported('operand')

    def opty(self, fr, o):
        return tsub(o[1]['ty'], fr.ts) if o[0] in ('copy', 'move', 'const') else None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, span):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            if rv[1] == 'mut':
                root, path = self.lv(st, fr, rv[2])
                return mk('mref', root, path)
            return self.read_slice(st, fr, rv[2])
        if k == 'rawptr':
            root, path = self.lv(st, fr, rv[1])
            v = self.peek(st, root, path)
            if v is not None and v.op == 'mref':
                return v
            return mk('mref', root, path)
        if k == 'binop':
            return self.binop(rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), self.opty(fr, rv[2]))
        if k == 'unop':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                return neg(v) if self.opty(fr, rv[2]) == ('bool',) else mk('bitnot', v)
            if rv[1] == 'PtrMetadata':
                return length(v)
            return scale(v, -1)
        if k == 'cast':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'PointerCoercion' and 'Unsize' in rv[4]:
                return self.unsize(v, self.opty(fr, rv[2]), tsub(tuple_(rv[3]), fr.ts))
            if rv[1] == 'IntToInt':
                s = self.opty(fr, rv[2])
                if s == ('char',):
                    d = tsub(tuple_(rv[3]), fr.ts)
                    return wrapped(mk('ord', v), ('uint', 'u32'), d) if BITS.get(d[-1], 0) < 21 else mk('ord', v)
                if s == ('bool',):
                    return ONE if v is TRUE else ZERO if v is FALSE else mk('b2i', v)
                if tsub(tuple_(rv[3]), fr.ts) == ('char',):
                    return v.a[0] if v.op == 'ord' else mk('call', 'char::from_code', (), v)
                return wrapped(v, s, tsub(tuple_(rv[3]), fr.ts))
            return v
        if k == 'discr':
            v = self.read(st, fr, rv[1])
            t = tsub(rv[1]['ty'], fr.ts)
            return mk('discr', v, t[1] if t[0] == 'adt' else str(t))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in rv[2]]
            if rv[1] == 'tuple':
                return tup(*ops)
            if rv[1] == 'array':
                return seq(tuple(item(x) for x in ops))
            if rv[1] == 'closure':
                return mk('clo', rv[3], tuple(sorted(fr.ts.items())), *ops)
            if rv[1] == 'adt':
                adt, var, names = rv[3], rv[5], rv[6]
                if adt in VARIANTS or (adt not in self.prog.adts and var != adt.split('::')[-1]):
                    r = mk('agg', adt, var, *ops)
                else:
                    r = agg(adt, None, *ops)
                self.constructed(st, fr, adt, var, ops, span)
                return r
            raise Unsupported('aggregate')
        if k == 'repeat':
            n = re.match(r'(\d+)', rv[2])
            v = self.operand(st, fr, rv[1])
            if n:
                return seq(close_for(new_bv(), ZERO, num(int(n.group(1))), False, (item(v),)))
            return seq(close_for(new_bv(), ZERO, mk('const', rv[2], ()), False, (item(v),)))
        raise Unsupported('rvalue ' + k)

    def constructed(self, st, fr, adt, var, ops, span):
        if adt in self.construct_watch:
            self.log.append({'k': 'construct', 'adt': adt, 'var': var, 'ops': tuple(ops), 'facts': st.facts,
                             'fn': fr.body.id, 'span': span, 'stack': fr.stack})

    def read_slice(self, st, fr, place):
        # a trailing subslice projection only occurs under a shared borrow
        if place['p'] and place['p'][-1][0] == 'subslice':
            _, a, b, fe = place['p'][-1]
            v = self.read(st, fr, {'l': place['l'], 'p': place['p'][:-1], 'ty': None})
            hi = add(length(v), num(-b)) if fe else num(b)
            return slice_of(v, num(a), hi)
        v = self.read(st, fr, place)
        return v

    def unsize(self, v, src, dst):
        # Box<T> / &T -> dyn: remember the concrete type
        def inner(t):
            if t[0] == 'ref':
                return t[2]
            if t[0] == 'adt' and t[2]:
                return t[2][0]
            return t
        s, d = inner(src), inner(dst)
        if d[0] == 'other' and 'dyn ' in d[1]:
            if v.op == 'mref' or (s[0] == 'other' and 'dyn ' in s[1]):
                return v
            return mk('dyn', s, v)
        return v

    def binop(self, op, x, y, ty):
        wo = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        isint = ty is not None and ty[0] == 'int'
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add':
                r = add(x, y)
            elif base == 'Sub':
                r = sub(x, y)
            elif is_const(x):
                r = scale(y, cval(x))
            elif is_const(y):
                r = scale(x, cval(y))
            else:
                r = mk('mul', *sorted((x, y), key=lambda t: t.u))
            return tup(r, FALSE) if wo else r
        if base in ('Eq', 'Ne'):
            r = eqi(x, y) if isint and x.op != 'discr' and y.op != 'discr' else self.eqv(x, y)
            return r if base == 'Eq' else neg(r)
        if base in ('Lt', 'Le', 'Gt', 'Ge'):
            if isint:
                return {'Lt': lambda: lt(x, y), 'Le': lambda: le(x, y), 'Gt': lambda: lt(y, x), 'Ge': lambda: le(y, x)}[base]()
            if ty == ('char',):
                a, b = mk('ord', x), mk('ord', y)
                return {'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b), 'Gt': lambda: lt(b, a), 'Ge': lambda: le(b, a)}[base]()
            return mk('ucall', 'cmp' + base, x, y)
        if base == 'BitAnd':
            return conj(x, y) if ty == ('bool',) else mk('ucall', 'BitAnd', x, y)
        if base == 'BitOr':
            return disj(x, y) if ty == ('bool',) else mk('ucall', 'BitOr', x, y)
        if base == 'BitXor' and ty == ('bool',):
            return neg(eq(x, y))
        if base in ('Div', 'Rem'):
            if is_const(x) and is_const(y) and cval(y):
                return num(cval(x) // cval(y) if base == 'Div' else cval(x) % cval(y))
            return mk('div' if base == 'Div' else 'rem', x, y)
        return mk('ucall', op, x, y)

    def eqv(self, x, y):
        for p, q in ((x, y), (y, x)):
            if p.op == 'discr' and q.op == 'discr':
                a, b = p.a[0], q.a[0]
                if a.op == 'agg' and b.op == 'agg':
                    return TRUE if a.a[1] == b.a[1] else FALSE
                if b.op == 'agg':
                    return isv(a, p.a[1], b.a[1])
                if a.op == 'agg':
                    return isv(b, q.a[1], a.a[1])
                return eq(p, q)
            if p.op == 'discr' and is_const(q):
                vs = VARIANTS.get(p.a[1])
                if vs:
                    ds = DISCR.get(p.a[1], list(range(len(vs))))
                    if cval(q) in ds:
                        return isv(p.a[0], p.a[1], vs[ds.index(cval(q))])
        return eq(x, y)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, fr, kind, cond, span, detail=''):
        """cond must hold here; returns the state in which it does (or None)"""
        d = decide(st.facts, cond)
        self.log.append({'k': 'oblig', 'kind': kind, 'cond': cond, 'ok': d is True, 'never': d is False, 'facts': st.facts,
                         'fn': fr.body.id if fr else '?', 'span': span, 'detail': detail, 'stack': fr.stack if fr else ()})
        if d is True:
            return st
        if d is False:
            return None
        return self.assume(st, cond)

    def panic(self, st, fr, kind, span, detail=''):
        self.log.append({'k': 'oblig', 'kind': kind, 'cond': FALSE, 'ok': False, 'never': True, 'facts': st.facts,
                         'fn': fr.body.id if fr else '?', 'span': span, 'detail': detail, 'stack': fr.stack if fr else ()})

    # ------------------------------------------------------------ running functions
    def analyse(self, body, args=None, tsubst=None, st=None):
        """outcomes of a function on fully general arguments: [(state, value)]"""
        st = st or St()
        if args is None:
            args = []
            for i in range(1, body.argc + 1):
                t = body.locals[i]
                nm = next((n for n, p in body.names if p['l'] == i and not p['p']), 'arg%d' % i)
                nm = 'self' if (i == 1 and nm == 'self') else 'arg%d' % i
                v = mk('p', nm)
                if t[0] == 'ref' and t[1]:
                    r = ('h', nm)
                    st.mem[r] = v
                    v = mk('mref', r, ())
                args.append(v)
        return self.inline(st, body, args, tsubst or {}, None)

    def inline(self, st, body, args, ts, caller):
        stack = (caller.stack if caller else ()) + (body.id,)
        if len(stack) > 60 or stack.count(body.id) > 2:
            raise Unsupported('recursion in ' + body.id)
        self.fn_seen.add(body.id)
        if body.irreducible:
            raise Unsupported('irreducible control flow in ' + body.id)
        fr = Frame(body, ts, stack)
        n = st.copy()
        for i, a in enumerate(args):
            n.mem[(fr.id, i + 1)] = a
        out = []
        for s, where, v in self.walk(fr, n, 0):
            if where != 'ret':
                raise Unsupported('internal: stray stop')
            s2 = s.copy()
            for k in [k for k in s2.mem if k[0] == fr.id]:
                del s2.mem[k]
            out.append((s2, v))
        if body.name == 'clone' and len(out) > 1 and len(args) == 1:
            # variant-wise identity
            x = self.freeze(st, args[0])
            if all(v.op == 'agg' and len(v.a) == 2 and isv(x, v.a[0], v.a[1]) in s.facts and self.same_mem(s, st) for s, v in out) \
                    and {v.a[1] for _, v in out} == set(VARIANTS.get(out[0][1].a[0], ())):
                return [(st, x)]
        return self.join(out, st)

    def join(self, outs, entry):
        """merge outcomes that differ only in complementary branch facts"""
        changed = True
        while changed and len(outs) > 1:
            changed = False
            for i in range(len(outs)):
                for j in range(i + 1, len(outs)):
                    r = self.join2(outs[i], outs[j], entry)
                    if r is not None:
                        outs = outs[:i] + outs[i + 1:j] + outs[j + 1:] + [r]
                        changed = True
                        break
                if changed:
                    break
        return outs

    def join2(self, x, y, entry):
        (a, v), (b, w) = x, y
        if v is not w and not (v is EMPTY or w is EMPTY):
            return None
        meta = a.meta
        if a.meta != b.meta:
            ka = {k: x for k, x in a.meta.items() if k[0] != 'exit'}
            if ka != {k: x for k, x in b.meta.items() if k[0] != 'exit'}:
                return None
            meta = dict(ka)
            for k, x in a.meta.items():
                if k[0] == 'exit' and k in b.meta:
                    meta[k] = x | b.meta[k]
        if a.mem.keys() != b.mem.keys():
            return None
        diff = [k for k, q in a.mem.items() if b.mem[k] is not q]
        fa, fb = set(a.facts), set(b.facts)
        da, db = [f for f in a.facts if f not in fb], [f for f in b.facts if f not in fa]
        com = tuple(f for f in a.facts if f in fb)
        p = None
        if not da and not db:
            if diff:
                return None
        elif not any(neg(f) in db for f in da):
            if not (len(da) == 0 or len(db) == 0) or diff:
                return None
        else:
            # complementary on one fact; everything else that differs must follow from it
            p = next(f for f in da if neg(f) in db)
            if not all(self.implied(com + (p,), f) for f in da if f is not p):
                return None
            if not all(self.implied(com + (neg(p),), f) for f in db if f is not neg(p)):
                return None
        if v is not w:
            val, full, emp = (v, a, b) if w is EMPTY else (w, b, a)
            if val.op not in ('vals', 'mgetd', 'call', 'elem', 'fld', 'p', 'vf', 'seq') or not self.empty_under(emp.facts, nodes_of(val)):
                return None
            if any(f.op == 'isv' and occurs(lambda x: x is f.a[0] and x.op != 'mget', val) for f in da + db):
                return None
        else:
            val = v
        n = a.copy()
        for k in diff:
            q = self.mergev(a.mem[k], b.mem[k], p, a.facts, b.facts)
            if q is None:
                return None
            n.mem[k] = q
        n.facts = com
        n.meta = dict(meta)
        return (n, val)

    def mergev(self, v, w, p, fa, fb):
        """one value that is v when p holds and w when it does not"""
        if v is w:
            return v
        if v.op in ('mref', 'clo') or w.op in ('mref', 'clo'):
            return None
        if v.op == 'agg' and w.op != 'agg' or w.op == 'agg' and v.op != 'agg':
            g = v if v.op == 'agg' else w
            adt = g.a[0]
            if g.a[1] is not None or adt not in STRUCT_ARITY:
                return None
            n = STRUCT_ARITY[adt]
            v = mk('agg', adt, None, *[fld(v, adt, i) for i in range(n)])
            w = mk('agg', adt, None, *[fld(w, adt, i) for i in range(n)])
        if v.op == 'agg' and w.op == 'agg':
            if v.a[:2] != w.a[:2] or len(v.a) != len(w.a):
                return None
            fs = [self.mergev(x, y, p, fa, fb) for x, y in zip(v.a[2:], w.a[2:])]
            return None if any(f is None for f in fs) else agg(v.a[0], v.a[1], *fs)
        if v.op == 'dyn' and w.op == 'dyn' and v.a[0] == w.a[0]:
            q = self.mergev(v.a[1], w.a[1], p, fa, fb)
            return None if q is None else mk('dyn', v.a[0], q)
        for op in ('mset', 'upd'):
            if v.op == op or w.op == op:
                if v.op == op and w.op == op and v.a[0] is w.a[0] and v.a[1] is w.a[1]:
                    m, k, x, y = v.a[0], v.a[1], v.a[2], w.a[2]
                elif v.op == op and v.a[0] is w:
                    m, k, x = v.a
                    y = mgetd(m, k) if op == 'mset' else elem(m, k)
                    if op == 'mset' and not prove(fb, isv(mget(m, k), OPTION, 'Some')):
                        return None
                elif w.op == op and w.a[0] is v:
                    m, k, y = w.a
                    x = mgetd(m, k) if op == 'mset' else elem(m, k)
                    if op == 'mset' and not prove(fa, isv(mget(m, k), OPTION, 'Some')):
                        return None
                else:
                    return None
                if x.op == 'dyn' and y.op != 'dyn':
                    y = mk('dyn', x.a[0], self.std.as_dyn(y, x.a[0]))
                elif y.op == 'dyn' and x.op != 'dyn':
                    x = mk('dyn', y.a[0], self.std.as_dyn(x, y.a[0]))
                q = self.mergev(x, y, p, fa, fb)
                return None if q is None else (mset(m, k, q) if op == 'mset' else upd(m, k, q))
        if v.op == 'seq' or w.op == 'seq':
            a, b = nodes_of(v), nodes_of(w)
            i = 0
            while i < len(a) and i < len(b) and a[i] is b[i]:
                i += 1
            return seq(a[:i] + alt_nodes([((p,), a[i:]), ((neg(p),), b[i:])]))
        return None

    def implied(self, facts, f):
        return prove(facts, f)

    def empty_under(self, facts, nodes):
        for n in norm_nodes(nodes):
            if n.op == 'spl':
                if not prove(facts, le0(length(n.a[0]))):
                    return False
            elif n.op == 'for':
                b, lo, hi, rev, body = open_for(n)
                if not prove(facts, le(hi, lo)) and not self.empty_under(tuple(facts) + self.bfacts(b, lo, hi), body):
                    return False
            elif n.op == 'alt':
                for g, ns in n.a:
                    fs = tuple(facts) + tuple(g)
                    if not F.contradictory(fs) and not self.empty_under(fs, ns):
                        return False
            else:
                return False
        return True

    def walk(self, fr, st, bb, region=None, header=None):
        """runs until return, or until control leaves `region` / comes back to `header`.
        -> [(state, block | 'ret', value)]"""
        out = []
        stack = [(st, bb, True)]
        body = fr.body
        while stack:
            st, bb, first = stack.pop()
            self.paths += 1
            if self.paths > 400000 or (self.deadline and time.time() > self.deadline):
                raise Unsupported('path budget exceeded')
            if not first and region is not None and (bb == header or bb not in region):
                out.append((st, bb, None))
                continue
            if bb in body.loops and not (first and header == bb):
                for s2, b2, v in self.mir_loop(fr, st, bb):
                    if b2 == 'ret':
                        out.append((s2, 'ret', v))
                    else:
                        stack.append((s2, b2, False))
                continue
            st = st.copy()
            bl = body.blocks[bb]
            try:
                for s in bl['s']:
                    if s[0] == 'assign':
                        self.store(st, fr, s[1], self.rvalue(st, fr, s[2], s[3]))
                    else:
                        raise Unsupported('set discriminant')
                t = bl['t']
                k = t['k']
                if k == 'goto' or k == 'drop':
                    stack.append((st, t['t'], False))
                elif k == 'return':
                    out.append((st, 'ret', st.mem.get((fr.id, 0), UNIT)))
                elif k == 'switch':
                    for s2, b2 in self.switch(st, fr, t):
                        stack.append((s2, b2, False))
                elif k == 'assert':
                    s2 = self.do_assert(st, fr, t)
                    if s2 is not None:
                        stack.append((s2, t['t'], False))
                elif k == 'call':
                    rs = self.call(st, fr, t)
                    if t['t'] is None:
                        continue
                    for s2, v in rs:
                        s2 = s2.copy()
                        self.store(s2, fr, t['dest'], v)
                        stack.append((s2, t['t'], False))
                elif k in ('unreachable', 'resume'):
                    pass
                else:
                    raise Unsupported('terminator ' + k)
            except Unsupported as e:
                if not getattr(e, 'where', None):
                    e.where = '%s (%s)' % (body.id, bl['t'].get('sp'))
                raise
        return out

    def switch(self, st, fr, t):
        d = self.operand(st, fr, t['d'])
        out = []
        ty = t['dty']
        if d.op == 'discr':
            v, adt = d.a
            vs = VARIANTS.get(adt)
            if vs is None:
                raise Unsupported('switch on discriminant of ' + str(adt))
            ds = DISCR.get(adt, list(range(len(vs))))
            rest = dict(zip(ds, vs))
            cur = st
            for c, b in t['cases']:
                if c >= 1 << 63:
                    c -= 1 << (64 if c < (1 << 64) else 128)
                if c not in rest:
                    # small signed discriminants are exported as unsigned
                    c2 = c - 256 if c - 256 in rest else c
                    c = c2
                var = rest.pop(c)
                s2 = self.assume(st, isv(v, adt, var))
                if s2 is not None:
                    out.append((s2, b))
            if fr.body.blocks[t['otherwise']]['t']['k'] != 'unreachable' or fr.body.blocks[t['otherwise']]['s']:
                for var in rest.values():
                    s2 = self.assume(st, isv(v, adt, var))
                    if s2 is not None:
                        out.append((s2, t['otherwise']))
            return out
        if ty == ('bool',):
            cases = dict(t['cases'])
            for s2, truth in self.branch(st, d):
                b = cases.get(1 if truth else 0, t['otherwise'])
                out.append((s2, b))
            return out
        cur = st
        for c, b in t['cases']:
            k = mk('chr', chr(c)) if ty == ('char',) else num(c)
            lit = eq(d, k) if ty == ('char',) else eqi(d, k)
            s2 = self.assume(cur, lit)
            if s2 is not None:
                out.append((s2, b))
            cur = self.assume(cur, neg(lit))
            if cur is None:
                break
        if cur is not None:
            out.append((cur, t['otherwise']))
        return out

    def do_assert(self, st, fr, t):
        m = t['msg']
        if m[0] == 'bounds':
            ln, ix = self.operand(st, fr, m[1]), self.operand(st, fr, m[2])
            return self.oblige(st, fr, 'index', lt(ix, ln), t['sp'])
        if m[0] == 'overflow':
            a, b = self.operand(st, fr, m[2]), self.operand(st, fr, m[3])
            n = intname(self.opty(fr, m[2]))
            if m[1] == 'Sub' and n[0] != 'i':
                return self.oblige(st, fr, 'subtract', le(b, a), t['sp'])
            if m[1] in ('Add', 'Mul') and n in ('u8', 'u16'):
                r = self.binop(m[1], a, b, ('int', n))
                return self.oblige(st, fr, m[1].lower() + ' in ' + n, le(r, num(2 ** BITS[n] - 1)), t['sp'])
            return st
        if m[0] == 'otherassert':
            return st
        c = self.operand(st, fr, t['cond'])  # the operand in a div0 message is the dividend
        return self.oblige(st, fr, 'divide' if m[0] == 'div0' else m[0], c if t['expected'] else neg(c), t['sp'])

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t):
        f = t['f']
        args = [self.operand(st, fr, a) for a in t['args']]
        dty = tsub(t['dest']['ty'], fr.ts)
        if f[0] == 'const' and 'fn' in f[1]:
            return self.call_named(st, fr, f[1]['fn'], args, fr.ts, t['sp'], dty, [self.opty(fr, a) for a in t['args']])
        fv = self.operand(st, fr, f)
        return self.call_value(st, fr, fv, args, t['sp'], dty)

    def call_value(self, st, fr, f, args, span, dty=None):
        """call a closure / fn item / opaque callable with untupled args"""
        if f.op == 'mref':
            f0 = self.rd(st, f)
            r = self.call_value(st, fr, f0, args, span, dty)
            return r
        if f.op == 'clo':
            b = self.prog.bodies.get(f.a[0])
            if b is None:
                raise Unsupported('closure body')
            ts = dict(f.a[1])
            env = f
            rs = self.inline(st, b, [env] + list(args), ts, fr)
            return rs
        if f.op == 'fnitem':
            c, ts = self.fninfo[f.a]
            return self.call_named(st, fr, c, list(args), ts, span, dty)
        return [(st, mk('call', 'fn', (), f, *args))]

    def call_named(self, st, fr, c, args, ts, span, dty=None, atys=None):
        if c.get('ctor'):
            i = c['ctor']
            if i in STRUCT_ARITY:
                self.constructed(st, fr, i, None, args, span)
                return [(st, agg(i, None, *args))]
            adt, var = i.rsplit('::', 1)
            return [(st, mk('agg', adt, var, *args))]
        targs = tuple(tsub(a, ts) for a in c['args'])
        fam, name = callee_key(c)
        # calling a callable value
        if fam in ('Fn', 'FnMut', 'FnOnce') and name in ('call', 'call_mut', 'call_once'):
            tupv = args[1]
            n = len(tupv.a) - 2 if tupv.op == 'agg' else None
            if n is None:
                raise Unsupported('call with opaque argument tuple')
            return self.call_value(st, fr, args[0], list(tupv.a[2:]), span, dty)
        rid = c.get('resolved')
        body = self.prog.bodies.get(rid) if rid else None
        if body is not None and c.get('kind') == 'Virtual':
            body = None
        rargs = c.get('rargs')
        if body is None and c.get('trait'):
            body, tmap = self.resolve_trait(c, targs)
            if body is not None:
                rargs = [tmap.get(g, ('param', g)) for g in body.generics]
                ts = {}
        if body is None and args and c.get('trait') and c.get('krate') in self.prog.crates:
            # method of a workspace trait on a trait object whose concrete type is known
            ty = self.std.dyn_type(self, st, args[0])
            if ty is not None:
                b2, nts = self.impl_for(c, ty)
                if b2 is not None:
                    a0 = args[0]
                    if a0.op == 'mref':
                        if not (a0.a[1] and a0.a[1][-1][0] == 'as'):
                            a0 = self.sub_ref(a0, ('as', ty))
                    else:
                        a0 = self.std.as_dyn(a0, ty)
                    return self.inline(st, b2, [a0] + args[1:], nts, fr)
        if body is not None and body.kind == 'fn':
            op = self.opaque(body, fr)
            if op is not None:
                return self.opaque_call(st, fr, op, targs, args, span, dty)
            nts = {}
            if rargs is not None:
                nts = dict(zip(body.generics, [tsub(a, ts) for a in rargs]))
            return self.inline(st, body, args, nts, fr)
        m = self.models.get((fam, name)) or self.models.get(('*', name))
        if m is not None:
            r = m(self, st, fr, C(c, fam, name, targs, args, span, dty, atys, ts))
            if r is not None:
                return r
        return self.unknown_call(st, fr, c, fam, name, targs, args, span, dty)

    def impl_for(self, c, ty):
        tr = c['trait'].split('<')[0].split('::')[-1]
        found = []
        for b in self.prog.bodies.values():
            if b.kind == 'fn' and b.name == c['name'] and b.impl_trait and b.self_ty \
                    and b.impl_trait.split('<')[0].split('::')[-1] == tr:
                m = {}
                if unify(b.self_ty, ty, m):
                    found.append((b, m))
        return found[0] if len(found) == 1 else (None, None)

    def resolve_trait(self, c, targs):
        """impl of a workspace trait for a concrete self type"""
        if not targs:
            return None, None
        st = targs[0]
        if st[0] != 'adt':
            return None, None
        tr = c['trait'].split('<')[0].split('::')[-1]
        for b in self.prog.bodies.values():
            if b.kind == 'fn' and b.name == c['name'] and b.impl_trait and b.self_ty and b.self_ty[0] == 'adt' \
                    and b.self_ty[1] == st[1] and b.impl_trait.split('<')[0].split('::')[-1] == tr:
                m = {}
                if not unify(b.self_ty, st, m):
                    continue
                rest = [g for g in b.generics if g not in m]
                if rest:
                    m.update(zip(rest, targs[-len(rest):]))
                return b, m
        return None, None

    def opaque_call(self, st, fr, name, targs, args, span, dty):
        t = mk('call', name, targs, *[self.freeze(st, a) for a in args])
        self.log.append({'k': 'opaque', 'name': name, 'args': tuple(args), 'facts': st.facts, 'fn': fr.body.id, 'span': span, 'term': t})
        if self.contracts:
            for f in self.contracts(self, st, name, t, args) or ():
                st2 = self.assume(st, f)
                if st2 is None:
                    return []
                st = st2
        return [(st, t)]

    def freeze(self, st, a):
        return self.rd(st, a) if a.op == 'mref' else a

    def unknown_call(self, st, fr, c, fam, name, targs, args, span, dty):
        ws = c.get('krate') in self.prog.crates or (c.get('trait') and c['krate'] in self.prog.crates)
        muts = [a for a in args if a.op == 'mref'] + [x for a in args if a.op == 'clo' for x in a.a[2:] if x.op == 'mref']
        nm = '%s::%s' % (fam, name)
        if not muts:
            if ws:
                if fam == 'XMatch':
                    targs = ()
                elif fam == 'XDirection':
                    targs = targs[1:]
                elif fam == 'Resolver':
                    targs = ()
                return [(st, mk('call', nm, targs, *args))]
            self.unknown.setdefault(nm, span)
            return [(st, mk('ucall', nm, *args))]
        self.unknown.setdefault(nm, span)
        n = st
        u = fresh_id()
        for i, m in enumerate(muts):
            n = self.wr(n, m, mk('unk', nm, u, i))
        return [(n, mk('unk', nm, u))]

    # ------------------------------------------------------------ iteration
    def open_nodes(self, nodes, facts=()):
        """tree with opened binders: list of entries
        ('leaf', id, facts, item) ('for', bv, lo, hi, rev, entries) ('alt', [(guards, entries)])"""
        out = []
        for n in norm_nodes(nodes):
            if n.op == 'item':
                out.append(['leaf', fresh_id(), facts, n.a[0]])
            elif n.op == 'spl':
                c = n.a[0]
                b = new_bv('k')
                fs = facts + self.bfacts(b, ZERO, length(c))
                out.append(['for', b, ZERO, length(c), False, [['leaf', fresh_id(), fs, elem(c, b)]]])
            elif n.op == 'for':
                b, lo, hi, rev, body = open_for(n)
                fs = facts + self.bfacts(b, lo, hi)
                out.append(['for', b, lo, hi, rev, self.open_nodes(body, fs)])
            elif n.op == 'alt':
                out.append(['alt', [(g, self.open_nodes(ns, facts + tuple(g))) for g, ns in n.a]])
            elif n.op == 'gen':
                # productions of an unstructured loop: some number of passes
                out.append(['opaque', n, [(g, self.open_nodes(ns, facts + tuple(g))) for g, ns in n.a[1]]])
            else:
                raise Unsupported('iteration over ' + n.op)
        return out

    def bfacts(self, b, lo, hi):
        return (le(lo, b), lt(b, hi))

    def leaves(self, tree):
        for e in tree:
            if e[0] == 'leaf':
                yield e
            elif e[0] == 'for':
                yield from self.leaves(e[5])
            elif e[0] == 'alt':
                for _, sub_ in e[1]:
                    yield from self.leaves(sub_)
            elif e[0] == 'opaque':
                for _, sub_ in e[2]:
                    yield from self.leaves(sub_)

    def rebuild(self, tree, f):
        """closed nodes with every leaf replaced by f(leaf_id) nodes"""
        out = []
        for e in tree:
            if e[0] == 'leaf':
                out.extend(f(e[1]))
            elif e[0] == 'for':
                out.extend(close_for(e[1], e[2], e[3], e[4], self.rebuild(e[5], f)))
            elif e[0] == 'alt':
                out.extend(alt_nodes([(g, self.rebuild(x, f)) for g, x in e[1]]))
            elif e[0] == 'opaque':
                al = tuple((g, norm_nodes(self.rebuild(x, f))) for g, x in e[2])
                if any(ns for _, ns in al):
                    out.append(mk('gen', e[1].a[0], al))
        return norm_nodes(out)

    def with_facts(self, st, fs):
        for f in fs:
            st = self.assume(st, f)
            if st is None:
                return None
        return st

    def same_mem(self, a, b):
        for k, v in a.mem.items():
            if b.mem.get(k) is not v:
                return False
        return True

    def map_nodes(self, st, nodes, fn):
        """apply fn(st, item) -> [(st', nodes)] to every item; fn must not change the store"""
        tree = self.open_nodes(nodes)
        res = {}
        for _, lid, fs, v in self.leaves(tree):
            s = self.with_facts(st, fs)
            if s is None:
                res[lid] = ()
                continue
            if v.op == 'panic':
                res[lid] = (item(v),)
                continue
            alts = []
            n0 = len(self.log)
            for s2, ns in fn(s, v):
                if not self.same_mem(s, s2):
                    raise Impure()
                alts.append((tuple(x for x in s2.facts if x not in s.facts), norm_nodes(ns)))
            if self.panics and any(e['k'] == 'oblig' and not e['ok'] for e in self.log[n0:]):
                # no way of returning applies: the item is never computed
                alts.append((tuple(neg(_all(g)) for g, _ in alts), (item(mk('panic', 'map')),)))
            res[lid] = self.merge_alts(alts)
        return self.rebuild(tree, lambda i: res[i])

    def merge_alts(self, alts):
        alts = [(g, ns) for g, ns in alts]
        if not alts:
            return ()
        # all alternatives produce the same nodes
        if len({ns for _, ns in alts}) == 1 and len(alts) > 1:
            return alts[0][1]
        return alt_nodes(alts)

    def as_iter(self, st, v, fr=None):
        """iterator term it(collection, stages)"""
        if v.op == 'it' or v.op == 'liter':
            return v
        if v.op == 'mref':
            return mk('itref', v)
        if v.op == 'itref':
            return v
        if v.op == 'agg':
            a = v.a[0].split('::')[-1]
            if a == 'Range':
                b = new_bv('r')
                return mk('it', seq(close_for(b, v.a[2], v.a[3], False, (item(b),))), ())
            if a == 'RangeInclusive':
                b = new_bv('r')
                return mk('it', seq(close_for(b, v.a[2], add(v.a[3], ONE), False, (item(b),))), ())
            if a == 'RangeFrom':
                return mk('it', mk('from', v.a[2]), ())
            if a == 'Option':
                return mk('it', seq((item(v.a[2]),)) if v.a[1] == 'Some' else EMPTY, ())
            if a == 'Result':
                return mk('it', seq((item(v.a[2]),)) if v.a[1] == 'Ok' else EMPTY, ())
        return mk('it', v, ())

    def option_coll(self, t):
        """collection view of an opaque Option term"""
        return seq(alt_nodes([((isv(t, OPTION, 'Some'),), (item(vf(t, OPTION, 'Some', 0)),))]))

    def materialise(self, st, fr, it):
        """node list an iterator term yields; raises Impure if a stage has effects"""
        if it.op == 'itref':
            raise Unsupported('borrowed iterator')
        if it.op != 'it':
            raise Unsupported('iterator ' + it.op)
        src, stages = it.a
        if src.op in ('repeat', 'from'):
            raise Unsupported('infinite iterator')
        nodes = nodes_of(src)
        for s in stages:
            nodes = self.map_nodes(st, nodes, lambda s_, v, s=s: self.stage(s_, fr, s, v))
        return nodes

    def stage(self, st, fr, s, v):
        """[(state, nodes)] for one item through one stage"""
        k, f = s.a[0], s.a[1]
        out = []
        if k == 'map':
            for s2, r in self.call_value(st, fr, f, [v], '-'):
                out.append((s2, (item(r),)))
        elif k == 'inspect':
            for s2, r in self.call_value(st, fr, f, [v], '-'):
                out.append((s2, (item(v),)))
        elif k == 'filter':
            for s2, r in self.call_value(st, fr, f, [v], '-'):
                for s3, b in self.branch(s2, r):
                    out.append((s3, (item(v),) if b else ()))
        elif k == 'filter_map':
            for s2, r in self.call_value(st, fr, f, [v], '-'):
                for s3, b in self.is_some(s2, r):
                    out.append((s3, (item(vf(r, OPTION, 'Some', 0)),) if b else ()))
        elif k == 'flat_map':
            for s2, r in self.call_value(st, fr, f, [v], '-'):
                for s3, ns in self.coll_nodes(s2, fr, r, s.a[2]):
                    out.append((s3, ns))
        elif k == 'flatten':
            for s3, ns in self.coll_nodes(st, fr, v, s.a[2]):
                out.append((s3, ns))
        else:
            raise Unsupported('stage ' + k)
        return out

    def coll_nodes(self, st, fr, v, hint=None):
        """[(state, nodes)] of something iterable"""
        if v.op == 'it':
            return [(st, self.materialise(st, fr, v))]
        if v.op == 'agg' and v.a[0] in (OPTION, RESULT):
            good = v.a[1] in ('Some', 'Ok')
            if good and v.a[2].op == 'it':
                pass
            return [(st, (item(v.a[2]),) if good else ())]
        if v.op == 'agg':
            return [(st, self.materialise(st, fr, self.as_iter(st, v)))]
        if hint == 'option':
            out = []
            for s2, b in self.is_some(st, v):
                out.append((s2, (item(vf(v, OPTION, 'Some', 0)),) if b else ()))
            return out
        return [(st, nodes_of(v))]

    # ---- consuming an iterator with effects: body(st, item) -> [(st, None | ('brk', val))]
    def consume(self, st, fr, it, body, span):
        """-> [(state, None | val)]; val for an early exit"""
        if it.op != 'it':
            raise Unsupported('consuming ' + it.op)
        try:
            n0 = len(self.log)
            nodes = self.materialise(st, fr, it)
            stages = ()
        except Impure:
            del self.log[n0:]
            src, stages = it.a
            nodes = nodes_of(src)
        if not nodes:
            return [(st, None)]

        def stepper(s, v, ss):
            if not ss:
                return body(s, v)
            out = []
            for s2, ns in self.stage(s, fr, ss[0], v):
                cur = [s2]
                for n in ns:
                    if n.op != 'item':
                        raise Unsupported('effectful nested iteration')
                    nxt = []
                    for s3 in cur:
                        for s4, ctl in stepper(s3, n.a[0], ss[1:]):
                            if ctl is None:
                                nxt.append(s4)
                            else:
                                out.append((s4, ctl))
                    cur = nxt
                out.extend((s3, None) for s3 in cur)
            return out

        # straight-line unrolling of literal items
        cur = [(st, None)]
        res = []
        groups = []
        for n in nodes:
            if n.op == 'item':
                groups.append(('item', n))
            elif groups and groups[-1][0] == 'loop':
                groups[-1][1].append(n)
            else:
                groups.append(('loop', [n]))
        if len(groups) == 1 and groups[0][0] == 'loop' or any(g[0] == 'loop' for g in groups):
            if not (len(groups) <= 4):
                groups = [('loop', list(nodes))]
        states = [st]
        for kind, g in groups:
            nxt = []
            for s in states:
                if kind == 'item':
                    for s2, ctl in stepper(s, g.a[0], stages):
                        (nxt.append(s2) if ctl is None else res.append((s2, ctl[1])))
                else:
                    done, brk = self.py_loop(s, fr, tuple(g), lambda a, v: stepper(a, v, stages), span)
                    nxt.extend(done)
                    res.extend(brk)
            states = nxt
            if len(states) > MAXPATHS:
                raise Unsupported('too many states')
        return [(s, None) for s in states] + res

    def py_loop(self, st, fr, nodes, body, span):
        tree = self.open_nodes(nodes)

        def run(h, lid):
            backs, exits = [], [(h, 'done', None)]
            for _, leaf, fs, v in self.leaves(tree):
                s = self.with_facts(h, fs)
                if s is None:
                    continue
                for s2, ctl in body(s, v):
                    s2 = s2.copy()
                    s2.meta[('leaf', lid)] = leaf
                    if ctl is None:
                        backs.append(s2)
                    else:
                        exits.append((s2, 'brk', ctl[1]))
            return backs, exits
        exits = self.summarise(st, fr, run, None, tree, span)
        done = [s for s, w, v in exits if w == 'done']
        brk = [(s, v) for s, w, v in exits if w == 'brk']
        return done, brk

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, st, header):
        region = fr.body.loops[header]
        live = {(fr.id, l) for l in fr.body.live[header] | fr.body.always_live}
        span = fr.body.blocks[header]['t'].get('sp')
        stop_at = fr.id

        def run(h, lid):
            backs, exits = [], []
            for s, b, v in self.walk(fr, h, header, region, header):
                if b == header:
                    backs.append(s)
                else:
                    exits.append((s, b, v))
            return backs, exits
        keep = lambda k: k[0] != fr.id or k in live
        return self.summarise(st, fr, run, keep, None, span, fr.body)

    def locs_diff(self, ty, path, a, b, out):
        """leaf locations at which values a (header) and b (back edge) differ"""
        if a is b:
            return
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a) and a.a[1] is None:
            base = a.a[0] if a.a[0] != 'tuple' else 'tuple%d' % (len(a.a) - 2)
            for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
                self.locs_diff(None, path + (('f', base, i),), x, y, out)
            return
        adt = None
        for x in (a, b):
            if x.op == 'agg' and x.a[1] is None and x.a[0] in STRUCT_ARITY:
                adt = x.a[0]
        if adt is None and ty and ty[0] == 'adt' and ty[1] in STRUCT_ARITY:
            adt = ty[1]
        if adt is not None and STRUCT_ARITY[adt] > 0 and a.op not in ('phi', 'fin', 'unk') and b.op not in ('unk',):
            for i in range(STRUCT_ARITY[adt]):
                fty = self.prog.adts[adt]['variants'][0]['fields'][i]['ty']
                self.locs_diff(fty, path + (('f', adt, i),), fld(a, adt, i), fld(b, adt, i), out)
            return
        out.append((path, ty))

    def summarise(self, st, fr, run, keep, tree, span, body=None, cursors=False):
        lid = fresh_id()
        log0 = len(self.log)
        try:
            return self.summarise1(st, fr, run, keep, tree, span, body, lid, cursors)
        except Irregular as e:
            if e.lid != lid or cursors or tree is not None:
                raise
        del self.log[log0:]
        return self.summarise(st, fr, run, keep, tree, span, body, True)

    def summarise1(self, st, fr, run, keep, tree, span, body, lid, cursors):
        mods = {}          # (root, path) -> dict(init, phi, kind, ty)
        log0 = len(self.log)
        invs = None
        dropped = set()
        for trial in range(40):
            del self.log[log0:]
            h = st.copy()
            h.meta = dict(st.meta)
            for (root, path), m in mods.items():
                h.mem[root] = self.setp(h.mem[root], path, m['phi'])
            if invs:
                for i in invs:
                    h2 = self.assume(h, i)
                    h = h2 if h2 is not None else h
            h0facts = h.facts
            backs, exits = run(h, lid)
            new = []
            for s in backs:
                for k, v in h.mem.items():
                    if keep and not keep(k):
                        continue
                    w = s.mem.get(k)
                    if w is None or w is v:
                        continue
                    ty = None
                    if body is not None and k[0] == fr.id:
                        ty = tsub(body.locals[k[1]], fr.ts)
                    d = []
                    self.locs_diff(ty, (), v, w, d)
                    for path, t in d:
                        if (k, path) not in mods and (k, path) not in new:
                            new.append((k, path, t))
            # a location below / above one already generalised
            changed = False
            for k, path, t in new:
                if (k, path) in mods:
                    continue
                if any(r == k and p[:-1] == path and p[-1][0] == 'cur' for r, p in mods if p):
                    continue
                init = self.getp(st.mem[k], path)
                over = [p for (r, p) in mods if r == k and (p[:len(path)] == path or path[:len(p)] == p)]
                if over:
                    if any(path[:len(p)] == p for p in over):
                        continue
                    for p in over:
                        del mods[(k, p)]
                kind = 'gen'
                if init.op in ('it', 'itref') or (init.op == 'agg' and init.a[0].split('::')[-1] in ('Range', 'RangeInclusive')):
                    kind = 'iter'
                if kind == 'iter' and cursors and init.op != 'itref':
                    try:
                        c = seq(self.materialise(st, fr, self.as_iter(st, init)))
                    except Impure:
                        raise Unsupported('an effectful iterator advanced irregularly')
                    path = path + (('cur', c),)
                    kind, init, t = 'gen', ZERO, ('int', 'usize')
                m = {'init': init, 'kind': kind, 'ty': t, 'k': len(mods)}
                if kind == 'iter':
                    m['phi'] = mk('liter', lid, fresh_id())
                    iti = self.as_iter(st, init)
                    try:
                        n0 = len(self.log)
                        src = self.materialise(st, fr, iti)
                        stg = ()
                    except Impure:
                        del self.log[n0:]
                        src, stg = nodes_of(iti.a[0]), iti.a[1]
                    self.liters[m['phi']] = {'tree': self.open_nodes(src), 'stages': stg, 'lid': lid, 'fr': fr}
                else:
                    m['phi'] = mk('phi', lid, fresh_id(), self.tyname(t))
                mods[(k, path)] = m
                changed = True
            if changed:
                invs = None
                continue
            if invs is None:
                invs = self.candidates(st, mods, backs, exits, dropped)
                if invs:
                    continue
            bad = []
            for i in invs:
                okb = prove(st.facts, self.inst(i, {m['phi']: m['init'] for m in mods.values() if m['kind'] != 'iter'}))
                if okb:
                    for s in backs:
                        val = {m['phi']: self.getp(s.mem[r], p) for (r, p), m in mods.items() if m['kind'] != 'iter'}
                        if not prove(s.facts, self.inst(i, val)):
                            okb = False
                            break
                if not okb:
                    bad.append(i)
            if bad:
                dropped.update(bad)
                invs = [i for i in invs if i not in bad]
                continue
            break
        else:
            raise Unsupported('loop at %s does not stabilise' % span)
        return self.close_loop(st, fr, lid, mods, h, backs, exits, tree, span, invs, body)

    def tyname(self, t):
        return showty(t) if t else ''

    def inst(self, inv, m):
        r = subst(inv, m)
        return r

    def candidates(self, st, mods, backs, exits, dropped):
        ints = []
        out = []
        for (r, p), m in mods.items():
            if m['kind'] == 'iter':
                continue
            t = m['ty']
            init = m['init']
            isint = (t and t[0] == 'int') or init.op == 'lin'
            if not isint:
                vals = [self.getp(s.mem[r], p) for s in backs]
                isint = any(v.op == 'lin' for v in vals)
            if isint:
                ints.append(m)
                out.append(le(init, m['phi']))
                out.append(le(m['phi'], init))
            elif init.op in ('seq', 'upd', 'mgetd') or (t and t[0] == 'adt' and t[1].split('::')[-1] in ('Vec', 'String')) or (
                    init.op in ('fin', 'phi') and any(self.getp(s.mem[r], p).op in ('upd', 'fin') for s in backs)):
                out.append(eqi(length(m['phi']), length(init)))
        if ints:
            phis = {m['phi'] for m in ints}
            seen = set()
            for m in ints:
                for n in ints:
                    if m is not n:
                        out.append(le(m['phi'], n['phi']))
                        out.append(lt(m['phi'], n['phi']))
            # bounds suggested by comparisons in the loop
            sug = set()
            for s in list(backs) + [e[0] for e in exits]:
                for f in s.facts:
                    if f.op in ('le', 'eq0') and f not in st.facts:
                        sug.add(f)
            for e in self.log:
                if e['k'] == 'oblig' and e['cond'].op == 'le':
                    sug.add(e['cond'])
            allphi = {m['phi'] for m in mods.values()}
            for f in sug:
                l = f.a[0]
                c, it = parts(l)
                if not any(t in phis for t, _ in it):
                    continue
                if any(x.op in ('ubv',) and x not in self.open_binders(st) for t, _ in it for x in free_ubv(t)):
                    continue
                for d in (0, 1, -1):
                    g = le0(add(l, num(d)))
                    out.append(g)
                    if f.op == 'le':
                        out.append(le0(add(scale(l, -1), num(d))))
        r = []
        for i in out:
            if i.op in ('le', 'eq0') and i not in r and i not in dropped:
                r.append(i)
        # keep only the ones true initially
        m0 = {m['phi']: m['init'] for m in mods.values() if m['kind'] != 'iter'}
        r = [i for i in r if prove(st.facts, self.inst(i, m0))]
        return r[:60]

    def open_binders(self, st):
        s = set()
        for f in st.facts:
            s |= free_ubv(f)
        return s

    def next_liter(self, st, fr, ref, lit):
        """next() on the iterator that drives the loop being analysed: one path per source item"""
        info = self.liters[lit]
        out = []
        lid = info['lid']
        for _, leaf, fs, v in self.leaves(info['tree']):
            s = self.with_facts(st, fs)
            if s is None:
                continue
            vs = [(s, v)]
            for sg in info['stages']:
                if sg.a[0] not in ('map', 'inspect'):
                    raise Unsupported('effectful %s in a for loop' % sg.a[0])
                nx = []
                for s1, x in vs:
                    for s2, ns in self.stage(s1, info['fr'], sg, x):
                        nx.append((s2, ns[0].a[0]))
                vs = nx
            for s1, x in vs:
                s2 = self.wr(s1, ref, mk('litadv', lit))
                s2.meta[('leaf', lid)] = leaf
                out.append((s2, some(x)))
        s2 = self.wr(st, ref, mk('litdone', lit))
        s2.meta[('done', lid)] = True
        out.append((s2, NONE))
        return out

    def close_loop(self, st, fr, lid, mods, h, backs, exits, tree, span, invs, body):
        lp = Loop()
        lp.id, lp.span, lp.fn = lid, span, fr.body.id
        lp.entry, lp.head, lp.backs, lp.exits = st, h, backs, exits
        lp.mods, lp.invs = mods, invs or []
        lp.driver = None
        lp.tree = tree
        leaf_facts = {}
        # driver: the iterator every pass advances exactly once
        iters = [(loc, m) for loc, m in mods.items() if m['kind'] == 'iter']
        if tree is not None:
            lp.driver = 'py'
        elif len(iters) == 1 and backs:
            (loc, m) = iters[0]
            if all(self.getp(s.mem[loc[0]], loc[1]).op == 'litadv' and self.getp(s.mem[loc[0]], loc[1]).a[0] is m['phi'] for s in backs):
                lp.driver = loc
                lp.tree = self.liters[m['phi']]['tree']
        elif len(iters) > 1:
            raise Irregular(lid, 'loop advances several iterators')
        if iters and lp.driver is None:
            raise Irregular(lid, 'loop does not advance its iterator exactly once per pass')
        lp.counter = None
        if lp.driver is None:
            self.find_counter(lp)
        if lp.tree is not None:
            leaf_facts = {e[1]: e[2] for e in self.leaves(lp.tree)}
        lp.leaf_facts = leaf_facts
        phis = {m['phi']: m for m in mods.values()}
        # transitions
        lp.trans = []
        for s in backs:
            leaf = s.meta.get(('leaf', lid))
            base = set(h.facts) | set(leaf_facts.get(leaf, ()))
            g = tuple(f for f in s.facts if f not in base)
            vals = {loc: self.getp(s.mem[loc[0]], loc[1]) for loc in mods}
            lp.trans.append({'leaf': leaf, 'guards': g, 'vals': vals, 'st': s})
        # symbols of enclosing passes the summary mentions
        own = {m['phi'] for m in mods.values()}
        if lp.tree is not None:
            own |= {e[1] for e in self.fors(lp.tree)}
        for b in own:
            self.bv_loop[b] = lid
        dep = set()
        def note(x):
            if isinstance(x, T):
                dep.update(y for y in free_ubv(x) if y.op != 'fin' and y not in own and y.op != 'liter')
            elif isinstance(x, (tuple, list)):
                for y in x:
                    note(y)
        for m in mods.values():
            if m['kind'] != 'iter':
                note(m['init'])
        note(lp.tree)
        for t in lp.trans:
            note(t['guards'])
            note([v for loc, v in t['vals'].items() if mods[loc]['kind'] != 'iter'])
        # a symbol of a loop inside this one (numbered later) is no input of this loop
        dep = {y for y in dep if self.bv_loop.get(y, -1) < lid}
        lp.deps = tuple(sorted(dep, key=lambda x: x.u))
        self.loops[lid] = lp
        # closed forms
        final = {}
        prefix = {}
        lp.appends = {}
        for loc, m in mods.items():
            if m['kind'] == 'iter':
                continue
            phi = m['phi']
            extra = []
            okp = True
            for t in lp.trans:
                v = t['vals'][loc]
                ns = nodes_of(v)
                if v is phi:
                    extra.append(())
                elif ns and ns[0].op == 'spl' and ns[0].a[0] is phi and v.op == 'seq':
                    extra.append(ns[1:])
                else:
                    okp = False
                    break
            if okp and any(extra) and lp.tree is not None and any(
                    y.op == 'phi' and y in own and y is not (lp.counter or {}).get('phi') or self.bv_loop.get(y, -1) > lid
                    for t, e in zip(lp.trans, extra) for y in free_ubv_all(tuple(e) + (tuple(t['guards']) if e else ()))):
                lp.appends[loc] = extra
                okp = False
                init_nodes = nodes_of(m['init'])
                prefix[phi] = seq(init_nodes + (mk('gen', lid, tuple((t['guards'], norm_nodes(e)) for t, e in zip(lp.trans, extra))),))
            if okp and any(extra):
                lp.appends[loc] = extra
                init_nodes = nodes_of(m['init'])
                if lp.tree is not None:
                    def f(leaf, extra=extra):
                        al = [(t['guards'], e) for t, e in zip(lp.trans, extra) if t['leaf'] == leaf]
                        return self.merge_alts(al)
                    final[phi] = seq(init_nodes + self.rebuild(lp.tree, f))
                    prefix[phi] = seq(init_nodes + (mk('gen', lid, tuple((t['guards'], norm_nodes(e)) for t, e in zip(lp.trans, extra))),))
                else:
                    g = mk('gen', lid, tuple((t['guards'], norm_nodes(e)) for t, e in zip(lp.trans, extra)))
                    final[phi] = prefix[phi] = seq(init_nodes + (g,))
                continue
            # integer counters
            if lp.tree is not None:
                steps = {sub(t['vals'][loc], phi) for t in lp.trans}
                if len(steps) == 1 and is_const(next(iter(steps))):
                    n = cnt_of(self.rebuild(lp.tree, lambda i: (item(UNIT),)))
                    final[phi] = add(m['init'], scale(n, cval(next(iter(steps)))))
                    continue
            if loc in lp.appends and lp.tree is not None:
                us = {len(e) if all(n.op == 'item' for n in e) else None for e in lp.appends[loc]}
                step = next(iter(us)) if len(us) == 1 else None
                F.GROWTH[(lid, phi.a[1])] = (m['init'], step, cnt_of(self.rebuild(lp.tree, lambda i: (item(UNIT),))), lp.deps)
            final[phi] = mk('fin', lid, phi.a[1], phi.a[2], *lp.deps)
        # a loop over a fixed list: run its passes one after the other
        if lp.tree is not None and all(e[0] == 'leaf' for e in lp.tree) and len(lp.tree) <= 8 and not any(
                not (w == 'done' or bool(s_.meta.get(('done', lid)))) for s_, w, v_ in exits):
            per = [[t for t in lp.trans if t['leaf'] == e[1]] for e in lp.tree]
            if all(len(x) == 1 for x in per):
                cur = {m['phi']: m['init'] for m in mods.values() if m['kind'] != 'iter'}
                for (t,) in per:
                    cur = {m['phi']: subst(t['vals'][loc], cur) for loc, m in mods.items() if m['kind'] != 'iter'}
                final.update(cur)
        lp.final = final
        self.element_facts(lp)
        # early exits
        out = []
        early = []
        marks = {}
        for s, w, v in exits:
            isdone = (w == 'done') or bool(s.meta.get(('done', lid))) or (lp.counter and lp.counter['exit'](s))
            if not isdone:
                leaf = s.meta.get(('leaf', lid))
                base = set(h.facts) | set(leaf_facts.get(leaf, ()))
                marks[id(s)] = len(early)
                early.append({'leaf': leaf, 'guards': tuple(f for f in s.facts if f not in base), 'st': s, 'where': w, 'val': v})
        lp.early = early
        exfact = None
        if lp.tree is not None and early and all(not any(x in phis for x in free_ubv_all(e['guards'])) for e in early):
            def f2(leaf):
                al = [(e['guards'], (item(UNIT),)) for e in early if e['leaf'] == leaf]
                return alt_nodes(al) if al else ()
            exn = self.rebuild(lp.tree, f2)
            exfact = nonempty(exn)
        for s, w, v in exits:
            isdone = (w == 'done') or bool(s.meta.get(('done', lid))) or (lp.counter and lp.counter['exit'](s))
            mark = marks.get(id(s), 'done')
            s = s.copy()
            s.meta = {k: x for k, x in s.meta.items() if k[1] != lid}
            if early or self.panics:
                s.meta[('exit', lid)] = frozenset([mark])
            if isdone and lp.tree is not None:
                mp = dict(final)
            else:
                mp = dict(prefix)
            if lp.counter and isdone:
                mp[lp.counter['phi']] = lp.counter['final']
            mp = {k: x for k, x in mp.items() if k is not x}
            if mp:
                s.mem = {k: subst(x, mp) for k, x in s.mem.items()}
                fs = []
                for f in s.facts:
                    g = subst(f, mp)
                    if g is not TRUE and g not in fs:
                        fs.append(g)
                s.facts = tuple(fs)
                if v is not None and isinstance(v, T):
                    v = subst(v, mp)
            if isdone and exfact is not None:
                s = self.assume(s, neg(exfact))
                if s is None:
                    continue
            elif not isdone and exfact is not None:
                s = self.assume(s, exfact)
                if s is None:
                    continue
                s, v = self.witness(lp, s, v, early, w)
            if isdone and lp.tree is not None:
                for phi, fv in final.items():
                    m = phis[phi]
                    # facts about final values of generalised symbols: the invariants
                    pass
                extra = []
                for i in lp.invs:
                    j = subst(i, mp)
                    extra.append(j)
                for j in extra:
                    s2 = self.assume(s, j)
                    if s2 is not None:
                        s = s2
            out.append((s, w, v))
        self.log.append({'k': 'loop', 'loop': lp, 'fn': fr.body.id, 'span': span, 'stack': fr.stack})
        return out

    def element_facts(self, lp):
        """order relations that hold between the integer fields of every element appended to a
        vector, and the lengths of vectors that only grow"""
        own = {m['phi']: (loc, m) for loc, m in lp.mods.items() if m['kind'] != 'iter'}
        growing = []
        for phi, (loc, m) in own.items():
            if lp.final.get(phi) is not None and lp.final[phi].op == 'fin' and (loc in lp.appends or all(
                    t['vals'][loc].op in ('seq', 'fin', 'phi', 'upd') and prove(t['st'].facts, le(length(phi), length(t['vals'][loc])))
                    for t in lp.trans)):
                growing.append((phi, loc))
        for phi, (loc, m) in own.items():
            if loc not in lp.appends or lp.final.get(phi) is None or lp.final[phi].op != 'fin' or m['init'] is not EMPTY:
                continue
            items = []
            for t, e in zip(lp.trans, lp.appends[loc]):
                if not all(n.op == 'item' and n.a[0].op == 'agg' for n in e):
                    items = None
                    break
                items += [(t, n.a[0]) for n in e]
            if not items or len({(x.a[0], x.a[1], len(x.a)) for _, x in items}) != 1:
                continue
            adt, n = items[0][1].a[0], len(items[0][1].a) - 2
            ints = [i for i in range(n) if all(x.a[2 + i].op in ('lin', 'len', 'cnt', 'fin', 'phi', 'ubv') for _, x in items)
                    and any(x.a[2 + i].op in ('lin', 'len', 'cnt') for _, x in items)]
            preds = []
            for i in ints:
                for j in ints:
                    if i != j and all(prove(t['st'].facts, le(x.a[2 + i], x.a[2 + j])) for t, x in items):
                        preds.append((le(fld(F.HOLE, adt, i), fld(F.HOLE, adt, j)), (i, j)))
                for w, wl in growing:
                    if all(prove(t['st'].facts, lt(x.a[2 + i], length(t['vals'][wl]))) for t, x in items):
                        preds.append((lt(fld(F.HOLE, adt, i), length(w)), (i,)))
            if preds:
                F.ELEMS[(lp.id, phi.a[1])] = (preds, tuple(own), lp.deps)

    def witness(self, lp, s, v, early, w):
        """values that mention the binder of the pass that left the loop become 'value at the
        first pass that leaves' when there is a single way of leaving"""
        if len(early) != 1 or any(x.op == 'phi' and x.a[0] == lp.id for x in free_ubv_all(early[0]['guards'])):
            return s, v
        bvs = set()
        for e in self.fors(lp.tree):
            bvs.add(e[1])

        def conv(x):
            if not isinstance(x, T) or not (free_ubv(x) & bvs):
                return x
            if x.op == 'agg':
                return rebuild('agg', x.a[:2] + tuple(conv(y) for y in x.a[2:]))
            if x.op == 'mref' or x.op == 'clo' or any(y.op == 'mref' for y in subterms(x)):
                return x
            e = early[0]
            ns = self.rebuild(lp.tree, lambda i: alt_nodes([(e['guards'], (item(x),))]) if i == e['leaf'] else ())
            return first_of(ns)
        s = s.copy()
        s.mem = {k: conv(x) for k, x in s.mem.items()}
        if v is not None:
            v = conv(v)
        about = tuple(f for f in s.facts if free_ubv(f) & bvs)
        s.facts = tuple(f for f in s.facts if not (free_ubv(f) & bvs))
        known = set(early[0]['guards']) | set(lp.leaf_facts.get(early[0]['leaf'], ()))
        if not lp.deps or not all(f in known for f in about) or any(isinstance(x, T) and free_ubv(x) & bvs for x in list(s.mem.values()) + [v]):
            s.facts += about
        return s, v

    def fors(self, tree):
        for e in tree:
            if e[0] == 'for':
                yield e
                yield from self.fors(e[5])
            elif e[0] == 'alt':
                for _, x in e[1]:
                    yield from self.fors(x)

    def find_counter(self, lp):
        """recognise `while i < n { ..; i += 1 }`"""
        phis = {m['phi']: loc for loc, m in lp.mods.items()}
        for loc, m in lp.mods.items():
            phi = m['phi']
            if not lp.backs:
                return
            if not all(self.getp(s.mem[loc[0]], loc[1]) is add(phi, ONE) for s in lp.backs):
                continue
            common = None
            for s in lp.backs:
                fs = {f for f in s.facts if f not in lp.head.facts and f.op == 'le'}
                common = fs if common is None else common & fs
            for f in sorted(common or (), key=lambda x: x.u):
                c, it = parts(f.a[0])
                d = dict(it)
                if d.get(phi) != 1:
                    continue
                rest = lin(c, [(t, k) for t, k in it if t is not phi])
                if any(x in phis or (x.op == 'ubv' and x not in self.open_binders(lp.entry)) for x in free_ubv(rest)):
                    continue
                hi = add(scale(rest, -1), ONE)          # phi <= -rest  ->  phi < hi
                nf = neg(f)
                ex = lambda s, nf=nf, h=lp.head: nf in s.facts and [x for x in s.facts if x not in h.facts][:1] == [nf]
                if not any(ex(e[0]) for e in lp.exits):
                    continue
                b = new_bv('w')
                lo = m['init']
                # rename phi to a binder everywhere in the summary
                mp = {phi: b}
                for s in lp.backs + [e[0] for e in lp.exits]:
                    pass
                lp.counter = {'phi': phi, 'lo': lo, 'hi': hi, 'exit': ex,
                              'final': hi if prove(lp.entry.facts, le(lo, hi)) else tmax(lo, hi)}
                lid = lp.id
                leaf = fresh_id()
                lp.tree = [['for', phi, lo, hi, False, [['leaf', leaf, (le(lo, phi), lt(phi, hi)), phi]]]]
                for s in lp.backs:
                    s.meta[('leaf', lid)] = leaf
                for e in lp.exits:
                    e[0].meta[('leaf', lid)] = leaf
                return


class C:
    """a call being modelled"""
    __slots__ = ('c', 'fam', 'name', 'targs', 'args', 'span', 'dty', 'atys', 'ts')

    def __init__(self, *a):
        for k, v in zip(self.__slots__, a):
            setattr(self, k, v)


def wrapped(v, src, dst):
    """integer conversion: the value is kept when every value of the source type fits"""
    a, b = (t[1] if t and t[0] in ('int', 'uint') and len(t) > 1 else None for t in (src, dst))
    if a not in BITS or b not in BITS:
        return v
    un = a[0] == 'u'
    if un and b[0] == 'u' and BITS[b] >= BITS[a] or un and b[0] == 'i' and BITS[b] > BITS[a] or not un and b[0] == 'i' and BITS[b] >= BITS[a]:
        return v
    lo, hi = (0, 2 ** BITS[b]) if b[0] == 'u' else (-2 ** (BITS[b] - 1), 2 ** (BITS[b] - 1))
    if is_const(v) and lo <= cval(v) < hi:
        return v
    return mk('wrap', v, BITS[b], b[0] == 'i')


def _all(g):
    r = TRUE
    for x in g:
        r = conj(r, x)
    return r


def unify(p, t, m):
    if isinstance(p, tuple) and len(p) == 2 and p[0] == 'param':
        if p[1] in m:
            return m[p[1]] == t
        m[p[1]] = t
        return True
    if isinstance(p, tuple) and isinstance(t, tuple):
        return len(p) == len(t) and all(unify(x, y, m) for x, y in zip(p, t))
    return p == t


def free_ubv_all(ts):
    s = frozenset()
    for t in ts:
        s |= free_ubv(t)
    return s


def tuple_(x):
    return tuple(tuple_(y) for y in x) if isinstance(x, (list, tuple)) else x


def install_any_attribute(prog):
    """invariant of the prepared-attribute struct (established at every construction site, see C19):
    its type id, empty bucket and value all belong to one concrete type"""
    FLD_REWRITE.clear()
    AGG_REWRITE.clear()
    for name, a in prog.adts.items():
        if not name.endswith('::AnyAttribute') or len(a['variants']) != 1:
            continue
        role = {}
        for i, f in enumerate(a['variants'][0]['fields']):
            s = repr(f['ty'])
            role[i] = 'id' if 'TypeId' in s and 'dyn' not in s else 'val' if 'dyn std::any::Any' in s else \
                'bucket' if 'dyn' in s else None
        if sorted(map(str, role.values())) != ['bucket', 'id', 'val']:
            continue

        def part(t, i):
            ty = ('anyty', t)
            r = role[i]
            if r == 'id':
                return mk('tyid', ty)
            if r == 'bucket':
                return mk('dyn', ('adt', 'alloc::vec::Vec', (ty, ('adt', 'alloc::alloc::Global', ()))), EMPTY)
            return mk('dyn', ty, mk('anyval', t))

        def rw(t, adt, i, name=name):
            if adt == name:
                return part(t, i)

        def ag(adt, var, fs, name=name):
            if adt != name:
                return None
            f = fs[[i for i in role if role[i] == 'val'][0]]
            if f.op == 'dyn' and f.a[1].op == 'anyval':
                t = f.a[1].a[0]
                if all(part(t, i) is x for i, x in enumerate(fs)):
                    return t
        FLD_REWRITE.append(rw)
        AGG_REWRITE.append(ag)
