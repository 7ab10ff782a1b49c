"""C11: nothing but the input decides the result.

An effect analysis over every function reachable from the public API: (1) no ambient input
(time, environment, files, random numbers, thread identity, addresses); (2) no hidden state
(statics, thread locals, interior mutability in public types); (3) hash order does not reach a
result: code without a hash traversal cannot depend on it, and the summary of a function with one
must equal an order-free specification (C15..) or is evaluated under several orders."""
import json
import os
import mir
import cg
from check import *
import props
from props.c10 import collect, roots, label

PURE_CRATES = ('unicode_segmentation', 'unicode_width', 'rust_decimal', 'once_cell', 'wiktionary_part_of_speech_extract')
AMBIENT = ('std::time', 'std::env', 'std::process', 'std::fs', 'std::net', 'std::os', 'std::hash::random', 'std::io::stdio::stdin',
           'std::io::stdio::{impl', 'std::thread::current', 'std::thread::id', 'std::thread::local', 'std::backtrace', 'rand', 'getrandom')
CLOCK_TYPES = ('SystemTime', 'Instant', 'ThreadId')
FINE_STD = ('std::collections', 'std::panicking', 'std::io::stdio::_print', 'std::io::stdio::_eprint', 'std::panic', 'std::f64', 'std::num',
            'std::ascii', 'std::error', 'std::sync::lazy_lock', 'std::sync::once_lock', 'std::hash')
TRAVERSE = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'retain', 'into_iter', 'extract_if',
            'union', 'intersection', 'difference', 'symmetric_difference', 'fmt'}
INTERIOR = {'Cell', 'RefCell', 'UnsafeCell', 'SyncUnsafeCell', 'Mutex', 'RwLock', 'Condvar', 'LocalKey', 'LazyStorage', 'EagerStorage', 'Storage',
            'ReentrantLock', 'Sender', 'Receiver'}
ONCE = {'OnceCell', 'OnceLock', 'Lazy', 'LazyLock', 'LazyCell'}


class Dispatch(cg.Graph):
    """a call of a trait method of the library may run any of its implementations in the library"""

    def __init__(self, P):
        cg.Graph.__init__(self, P)
        impls = {}
        for b in P.bodies.values():
            if b.kind == 'fn' and b.impl_trait:
                impls.setdefault((b.impl_trait.split('<')[0], b.name), []).append(b.id)
        for k, l in self.out.items():
            for i, f in list(l):
                if f and i not in P.bodies and f.get('trait') and i.split('::')[0] in P.crates:
                    l += [(j, None) for j in impls.get((f['trait'].split('<')[0], f['name']), ())]


def adts(t):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == 'adt' and isinstance(t[1], str):
            yield t[1]
        for x in t:
            yield from adts(x)


def interior(t):
    for a in adts(t):
        n = a.split('::')[-1]
        if (n in INTERIOR or n.startswith('Atomic')) and a.startswith(('core::', 'alloc::', 'std::', 'once_cell')):
            return a
    return None


def is_hash(t):
    return any(a.startswith('std::collections::hash') and a.split('::')[-1] in ('HashMap', 'HashSet') for a in adts(t))


def top_hash(t):
    while t and t[0] == 'ref':
        t = t[2]
    return bool(t) and t[0] == 'adt' and t[1].startswith('std::collections::hash') and t[1].split('::')[-1] in ('HashMap', 'HashSet')


def ambient(i, f):
    """(verdict, what) of a call that is not analysed further"""
    krate = i.split('::')[0]
    if krate in ('core', 'alloc'):
        if i.startswith('core::fmt::rt') and f and f.get('name') == 'new_pointer':
            return REFUTED, 'prints an address'
        if 'fmt::Pointer' in i or (f and (f.get('trait') or '').endswith('fmt::Pointer')):
            return REFUTED, 'prints an address'
        if i.split('::')[-1] in ('addr', 'expose_provenance') and 'ptr' in i:
            return REFUTED, 'reads an address as a number'
        if i.startswith('core::sync::atomic'):
            return OPEN, 'an atomic variable'
        return None
    if krate == 'std':
        if i.startswith(AMBIENT) or (f and f.get('name') in ('hasher',) and 'hash' in i):
            return REFUTED, 'reads something that is not its input'
        if i.startswith(FINE_STD):
            return None
        return OPEN, 'a library function not known to be pure'
    if krate in PURE_CRATES:
        return None
    if krate in ('rand', 'fastrand', 'getrandom', 'chrono', 'uuid'):
        return REFUTED, 'reads something that is not its input'
    return OPEN, 'a crate not known to be pure'


def traversal(i, f):
    """does the call visit the entries of a hash container in the order of the container?"""
    if f is None:
        return False
    last = i.split('::')[-1]
    if i.startswith('std::collections::hash') and last in TRAVERSE:
        return True
    args = [a for a in mir.tt(f.get('args') or ())]
    st = mir.tt(f['self_ty']) if f.get('self_ty') is not None else None
    if f.get('name') in ('into_iter',) and st is not None and top_hash(st):
        return True
    if f.get('name') in ('extend', 'from_iter', 'zip', 'chain', 'eq', 'cmp', 'new_debug') and any(top_hash(a) for a in args if a is not st):
        return not (st is not None and top_hash(st) and f['name'] == 'eq')
    return False


def casts(b):
    """pointers read as numbers, and hash containers handed to the formatter"""
    def walk(x):
        if isinstance(x, (list, tuple)):
            if x and x[0] == 'cast' and isinstance(x[1], str) and 'Expose' in x[1]:
                yield 'reads an address as a number'
            for y in x:
                yield from walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                yield from walk(y)
    yield from walk([bl['s'] for bl in b.blocks])


def seeds(ctx, R, I, outs, models, pre):
    """a model in which two hash orders give two results"""
    t0 = time.time()
    for env, funcs in models():
        if R.late(t0, 60):
            return None
        first = None
        for seed in range(6):
            ev = Ev(I, env, funcs, seed)
            try:
                if pre and not ev.guard(pre):
                    break
                o = ev.outcome(outs)
                R.models += 1
                if o is None:
                    break
                v = (canon(ev.ev(o[1])),) + tuple((k, canon(ev.ev(x))) for k, x in sorted(o[0].mem.items(), key=repr) if k[0] == 'h')
            except (Panics, Undef, NotHere, TypeError, IndexError, KeyError, RunsOnError):
                break
            if first is None:
                first = v
            elif v != first:
                return describe(env), '%s or %s, depending on the hash order' % tuple(map(short_, diff(first, v)))
    return None


def total(I, t):
    """t = sorted(how, hashseq, closure): no two entries compare equal"""
    how, hs = t.a[0], t.a[1]
    if 'value' in hs.a[0]:
        return False
    if len(t.a) == 2:
        return True
    key = (lambda x: x) if 'key' in hs.a[0] else (lambda x: fld(x, 'tuple', 0))
    try:
        if 'key' in how:
            x = new_bv('x')
            outs = I.call_value(interp.St({}, ()), None, t.a[2], [x], '')
            return len(outs) == 1 and outs[0][1] in (x, key(x))
        x, y = new_bv('x'), new_bv('y')
        outs = I.call_value(interp.St({}, ()), None, t.a[2], [x, y], '')
        if len(outs) != 1 or outs[0][1].op != 'call' or outs[0][1].a[0] != 'Ord::cmp':
            return False
        ab = [z for z in outs[0][1].a if isinstance(z, T)]
        return set(ab[-2:]) == {key(x), key(y)} or set(ab[-2:]) == {x, y}
    except (interp.Unsupported, interp.Impure):
        return False


def fixed_order(I, outs):
    """hash traversals of a summary occur only inside a sort that leaves no tie"""
    seen, todo = set(), []

    def push(x):
        if isinstance(x, T):
            todo.append(x)
        elif isinstance(x, dict):
            for y in x.values():
                push(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                push(y)
    for s, v in outs:
        push(v)
        push(s.mem)
        push(s.facts)
    for lp in I.loops.values():
        push([lp.tree, [[tr.get('guards'), tr.get('vals')] for tr in lp.trans], [[m['init']] for m in lp.mods.values()]])
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'hashseq':
            return False
        if t.op == 'sorted' and t.a[1].op == 'hashseq' and total(I, t):
            push(t.a[1].a[1])
            continue
        push(t.a)
    return True


def visible(v):
    """the order of a hash container decides the order of a sequence in v (v: a returned value, down to the library's own types)"""
    def raw(t):
        return any(x.op == 'hashseq' for x in subterms(t))

    def nodes(ns):
        for n in ns:
            if n.op == 'spl' and visible(n.a[0]):
                return True
            if n.op == 'item' and visible(n.a[0]):
                return True
            if n.op == 'alt' and any(nodes(b) for _, b in n.a):
                return True
            if n.op == 'for':
                b, lo, hi, rev, body = open_for(n)
                hs = [x for x in subterms(hi) if x.op == 'len' and x.a[0].op == 'hashseq']
                if hi in hs and any(x.op == 'elem' and x.a[0] is hi.a[0] and x.a[1] is b for y in items(body) for x in subterms(y)):
                    return True
                if nodes(body):
                    return True
        return False

    def items(ns):
        for n in ns:
            if n.op == 'item':
                yield n.a[0]
            elif n.op == 'spl':
                yield n.a[0]
            elif n.op == 'alt':
                for _, b in n.a:
                    yield from items(b)
            elif n.op == 'for':
                yield from items(open_for(n)[4])
    if v.op == 'hashseq':
        return True
    if v.op == 'agg' and (v.a[0] == 'tuple' or v.a[0].startswith(('core::', 'alloc::'))):
        return any(visible(x) for x in v.a[2:] if isinstance(x, T))
    if v.op == 'seq':
        return nodes(v.a)
    return False


def diff(a, b):
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a != b:
        i = next(i for i in range(len(a)) if a[i] != b[i])
        if not isinstance(a[i], tuple):
            break
        a, b = a[i], b[i]
    return a, b


from evalt import RunsOn as RunsOnError


def run_c11(ctx, R):
    P = ctx.P
    G = Dispatch(P)
    rs = roots(ctx)
    of = {b.id: G.reach(b.id) for b in rs}
    live = set().union(*of.values()) if of else set()
    bodies = [P.bodies[i] for i in sorted(live) if i in P.bodies]
    who = lambda i: next((label(b) for b in rs if i in of[b.id]), '?')
    # (1) ambient input
    n = bad = 0
    for b in bodies:
        for i, f in G.out[b.id]:
            if i.split('::')[0] in P.crates:
                continue                    # a body of its own, a constructor, or a trait method dispatched to every impl
            n += 1
            r = ambient(i, f)
            if r:
                bad += 1
                R.add('ambient.%s.%s' % (b.id, i.split('::')[-1]), r[0], site(b), 'no function reachable from the public API reads ambient state',
                      '%s calls %s: %s (reached from %s)' % (b.id, i, r[1], who(b.id)))
        for what in casts(b):
            bad += 1
            R.add('address.%s' % b.id, REFUTED, site(b), 'no result depends on an address', '%s %s (reached from %s)' % (b.id, what, who(b.id)))
    R.count('reachable bodies', len(bodies))
    R.count('calls that leave the library', n)
    if not bad:
        R.add('ambient', PROVED, '', 'no function reachable from the public API reads ambient state', '%d bodies, %d calls out of the library' % (len(bodies), n))
    # (2) hidden state
    rule = 'no state outlives a call other than in the values the caller holds, and those are not changed behind a shared reference'
    bad = n = 0
    d = mir.export()
    for f in sorted(os.listdir(d)):
        if not f.endswith('.json'):
            continue
        for x in json.load(open(os.path.join(d, f)))['special']:
            if x['kind'] != 'static':
                continue
            n += 1
            t = mir.tt(x['ty'])
            m = interior(t)
            if x['mut'] or m:
                bad += 1
                R.add('static.%s' % x['id'], REFUTED, '%s (%s)' % (x['id'], x['span']), rule, 'a static variable that can change: %s' % (m or 'static mut'))
            elif any(a.split('::')[-1] in ('OnceCell', 'OnceLock') for a in adts(t)):
                inits = [(b, c) for b in bodies for i, c in G.out[b.id] if c and c.get('name') in ('get_or_init', 'get_or_try_init', 'set')
                         and ('once' in i)]
                takes = [b for b, c in inits if c['name'] == 'set' or captures(P, b)]
                if takes:
                    bad += 1
                    R.add('static.%s' % x['id'], REFUTED, '%s (%s)' % (x['id'], x['span']), rule,
                          'a static that keeps data of its first caller, set in %s' % takes[0].id)
    for a in P.adts.values():
        for v in a['variants']:
            for q in v['fields']:
                n += 1
                m = interior(q['ty'])
                o = any(z.split('::')[-1] in ('OnceCell', 'OnceLock', 'LazyCell') for z in adts(q['ty']))
                if m or o:
                    bad += 1
                    R.add('field.%s.%s' % (a['id'], q['name']), REFUTED if m and a['reachable'] else OPEN, '%s (%s)' % (a['id'], a['span']), rule,
                          'field %s of %s can change behind a shared reference: %s' % (q['name'], a['id'], m or 'once cell'))
    if not bad:
        R.add('state', PROVED, '', rule, '%d statics and fields' % n)
    # (3) hash order
    rule = 'hash order does not reach a result'
    src = {}
    for b in bodies:
        for i, f in G.out[b.id]:
            if traversal(i, f):
                src.setdefault(b.id, []).append(i)
    R.count('hash traversals', sum(map(len, src.values())))
    free = 0
    if src:
        collect(ctx)
    for b in rs:
        hit = [s for s in src if s in of[b.id]]
        if not hit:
            free += 1
            continue
        key = 'order.%s' % label(b)

        def one(b=b, hit=hit, key=key):
            where = '%s, traversal in %s' % (site(b), hit[0])
            regs = [(I, outs, models, pre) for I, outs, models, pre, pid in ctx.reg if I.root.id == b.id or (b.id in I.fn_seen and set(hit) & I.fn_seen)]
            if regs and all(fixed_order(I, outs) for I, outs, _, _ in regs):
                return R.add(key, PROVED, where, rule, 'every traversal is sorted by the whole key before its order matters')
            for I, outs, models, pre in regs:
                r = seeds(ctx, R, I, outs, models, pre)
                if r:
                    return R.add(key, REFUTED, where, rule, 'for %s: %s' % r)
            I, outs = ctx.analyse(b)
            for st, v in outs:
                if visible(v):
                    return R.add(key, REFUTED, where, rule, 'the entries of a hash container are returned in its order: %s' % str(v)[:300])
            return R.add(key, OPEN, where, rule, 'a hash traversal, not shown to be independent of the order')
        R.guard(key, one, site(b), rule)
    R.add('order', PROVED, '', rule, '%d public functions reach no traversal of a hash container, %d reach one' % (free, len(rs) - free))
    R.count('public functions', len(rs))


def captures(P, b):
    """the body makes a closure that captures something"""
    for bl in b.blocks:
        for s in bl['s']:
            if s[0] == 'assign' and isinstance(s[2], list) and s[2][0] == 'agg' and s[2][1] == 'closure' and s[2][2]:
                return True
    return False


META = {
    'C11': dict(run=run_c11, floor=3,
                explanation='Effect analysis over every body reachable from the public API: calls that leave the library are classified, statics, thread '
                            'locals and interior mutability are enumerated, traversals of hash containers are located and the functions that reach '
                            'one must equal an order-free specification.'),
}
