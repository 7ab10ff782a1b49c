"""Entailment for the numeric (zone / linear inequality) and tag parts of the
abstract state: path facts plus the axioms of the atoms they mention."""
from terms import *

PRESENT = []         # callables: (map, key, facts) -> the key is present
AXIOMS = []          # callables: atom -> iterable of boolean terms
STATS = {'queries': 0, 'proved': 0}
_memo = {}
GROWTH = {}          # (loop, symbol) -> (init, step, passes): length of a vector that only grows in a loop
ELEMS = {}           # (loop, symbol) -> [predicate over HOLE and the loop's symbols], true of every element
HOLE = mk('hole')


def loop_axioms(t):
    if t.op == 'len' and t.a[0].op == 'fin' and t.a[0].a[:2] in GROWTH:
        init, step, passes, deps = GROWTH[t.a[0].a[:2]]
        m = dict(zip(deps, t.a[0].a[3:]))
        r = [le(length(subst(init, m)), t)]
        if step is not None:
            r.append(eqi(t, add(length(subst(init, m)), scale(subst(passes, m), step))))
        return r
    if t.op == 'fld' and t.a[0].op == 'elem':
        c = t.a[0].a[0]
        if c.op in ('fin', 'phi') and c.a[:2] in ELEMS:
            preds, phis, deps = ELEMS[c.a[:2]]
            m = {HOLE: t.a[0]}
            if c.op == 'fin':
                m.update({x: mk('fin', x.a[0], x.a[1], x.a[2], *c.a[3:]) for x in phis})
                m.update(zip(deps, c.a[3:]))
            return [subst(g, m) for g, fs in preds if t.a[2] in fs]


AXIOMS_BASE = [loop_axioms]


def atoms_of(l):
    return [t for t, _ in parts(l)[1]]


def _axioms(t):
    out = [le0(scale(t, -1))]
    if t.op == 'min':
        out += [le(t, t.a[0]), le(t, t.a[1])]
    elif t.op == 'max':
        out += [le(t.a[0], t), le(t.a[1], t)]
    elif t.op == 'pos':
        out += [le(t.a[0], t)]
    elif t.op == 'blen':
        out += [le(length(t.a[0]), t)]
    elif t.op == 'cnt' and len(t.a) == 1 and t.a[0].op == 'for':
        cb, lo, hi, rev, body = t.a[0].a
        if len(body) == 1 and body[0].op == 'alt' and all(len(ns) == 1 and ns[0].op == 'item' for _, ns in body[0].a):
            d = sub(hi, lo)
            if cb not in subterms(d):
                out += [le(t, posn(d))]
    for f in AXIOMS_BASE:
        out.extend(f(t) or ())
    for f in AXIOMS:
        out.extend(f(t) or ())
    return out


def prove(facts, g, depth=0):
    if g is TRUE:
        return True
    if g is FALSE:
        g = None
    STATS['queries'] += 1
    fs = frozenset(facts)
    if g is not None and g in fs:
        return True
    k = (fs, g, depth)
    r = _memo.get(k)
    if r is None:
        r = _prove(fs, g, depth)
        _memo[k] = r
    if r:
        STATS['proved'] += 1
    return r


def _prove(fs, g, depth):
    if FALSE in fs:
        return True
    for f in fs:
        if f.op == 'or' and depth < 3:
            rest = fs - {f}
            return all(prove(rest | {x}, g if g is not None else FALSE, depth + 1) for x in f.a)
        if f.op == 'and':
            return prove((fs - {f}) | set(f.a), g if g is not None else FALSE, depth)
    if g is not None:
        if g.op == 'and':
            return all(prove(fs, x, depth) for x in g.a)
        if g.op == 'or':
            if any(prove(fs, x, depth) for x in g.a):
                return True
            # assume the negation of the others
            rest = fs | {neg(x) for x in g.a[1:]}
            return prove(rest, g.a[0], depth + 1) if depth < 3 else False
        if neg(g) in fs and False:
            return False
        if g.op == 'isv':
            t, adt, v = g.a
            vs = VARIANTS.get(adt)
            if t.op == 'mget' and v == 'Some' and any(f(t.a[0], t.a[1], fs) for f in PRESENT):
                return True
            if t.op == 'mget' and v == 'Some' and depth < 3 and _contradict(fs | {neg(g)}, depth + 1):
                return True
            if vs:
                excl = {f.a[0].a[2] for f in fs if f.op == 'not' and f.a[0].op == 'isv' and f.a[0].a[0] is t}
                if set(vs) - excl == {v}:
                    return True
        if g.op == 'not' and g.a[0].op == 'isv':
            t, adt, v = g.a[0].a
            for f in fs:
                if f.op == 'isv' and f.a[0] is t and f.a[2] != v:
                    return True
        if g.op == 'not' and g.a[0].op == 'eq':
            x, y = g.a[0].a
            for p, q in ((x, y), (y, x)):
                if q.op in ('chr', 'str'):
                    for f in fs:
                        if f.op == 'eq' and p in f.a:
                            o = f.a[0] if f.a[1] is p else f.a[1]
                            if o.op == q.op and o is not q:
                                return True
        if g.op == 'eq0':
            return prove(fs, le0(g.a[0]), depth) and prove(fs, le0(scale(g.a[0], -1)), depth)
        if g.op == 'not' and g.a[0].op == 'eq0':
            l = g.a[0].a[0]
            if prove(fs, le0(add(l, ONE)), depth) or prove(fs, le0(sub(ONE, l)), depth):
                return True
            return False if depth > 2 else _contradict(fs | {g.a[0]}, depth)
        if g.op == 'le':
            return _linear(fs, g.a[0], depth)
    # tag contradictions among the facts
    for f in fs:
        if f.op == 'not' and f.a[0] in fs:
            return True
    by = {}
    for f in fs:
        if f.op == 'isv':
            if by.setdefault(f.a[0], f.a[2]) != f.a[2]:
                return True
        if f.op == 'eq':
            for p, q in (f.a, f.a[::-1]):
                if q.op in ('chr', 'str'):
                    if by.setdefault(('c', p), q) is not q:
                        return True
    for f in fs:
        if f.op == 'not' and f.a[0].op == 'isv':
            t, adt, v = f.a[0].a
            if by.get(t) == v:
                return True
            vs = VARIANTS.get(adt)
            if vs and all(mk('not', mk('isv', t, adt, x)) in fs for x in vs):
                return True
    if g is None:
        return _contradict(fs, depth)
    return False


def _contradict(fs, depth):
    """are the numeric facts unsatisfiable"""
    return _linear(fs, None, depth)


def contradictory(facts):
    return prove(facts, FALSE)


def default_empty(t, absent):
    """t counts the contents of a map entry that is known to be absent"""
    if t.op != 'len':
        return False
    x = t.a[0]
    first = True
    while True:
        if x.op == 'vals':
            if mk('mget', x.a[0], mk('tyid', x.a[1])) in absent:
                return True
            x = x.a[0]
        elif x.op == 'mgetd':
            if mk('mget', *x.a) in absent:
                return True
            if not first:
                return False
            x = x.a[0]
        elif x.op == 'fld':
            x = x.a[0]
            first = True
            continue
        else:
            return False
        first = False


def _linear(fs, goal, depth):
    """facts |= goal <= 0   (goal None: facts unsatisfiable)"""
    facts = []
    nes = []
    for f in fs:
        if f.op == 'le':
            facts.append(f.a[0])
        elif f.op == 'eq0':
            facts.append(f.a[0])
            facts.append(scale(f.a[0], -1))
        elif f.op == 'not' and f.a[0].op == 'eq0':
            nes.append(f.a[0].a[0])
    absent = {f.a[0].a[0] for f in fs if f.op == 'not' and f.a[0].op == 'isv' and f.a[0].a[0].op == 'mget'}
    # relevance closure over atoms, adding axioms
    cons = []
    seen_atoms = set()
    todo = list(atoms_of(goal)) if goal is not None else [a for l in facts for a in atoms_of(l)]
    pending = list(facts)
    split = None
    rounds = 0
    while todo and rounds < 400:
        t = todo.pop()
        if t in seen_atoms:
            continue
        rounds += 1
        seen_atoms.add(t)
        if t.op in ('min', 'max', 'pos') and split is None:
            split = t
        if absent and default_empty(t, absent):
            cons.append(t)
        for ax in _axioms(t):
            if ax is FALSE:
                return True
            if ax.op == 'le':
                cons.append(ax.a[0])
                todo.extend(atoms_of(ax.a[0]))
            elif ax.op == 'eq0':
                cons.append(ax.a[0])
                cons.append(scale(ax.a[0], -1))
                todo.extend(atoms_of(ax.a[0]))
        rest = []
        for l in pending:
            if t in atoms_of(l):
                cons.append(l)
                todo.extend(atoms_of(l))
            else:
                rest.append(l)
        pending = rest
    system = list(cons)
    if goal is not None:
        system.append(add(scale(goal, -1), ONE))     # goal >= 1
    if _infeasible(system):
        return True
    if split is not None and depth < 4:
        if split.op == 'pos':
            d = split.a[0]
            cases = [(le0(scale(d, -1)), d), (le0(d), ZERO)]
        else:
            x, y = split.a
            lo, hi = (x, y) if split.op == 'min' else (y, x)
            cases = [(le(lo, hi), x), (le(hi, lo), y)]
        for c, v in cases:
            nf = {subst(f, {split: v}) for f in fs} | {c}
            ng = le0(subst(goal, {split: v})) if goal is not None else FALSE
            if not prove(nf, ng, depth + 1):
                return False
        return True
    # disequalities: split d != 0 when d touches the relevant atoms
    if depth < 3:
        for d in nes:
            if any(a in seen_atoms for a in atoms_of(d)):
                fs2 = fs - {neg(eqi(d, ZERO))}
                g = le0(goal) if goal is not None else FALSE
                if prove(fs2 | {le0(add(d, ONE))}, g, depth + 1) and prove(fs2 | {le0(sub(ONE, d))}, g, depth + 1):
                    return True
    return False


def _infeasible(system, cap=600):
    """Fourier-Motzkin on constraints l <= 0"""
    cs = set()
    for l in system:
        c, it = parts(l)
        cs.add((c, it))
    cs = {(c, tuple(it)) for c, it in cs}
    while True:
        nxt = set()
        for c, it in cs:
            if not it:
                if c > 0:
                    return True
            else:
                nxt.add((c, it))
        cs = nxt
        if not cs:
            return False
        # keep only the strongest per direction
        best = {}
        for c, it in cs:
            if it not in best or best[it] < c:
                best[it] = c
        cs = {(c, it) for it, c in best.items()}
        cnt = {}
        for c, it in cs:
            for t, k in it:
                p, n = cnt.get(t, (0, 0))
                cnt[t] = (p + 1, n) if k > 0 else (p, n + 1)
        v = min(cnt, key=lambda t: (cnt[t][0] * cnt[t][1], t.u))
        pos, ng, rest = [], [], set()
        for c, it in cs:
            k = dict(it).get(v, 0)
            if k > 0:
                pos.append((c, it, k))
            elif k < 0:
                ng.append((c, it, -k))
            else:
                rest.add((c, it))
        for c1, i1, k1 in pos:
            for c2, i2, k2 in ng:
                d = {}
                for t, k in i1:
                    d[t] = d.get(t, 0) + k * k2
                for t, k in i2:
                    d[t] = d.get(t, 0) + k * k1
                it = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].u))
                c = c1 * k2 + c2 * k1
                g = 0
                for _, k in it:
                    g = _gcd_(g, abs(k))
                if g > 1:
                    it = tuple((t, k // g) for t, k in it)
                    c = -((-c) // g)
                rest.add((c, it))
        cs = rest
        if len(cs) > cap:
            return False


def _gcd_(a, b):
    while b:
        a, b = b, a % b
    return a


def decide(facts, b):
    """True / False / None"""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if prove(facts, b):
        return True
    if prove(facts, neg(b)):
        return False
    return None
