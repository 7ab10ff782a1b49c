"""C06, C10, C20: what must hold at every construct of the program, not of one function:
bounds of selections, absence of panics, termination."""
import props
from check import *
from models import Mod
from evalt import Agg, Sym, RunsOn, Panics
import sem

OTHERS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19']


def collect(ctx):
    """the analyses of all public functions, with the models their specifications are separated in"""
    if ctx.reg is None:
        ctx.reg = []
        ctx.status = {}
        for pid in OTHERS:
            R = Report(pid, ctx)
            R.guard('check', lambda: props.META[pid]['run'](ctx, R))
            ctx.status[pid] = R
    return ctx.reg


def roots(ctx):
    return sorted((b for b in ctx.P.bodies.values() if b.kind == 'fn' and b.reachable), key=lambda b: b.id)


def label(b):
    t = b.self_ty[1].split('::')[-1] + '::' if b.self_ty and b.self_ty[0] == 'adt' else ''
    return t + (b.name or b.id.split("::")[-1])


def programs(ctx, R):
    """(root, analysis, outcomes) for every entry point; entry points without a summary stay open"""
    reg = collect(ctx)
    by = {}
    for I, outs, models, pre, pid in reg:
        by.setdefault(I.root.id, {})[id(I)] = (I, outs)
    out = []
    for b in roots(ctx):
        if b.id in by:
            out += [(b, I, outs) for I, outs in by[b.id].values()]
            continue
        try:
            I, outs = ctx.analyse(b)
            out.append((b, I, outs))
        except (interp.Unsupported, interp.Impure) as e:
            R.add('%s.analysed' % label(b), OPEN, site(b), 'every entry point is summarised', 'outside the analysed fragment: %s' % e)
    seen = {b.id for b, _, _ in out}
    # private functions analysed on their own by another check (the tokeniser)
    for k, d in by.items():
        if k not in seen:
            for I, outs in d.values():
                out.append((I.root, I, outs))
    return out


def bounds_of_assignments(N):
    """assignments returned by a resolver were made from its own selection (documented)"""
    ca = N.adt('LLCursorAssignment')
    i_s, i_e = N.idx('LLCursorAssignment', 'start_idx'), N.idx('LLCursorAssignment', 'end_idx')

    def ax(t):
        if t.op == 'fld' and t.a[1] == ca and t.a[2] in (i_s, i_e) and t.a[0].op == 'elem' and t.a[0].a[0].op == 'call' \
                and t.a[0].a[0].a[0].endswith('Resolver::go'):
            c = t.a[0].a[0]
            x = t.a[0]
            s = c.a[-1]
            n = length(N.F(N.F(s, 'LLSelection', 'll_line'), 'LLLine', 'll_tokens'))
            return [le(fld(x, ca, i_s), fld(x, ca, i_e)), lt(fld(x, ca, i_e), n)]
    return ax


def documented(ctx, N, root, e):
    """the documented refusals, recognised by the condition under which they are reached"""
    sel = N.adt('LLSelection')
    i_l = N.idx('LLSelection', 'll_line')
    for f in e['facts']:
        if f.op == 'not' and f.a[0].op == 'eq':
            x, y = f.a[0].a
            if all(z.op == 'fld' and z.a[1] == sel and z.a[2] == i_l and z.a[0].op == 'p' for z in (x, y)) and x is not y:
                return 'selections of two different lines'
        if f.op == 'not' and f.a[0].op == 'call' and f.a[0].a[0] == 'Rc::unique':
            return 'the resolver keeps hold of its selection'
        if f.op == 'le':
            c, it = parts(f.a[0])
            if c == 0 and len(it) == 1 and it[0][1] == 1 and it[0][0].op == 'len' and lossless(ctx, N, it[0][0].a[0], e['facts']):
                return 'an empty text input'
    return None


def lossless(ctx, N, c, facts):
    """c is the tokeniser's result for the text of an input: empty only for an empty text (C01)"""
    st = ctx.status.get('C01')
    if st is None or not any(o['key'] == 'tokeniser.lossless' and o['status'] == PROVED for o in st.obs):
        return False
    it = N.adt('InputToken')
    if not any(f.op == 'isv' and f.a[1] == it and f.a[2] == 'Text' for f in facts):
        # create_line_from_string: the only input is a text
        pass
    return c.op in ('fin', 'call') and (c.op == 'fin' or c.a[0].split('::')[-1] == 'tokeniser')


def line_of(I, N, t, seen=()):
    """the selection a selection-valued term was derived from (its line is the same), or None"""
    sel, i_l = N.adt('LLSelection'), N.idx('LLSelection', 'll_line')

    def through(t, f, seen):
        lp = I.loops.get(t.a[0])
        loc, m = next(((l, m) for l, m in lp.mods.items() if m['phi'].a[1] == t.a[1]), (None, None)) if lp else (None, None)
        if loc is None:
            return None
        s2 = seen + (t, m['phi'])
        rs = {f(x, s2) for x in [m['init']] + [tr['vals'][loc] for tr in lp.trans]} - {'same'}
        return next(iter(rs)) if len(rs) == 1 else None

    def line(t, seen):
        if t in seen:
            return 'same'
        if t.op == 'fld' and t.a[1] == sel and t.a[2] == i_l:
            return selection(t.a[0], seen)
        if t.op in ('phi', 'fin'):
            return through(t, line, seen)
        return None

    def selection(t, seen):
        path = 0
        while t.op in ('fld', 'vf', 'elem'):
            t = t.a[0]
            path += 1
        if t in seen:
            return 'same'
        if t.op == 'p':
            return t
        if t.op == 'call' and t.a[0].startswith('LLSelection::'):
            return line(fld(t.a[2], sel, i_l), seen)
        if t.op in ('phi', 'fin') and path == 0:
            return through(t, lambda x, s2: line(fld(x, sel, i_l), s2), seen)
        return None
    return line(fld(t, sel, i_l), seen)


def same_line(ctx, I, outs, N):
    """calls of split_with in a summary whose two selections are not shown to be of one line"""
    from props.c15 import calls
    bad = []
    for t in calls(I, outs, 'split_with'):
        a, b = line_of(I, N, t.a[2]), line_of(I, N, t.a[3])
        if a is None or a is not b:
            bad.append(t)
    return bad


def beyond_panics(ctx):
    """looking up attributes outside the line panics (in which case nothing may start there)"""
    N = ctx.N
    out = set()
    for dn in ('XForwards', 'XBackwards'):
        try:
            b = next(b for b in ctx.P.bodies.values() if b.kind == 'fn' and b.name == 'attr' and b.self_ty and b.self_ty[0] == 'adt'
                     and b.self_ty[1] == N.adt(dn))
            I, outs = ctx.analyse(b)
            n = length(N.F(p('arg2'), 'LLLine', 'll_tokens'))
            if all(FX.contradictory(tuple(s.facts) + (le(n, N.F(p('self'), dn, 'from_idx')),)) for s, v in outs):
                out.add(N.adt(dn))
        except (Missing, StopIteration, interp.Unsupported, interp.Impure):
            pass
    return out


def guarded(ctx, funcs, beyond):
    N = ctx.N
    M = Mod(N)

    def w(f):
        def g(ev, ta, m, d, line):
            if isinstance(d, Agg) and d.adt in beyond and not 0 <= d.fs[0] < len(M.f(line, 'LLLine', 'll_tokens')):
                raise Panics('matching starts at token %d, outside the line' % d.fs[0])
            return f(ev, ta, m, d, line)
        return g
    return {k: w(f) if k == 'XMatch::go' else f for k, f in funcs.items()}


def panics_in_models(R, ctx, I, iouts, beyond):
    """a model of the type invariants in which the function described by I has no normal outcome"""
    tried = 0
    for J, outs, models, pre, pid in entries_of(ctx, I.root, [(I, iouts)], False):
        try:
            K, ko = J.rerun()
        except (interp.Unsupported, interp.Impure, RecursionError):
            K, ko = J, outs
        t0 = time.time()
        for env, funcs in models():
            if R.late(t0, 60):
                break
            ev = Ev(K, env, guarded(ctx, funcs, beyond), 0)
            try:
                if pre and not ev.guard(pre):
                    continue
                o = ev.outcome(ko)
                tried += 1
                R.models += 1
                if o is None:
                    return describe(env), 'no normal outcome'
                vals = [ev.ev(o[1])] + [ev.ev(x) for k, x in o[0].mem.items() if k[0] == 'h']
                if any(has_panic(v) for v in vals):
                    return describe(env), 'computing an item panics'
            except Panics as e:
                return describe(env), str(e)
            except (Undef, NotHere, TypeError, IndexError, KeyError) as e:
                R.notes.append('%s: %r' % (I.root.name, e)) if len(R.notes) < 20 else None
    return None


def has_panic(v):
    if isinstance(v, Sym):
        return v.tag == 'panic' or any(has_panic(x) for x in v.args if isinstance(x, tuple))
    if isinstance(v, Agg):
        return any(has_panic(x) for x in v.fs)
    if isinstance(v, tuple):
        return any(has_panic(x) for x in v)
    if hasattr(v, 'd'):
        return any(has_panic(x) for x in v.d.values())
    return False


def run_c10(ctx, R):
    N = ctx.N
    rule = 'every index, subtraction, unwrap, expect, slice and panic! reachable from the entry point is excluded by the facts on its path'
    force = bool(os.environ.get('SA_FORCE'))
    progs = programs(ctx, R)
    try:
        FX.AXIOMS.append(bounds_of_assignments(N))
    except Missing:
        pass
    FX.AXIOMS.extend(ctx.lemmas)
    FX._memo.clear()
    refusals = set()
    done = {}
    entry = {b.id for b in roots(ctx)}
    beyond = beyond_panics(ctx)
    for b, I, outs in progs:
        sites = {}
        for e in I.log:
            if e['k'] != 'oblig':
                continue
            R.count('panic_sites_checked')
            if e['ok']:
                continue
            k = (e['fn'], e['kind'], e['span'])
            if e['cond'] is not FALSE and FX.prove(e['facts'], e['cond']) or FX.contradictory(tuple(e['facts'])):
                R.count('discharged_by_lemma')
                continue
            try:
                d = documented(ctx, N, b, e)
            except Missing:
                d = None
            if d is not None:
                refusals.add(d)
                continue
            sites.setdefault(k, e)
        for e in I.log:
            if e['k'] == 'construct' and e['adt'].split('::')[-1] in ('XForwards', 'XBackwards') and not any(
                    f in entry for f in e['stack'] if f != b.id):
                try:
                    if not direction_ok(N, b, e):
                        sites[(e['fn'], 'direction', e['span'])] = dict(e, kind='matching starts outside the line', cond=TRUE, detail='')
                except Missing:
                    pass
        for nm, sp in I.unknown.items():
            sites[(b.id, 'unmodelled', nm)] = {'kind': 'call of unmodelled ' + nm, 'fn': b.id, 'span': sp, 'facts': (), 'cond': TRUE, 'detail': ''}
        try:
            for t in same_line(ctx, I, outs, N):
                sites[(b.id, 'same line', '')] = {'kind': 'same line', 'fn': b.id, 'span': '', 'facts': (), 'cond': TRUE, 'detail': str(t)[:200]}
        except Missing:
            pass
        done.setdefault(b.id, (b, []))[1].append((I, outs, sites))
    for b, runs in done.values():
        bad = {k: e for I, outs, sites in runs for k, e in sites.items()}
        key = label(b)
        n = sum(1 for I, _, _ in runs for e in I.log if e['k'] == 'oblig')
        if not bad and not force:
            R.add(key, PROVED, site(b), rule, '%d sites, %d functions inlined' % (n, max(len(I.fn_seen) for I, _, _ in runs)))
            continue
        where = '; '.join('%s at %s in %s %s' % (e['kind'], e['span'], e['fn'].split('::')[-1], e['detail']) for e in bad.values())[:600]
        if all(not outs for _, outs, _ in runs):
            e = next(iter(bad.values()))
            R.add('%s.%s' % (key, e['detail'].split(' ')[0] or e['kind']), REFUTED, site(b), rule, 'every path panics: ' + where)
            continue
        sep = None
        for I, outs, sites in runs:
            if sites or force:
                sep = sep or panics_in_models(R, ctx, I, outs, beyond)
        if sep is not None:
            R.add(key, REFUTED, site(b), rule, '%s: panics in the model %s (%s)' % (where, sep[0], sep[1]))
        else:
            R.add(key, OPEN, site(b), rule, 'not excluded: ' + where)
    R.counts['documented_refusals'] = sorted(refusals)
    R.counts['entry_points'] = len(done)


# ------------------------------------------------------------------ C06
def lines_in(N, b):
    """the lines a function is given, as terms"""
    out = []
    line, sel = N.adt('LLLine'), N.adt('LLSelection')

    def strip(t):
        while t[0] in ('ref', 'adt') and (t[0] == 'ref' or t[1].split('::')[-1] in ('Rc', 'Arc')):
            t = t[2] if t[0] == 'ref' else t[2][0]
        return t
    for i in range(1, b.argc + 1):
        t = strip(b.locals[i])
        nm = next((n for n, q in b.names if q['l'] == i and not q['p']), 'arg%d' % i)
        v = p('self' if (i == 1 and nm == 'self') else 'arg%d' % i)
        if t[0] == 'adt' and t[1] == line:
            out.append(v)
        elif t[0] == 'adt' and t[1] == sel:
            out.append(N.F(v, 'LLSelection', 'll_line'))
    return out


def generic(ctx, b, ints):
    """models for an entry point no other check describes: selections of one line, matchers, texts and
    (where any number a caller passes must be answered) numbers"""
    N = ctx.N
    M = Mod(N)
    line, sel = N.adt('LLLine'), N.adt('LLSelection')
    kinds = []
    for i in range(1, b.argc + 1):
        t = b.locals[i]
        while t[0] in ('ref', 'adt') and (t[0] == 'ref' or t[1].split('::')[-1] in ('Rc', 'Arc')):
            t = t[2] if t[0] == 'ref' else t[2][0]
        nm = next((n for n, q in b.names if q['l'] == i and not q['p']), 'arg%d' % i)
        k = 'line' if t[:2] == ('adt', line) else 'sel' if t[:2] == ('adt', sel) else 'num' if t[1:] == ('usize',) else \
            'text' if t[0] == 'str' else 'm' if t[0] == 'param' else None
        if k is None or (k == 'num' and not ints):
            return None
        kinds.append((p('self' if i == 1 and nm == 'self' else 'arg%d' % i), k))
    if not any(k in ('line', 'sel') for _, k in kinds):
        return None

    def g():
        import random
        rnd = random.Random(9)
        for j in range(400):
            n = rnd.randrange(1, 6)
            ln = M.plain(n, j)
            ms = {}
            env = {}
            for v, k in kinds:
                a = rnd.randrange(n)
                if k == 'm':
                    m = Sym('matcher', (len(ms),))
                    ms[m] = M.matcher(rnd, n)
                env[v] = {'line': lambda: ln, 'sel': lambda: M.sel(ln, a, rnd.randrange(a, n)), 'num': lambda: rnd.randrange(0, n + 3),
                          'text': lambda: tuple(rnd.choice(['', 'x', 'if', ' ', '\u00e9'])), 'm': lambda: m}[k]()
            yield env, {'XMatch::go': M.go(ms)}
    return g


def entries_of(ctx, b, runs, ints):
    own = [r for r in ctx.reg if r[0].root.id == b.id]
    if own:
        return own
    g = generic(ctx, b, ints)
    return [(I, outs, g, None, '') for I, outs in runs] if g else []


def ntok(N, line):
    return length(N.F(line, 'LLLine', 'll_tokens'))


def direction_ok(N, b, e):
    """the direction starts inside the line"""
    adt = e['adt']
    i = e['ops'][N.idx(adt.split('::')[-1], 'from_idx')]
    ls = lines_in(N, b)
    return any(FX.prove(e['facts'], lt(i, ntok(N, l))) for l in ls)


def selection_ok(N, b, e):
    l, s, t = (e['ops'][N.idx('LLSelection', x)] for x in ('ll_line', 'start_idx', 'end_idx'))
    if not FX.prove(e['facts'], le(s, t)):
        return 'start <= end'
    if not FX.prove(e['facts'], lt(t, ntok(N, l))):
        return 'end < number of tokens'
    if l not in lines_in(N, b):
        return 'line %s is not the one given' % str(l)[:100]
    return None


def order_axiom(N, dn, line):
    """end points of a matcher tried in the given direction"""
    to = N.adt('ToIdx')

    def ax(t):
        if t.op == 'fld' and t.a[1] == to and t.a[0].op == 'fld' and t.a[0].a[1] == 'tuple' and t.a[0].a[0].op == 'elem':
            c = t.a[0].a[0].a[0]
            if c.op == 'call' and c.a[0].endswith('XMatch::go') and c.a[3] is p('arg2'):
                f = N.F(p('arg2'), dn, 'from_idx')
                return [le(f, t) if dn == 'XForwards' else le(t, f)]
    return ax


def results(I, v, facts):
    """(facts, item) of every element of a collection or option valued term"""
    if v.op == 'agg' and v.a[0] == OPTION:
        return [(facts, v.a[2])] if v.a[1] == 'Some' else []
    if v.op == 'seq' or v is EMPTY:
        return [(tuple(facts) + tuple(fs), x) for _, _, fs, x in I.leaves(I.open_nodes(nodes_of(v)))]
    return [(tuple(facts) + (le(ONE, length(v)),), elem(v, ZERO))] if v.op in ('call', 'vals') else None


def run_c06(ctx, R):
    N = ctx.N
    M = Mod(N)
    progs = programs(ctx, R)
    rule = 'every selection built here covers at least one token, ends inside its line and keeps the line it was given'
    force = bool(os.environ.get('SA_FORCE'))
    sel = N.adt('LLSelection')
    done = {}
    entry = {b.id for b in roots(ctx)}
    for b, I, outs in progs:
        for e in I.log:
            if e['k'] != 'construct':
                continue
            nm = e['adt'].split('::')[-1]
            # inside another entry point: judged there, for every selection it can be given; a private
            # helper is judged with its caller's facts
            if any(f in entry for f in e['stack'] if f != b.id):
                continue
            if nm == 'LLSelection':
                why = selection_ok(N, b, e)
                R.count('selections_constructed')
            elif nm in ('XForwards', 'XBackwards'):
                why = None if direction_ok(N, b, e) else 'starting token inside the line'
                R.count('directions_constructed')
            else:
                continue
            d = done.setdefault(b.id, (b, [], []))
            d[1].append(e)
            if why:
                d[2].append('%s at %s in %s: %s' % (nm, e['span'], e['fn'].split('::')[-1], why))
    for b, es, bad in done.values():
        key = label(b)
        if not bad and not force:
            R.add(key, PROVED, site(b), rule, '%d constructions' % len(es))
            continue
        sep = spans_in_models(R, ctx, M, b, [(I, outs) for c, I, outs in progs if c.id == b.id])
        if sep is not None:
            R.add(key, REFUTED, site(b), rule, '%s; in the model %s: %s' % ('; '.join(bad)[:500], sep[0], sep[1]))
        else:
            R.add(key, OPEN, site(b), rule, 'not shown: ' + '; '.join(bad)[:600])
    # selections are built nowhere else
    made = {e['fn'] for _, es, _ in done.values() for e in es}
    for b in ctx.P.bodies.values():
        if b.kind in ('fn', 'closure') and b.id not in made and not derived(b):
            n = [st for bl in b.blocks for st in bl.get('st', ()) if builds(st, sel)]
            if n:
                R.add('built:' + b.id, OPEN, site(b), 'selections are built only in analysed functions', 'not reached from an analysed entry point')
    # where matches end
    rule = 'a match ends inside the line, at or beyond its starting token in the direction of travel'
    seen = set()
    for I, outs, models, pre, pid in ctx.reg:
        b = I.root
        tr = (b.impl_trait or '').split('::')[-1].split('<')[0]
        if tr not in ('XMatch', 'XDirection') or b.name == 'after' or (id(I) in seen):
            continue
        seen.add(id(I))
        dn = direction_of(N, I, b, pre)
        if dn is None:
            continue
        key = '%s.%s.end' % (label(b), dn)

        def go(b=b, I=I, outs=outs, models=models, pre=pre, dn=dn, key=key):
            me = p('self') if tr == 'XDirection' else p('arg2')
            line = lines_in(N, b)[0]
            f = N.F(me, dn, 'from_idx')
            ax = order_axiom(N, dn, line)
            FX.AXIOMS.append(ax)
            FX._memo.clear()
            bad = None
            n = 0
            try:
                for s, v in outs:
                    rs = results(I, v, s.facts)
                    if rs is None:
                        bad = 'result %s' % str(v)[:100]
                        continue
                    for fs, x in rs:
                        t = fld(fld(x, 'tuple', 1), N.adt('ToIdx'), 0)
                        n += 1
                        g = lt(t, ntok(N, line))
                        o = le(f, t) if dn == 'XForwards' else le(t, f)
                        if not FX.prove(fs, g) or not FX.prove(fs, o):
                            bad = 'end %s' % str(t)[:200]
            finally:
                FX.AXIOMS.remove(ax)
                FX._memo.clear()
            if bad is None and not force:
                return R.add(key, PROVED, site(b), rule, '%d kinds of results' % n)
            sep = ends_in_models(R, ctx, M, I, outs, models, pre, dn, me, line)
            if sep is not None:
                return R.add(key, REFUTED, site(b), rule, '%s; in the model %s: %s' % (bad, sep[0], sep[1]))
            return R.add(key, OPEN, site(b), rule, 'not shown: %s' % bad)
        R.guard(key, go, site(b), rule)
    # two different lines are refused
    b = R.anchor('split_with', 'split_with', 'LLSelection')
    if b is not None:
        def refuse():
            I, outs = ctx.analyse(b)
            r = 'selections of two different lines are refused'
            l1, l2 = N.F(p('self'), 'LLSelection', 'll_line'), N.F(p('arg2'), 'LLSelection', 'll_line')
            bad = [s for s, v in outs if not FX.contradictory(tuple(s.facts) + (neg(eq(l1, l2)),))]
            if not bad and not force:
                return R.add('split_with.lines', PROVED, site(b), r, '%d outcomes' % len(outs))
            for n in (1, 2):
                env = {p('self'): M.sel(M.line(['a'] * n), 0, n - 1), p('arg2'): M.sel(M.line(['b'] * n), 0, 0)}
                ev = Ev(I, env, {}, 0)
                try:
                    if ev.outcome(outs) is not None:
                        return R.add('split_with.lines', REFUTED, site(b), r, 'answers for two different lines: %s' % describe(env))
                except (Undef, NotHere):
                    pass
            return R.add('split_with.lines', OPEN, site(b), r, 'not shown')
        R.guard('split_with.lines', refuse, site(b))


def derived(b):
    return b.name in ('clone', 'fmt', 'eq')


def builds(x, adt):
    if isinstance(x, (list, tuple)):
        if len(x) >= 4 and x[0] == 'agg' and x[1] == 'adt' and x[3] == adt:
            return True
        return any(builds(y, adt) for y in x if isinstance(y, (list, tuple, dict)))
    if isinstance(x, dict):
        return any(builds(y, adt) for y in x.values() if isinstance(y, (list, tuple, dict)))
    return False


def direction_of(N, I, b, pre):
    for dn in ('XForwards', 'XBackwards'):
        a = N.adt(dn)
        if b.self_ty and b.self_ty[0] == 'adt' and b.self_ty[1] == a:
            return dn
        if any(t.op == 'fld' and t.a[1] == a for f in pre for t in subterms(f, set())):
            return dn
    return None


def walk_values(v, adt, out):
    if isinstance(v, Agg):
        if v.adt == adt:
            out.append(v)
        for x in v.fs:
            walk_values(x, adt, out)
    elif isinstance(v, tuple):
        for x in v:
            walk_values(x, adt, out)


def in_models(R, ctx, entries, judge, wrap=None):
    for I, outs, models, pre, pid in entries:
        t0 = time.time()
        for env, funcs in models():
            if R.late(t0, 60):
                break
            seen = []
            ev = Ev(I, env, {k: (wrap(k, f, seen) if wrap else f) for k, f in funcs.items()}, 0)
            try:
                if pre and not ev.guard(pre):
                    continue
                o = ev.outcome(outs)
                R.models += 1
                if o is None:
                    continue
                v = ev.ev(o[1])
                w = judge(env, ev, v)
                for s in seen:
                    w = w or judge(env, ev, s)
                if w is not None:
                    return describe(env), w
            except (Undef, NotHere, TypeError, IndexError, KeyError):
                pass
    return None


def spans_in_models(R, ctx, M, b, runs):
    N = ctx.N
    sel, line = N.adt('LLSelection'), N.adt('LLLine')

    def judge(env, ev, v):
        given = []
        for x in env.values():
            walk_values(x, line, given)
        ss = []
        walk_values(v, sel, ss)
        for s in ss:
            l, a, z = (M.f(s, 'LLSelection', x) for x in ('ll_line', 'start_idx', 'end_idx'))
            n = len(M.f(l, 'LLLine', 'll_tokens'))
            if not 0 <= a <= z < n:
                return 'selection %d..=%d of a line of %d tokens' % (a, z, n)
            if given and not any(l is g or l == g for g in given):
                return 'selection of another line'
        return None

    def wrap(k, f, seen):
        if k.split('::')[-1] == 'go' and 'Resolver' in k:
            def g(ev, ta, *a):
                seen.append(tuple(a))
                return f(ev, ta, *a)
            return g
        return f
    return in_models(R, ctx, entries_of(ctx, b, runs, True), judge, wrap)


def ends_in_models(R, ctx, M, I, outs, models, pre, dn, me, line):
    N = ctx.N
    to = N.adt('ToIdx')

    def judge(env, ev, v):
        i = M.f(env[me], dn, 'from_idx')
        n = len(M.f(ev.ev(line), 'LLLine', 'll_tokens'))
        ts = []
        walk_values(v, to, ts)
        for t in ts:
            k = t.fs[0]
            if not 0 <= k < n or (k < i if dn == 'XForwards' else k > i):
                return 'a match from token %d %s ends at %d of %d tokens' % (i, dn[1:].lower(), k, n)
        return None
    return in_models(R, ctx, [(I, outs, models, pre, '')], judge)


META = {
    'C06': {'run': run_c06, 'floor': 25,
            'explanation': 'Every construction of a selection or of a matching direction in the program is an obligation over the path facts: '
                           'start <= end < number of tokens of the line it was given; every result of a matcher or combinator ends inside the '
                           'line on the right side of its start, which closes the induction over chains of operations.'},
    'C10': {'run': run_c10, 'floor': 80,
            'explanation': 'Every potentially panicking construct (bounds checks, checked subtraction, unwrap/expect, slicing, explicit panics, map '
                           'indexing) in every function reachable from the public API is an obligation: its failure condition must contradict the '
                           'path facts, the type invariants and the loop invariants, or be one of the documented refusals.'},
}
