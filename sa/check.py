"""Obligations, verdicts, evidence and the command line."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)

import mir
import interp
import inv
import compare
import fold
import facts as FX
from terms import *
from names import Names, Missing, p
from evalt import Ev, Undef, NotHere, Panics, canon
import models as MODELS
from models import harvest

PROVED, REFUTED, OPEN = 'proved', 'refuted', 'open'


class Budget(Exception):
    pass


class Ctx:
    """the analysed program"""

    def __init__(self, tier='quick'):
        self.P = mir.load()
        self.N = inv.install(self.P)
        self.tier = tier
        self.cache = {}
        self.fn_seen = set()
        self.reported_unsupported = {}
        self.reg = None            # (analysis, models, pre) of every check, when collecting
        self.lemmas = []

    def analyse(self, body, opaque=None, tsubst=None, pre=(), watch=(), key=None, args=None, mem=None, panics=False):
        k = (body.id, key, repr(tsubst), tuple(pre), panics)
        if k in self.cache:
            r = self.cache[k]
            if isinstance(r, Exception):
                raise r
            return r
        I = interp.Interp(self.P, opaque=opaque)
        I.construct_watch |= set(watch)
        I.panics = panics
        I.root = body
        I.rerun = lambda: self.analyse(body, opaque, tsubst, pre, watch, key, args, mem, True)
        st = interp.St(dict(mem or {}), tuple(f for f in pre if f is not TRUE))
        I.deadline = time.time() + (240 if self.tier == 'quick' else 900)
        try:
            outs = I.analyse(body, args=args, tsubst=tsubst, st=st)
        except (interp.Unsupported, interp.Impure, RecursionError) as e:
            self.cache[k] = interp.Unsupported(str(e)[:200])
            self.fn_seen |= I.fn_seen
            raise self.cache[k]
        self.fn_seen |= I.fn_seen
        self.cache[k] = (I, outs)
        return I, outs


class Report:
    def __init__(self, pid, ctx):
        self.pid = pid
        self.ctx = ctx
        self.obs = []          # (key, status, where, rule, detail)
        self.t0 = time.time()
        self.models = 0
        self.notes = []
        self.counts = {}
        self.lemmas = []

    def add(self, key, status, where='', rule='', detail=''):
        self.obs.append({'key': key, 'status': status, 'where': where, 'rule': rule, 'detail': str(detail)[:1500]})
        return status

    def reg(self, I, outs, models, pre):
        if self.ctx.reg is not None and models is not None:
            try:
                harvest(I, outs)
                ms = list(models())            # now: models may refer to variables of the loop they are made in
            except (Missing, Undef, NotHere):
                ms = []
            self.ctx.reg.append((I, outs, lambda: ms, pre, self.pid))
            return True
        return False

    def late(self, t0, quick, thorough=300):
        """the time for one obligation, or for all, is used up"""
        q = self.ctx.tier == 'quick'
        return time.time() - t0 > (quick if q else thorough) or time.time() - self.t0 > (540 if q else 3000)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def guard(self, key, f, where='', rule=''):
        """run f(); constructs outside the analysed fragment leave the obligation open"""
        try:
            return f()
        except Missing as e:
            return self.add(key, OPEN, where, rule, 'representation changed: %s' % e)
        except (interp.Unsupported, interp.Impure) as e:
            return self.add(key, OPEN, where, rule, 'outside the analysed fragment: %s' % e)
        except RecursionError:
            return self.add(key, OPEN, where, rule, 'term too deep')
        except (Undef, NotHere) as e:
            return self.add(key, OPEN, where, rule, 'no model: %s' % e)
        except Exception as e:                      # a gap of the analysis is never an alarm
            self.notes.append(traceback.format_exc()[-600:])
            if os.environ.get('SA_TRACE'):
                traceback.print_exc()
            return self.add(key, OPEN, where, rule, 'analysis gap: %r' % (e,))

    def anchor(self, key, name, self_ty=None, trait=None, crate=None, n=1, private=False):
        """public function that must exist"""
        bs = self.ctx.N.fns(name, self_ty, trait, crate)
        if len(bs) < n and private:
            self.add(key, OPEN, '', 'private helper', '%s%s not found' % (self_ty + '::' if self_ty else '', name))
            return None
        if len(bs) < n:
            self.add(key + '.anchor', REFUTED, '', 'the public item must exist',
                     'public item %s%s not found (%d of %d)' % (self_ty + '::' if self_ty else '', name, len(bs), n))
            return None
        return bs[0] if n == 1 else bs


def site(b):
    return '%s (%s)' % (b.id, getattr(b, 'span', '') or '')


def outcome_spec(R, key, body, rows, rule, models=None, opaque=None, pre=(), tsubst=None, akey=None, mem=None, obsmem=None,
                 require=None, args=None):
    """obligation: the function's summary equals the specification rows.

    rows(I) -> [(conditions, value[, {location: value}])] in terms of the parameters;
    models() -> iterable of (env, funcs) used to separate two summaries that could not be
    proved equal."""
    def go():
        I, outs = R.ctx.analyse(body, opaque=opaque, pre=pre, tsubst=tsubst, key=akey, args=args, mem=mem)
        R.count('functions_summarised')
        R.count('outcomes', len(outs))
        R.reg(I, outs, models, pre)
        rs = rows(I)
        u = uncovered(outs, rs)
        bad = (interp.St({}, ()), UNIT, u, 'no normal outcome') if u is not None else compare.prove_outs(outs, rs)
        if os.environ.get('SA_FORCE'):
            bad = bad or (interp.St({}, ()), UNIT, ((), UNIT), 'forced')
        if bad is None:
            return R.add(key, PROVED, site(body), rule, '%d outcomes, %d rows' % (len(outs), len(rs)))
        sep = separate(R, I, outs, rs, models, pre)
        s, v, row, what = bad
        if sep is not None:
            return R.add(key, REFUTED, site(body), rule,
                         'summary differs from the specification in the model %s: %s' % (sep[0], sep[1]))
        return R.add(key, OPEN, site(body), rule, 'not proved equal (%s): %s under %s; expected %s' % (
            what, str(v)[:300], [str(f)[:80] for f in s.facts][:8], str(row[1])[:300]))
    return R.guard(key, go, site(body), rule)


def parts_spec(R, key, body, rows, rule, models=None, opaque=None, pre=(), tsubst=None, akey=None, mem=None, args=None,
               inline=None):
    """as outcome_spec, but a row lists checks on parts of the outcome:
    ('eq', get, term) or ('fold', [get, ..], Fold), get(state, value) -> term.
    rows(I, outs) -> list of alternative row lists (one of them has to be proved)"""
    def go():
        I, outs = R.ctx.analyse(body, opaque=opaque, pre=pre, tsubst=tsubst, key=akey, args=args, mem=mem)
        R.count('functions_summarised')
        R.count('outcomes', len(outs))
        R.reg(I, outs, models, pre)
        alts = rows(I, outs)
        bad = None
        for rs in alts:
            b1 = prove_parts(R, I, outs, rs)
            bad = b1 if bad is None or len(str(b1)) > len(bad) else bad
            if os.environ.get('SA_WHY'):
                print('WHY', key, b1)
            if b1 is None and not os.environ.get('SA_FORCE'):
                return R.add(key, PROVED, site(body), rule, '%d outcomes, %d rows' % (len(outs), len(rs)))
        sep = separate_parts(R, I, outs, alts[0], models, pre)
        if sep is not None:
            return R.add(key, REFUTED, site(body), rule,
                         'summary differs from the specification in the model %s: %s' % (sep[0], sep[1]))
        return R.add(key, OPEN, site(body), rule, 'not proved: %s' % bad)
    return R.guard(key, go, site(body), rule)


def uncovered(outs, rows):
    """a specification row that no outcome is compatible with: the function does not return there"""
    for r in rows:
        cs = tuple(c for c in r[0] if c is not TRUE)
        if FALSE in cs or FX.contradictory(cs):
            continue
        if all(FX.contradictory(tuple(s.facts) + cs) for s, v in outs):
            return r
    return None


def prove_parts(R, I, outs, rs):
    u = uncovered(outs, rs)
    if u is not None:
        return 'no normal outcome under %s' % [str(c)[:80] for c in u[0]]
    for s, v in outs:
        for conds, checks in rs:
            fs = tuple(s.facts) + tuple(c for c in conds if c is not TRUE)
            if any(c is FALSE for c in conds) or FX.contradictory(fs):
                continue
            env = {}
            for c in checks:
                if c[0] == 'eq':
                    t = c[1](s, v)
                    w = c[2](env) if callable(c[2]) else c[2]
                    if not compare.equal(fs, t, w):
                        return '%s is not %s' % (str(t)[:500], str(w)[:500])
                elif c[0] == 'lemma':
                    axioms = c[1](env)
                    FX.AXIOMS.append(axioms)
                    FX._memo.clear()
                    R.lemmas.append(axioms)
                else:
                    ts = [g(s, v) if g else None for g in c[1]]
                    w = fold.prove(R, I, fs, ts, c[2] if isinstance(c[2], fold.Fold) else c[2](env))
                    if w is not None:
                        return w
                    if len(c) > 3:
                        env.update(zip(c[3], ts))
    return None


def separate_parts(R, I, outs, rs, models, pre=()):
    if models is None or R.ctx.reg is not None:
        return None
    t0 = time.time()
    undef, n = None, 0
    harvest(I, outs)
    for env, funcs in models():
        if R.late(t0, 60):
            break
        ev = Ev(I, env, funcs, 0)
        try:
            if pre and not ev.guard(pre):
                continue
            o = ev.outcome(outs)
            R.models += 1
            n += 1
            row = next((r for r in rs if ev.guard(r[0])), None)
            if row is None:
                continue
            if o is None:
                return (describe(env), 'no normal outcome (panics or does not return)')
            s, v = o
            names = {}
            for c in row[1]:
                ev.memo = {}
                if c[0] == 'lemma':
                    continue
                if c[0] == 'eq':
                    pairs = [(c[1](s, v), canon(ev.ev(c[2](names) if callable(c[2]) else c[2])))]
                else:
                    e2 = Ev(I, dict(env), funcs, 0)
                    e2.env.update({k: x for k, x in ev.env.items() if k.op == 'ubv' and k.a[1] == 'let'})
                    vs = fold.value(e2, c[2] if isinstance(c[2], fold.Fold) else c[2](names))
                    pairs = [(g(s, v), canon(w)) for g, w in zip(c[1], vs) if g]
                    if len(c) > 3:
                        for nm, w in zip(c[3], vs):
                            names[nm] = new_bv('let')
                            ev.env[names[nm]] = w
                for t, w in pairs:
                    got = canon(ev.ev(t))
                    if got != w:
                        return (describe(env), 'got %s, specified %s' % diff(got, w))
        except Panics as e:
            return (describe(env), 'panics: %s' % e)
        except (Undef, NotHere, TypeError, IndexError, KeyError) as e:
            undef = repr(e)
            if os.environ.get('SA_TRACE'):
                import traceback; traceback.print_exc(limit=-3)
    if undef:
        R.notes.append('%d models, last without value: %s' % (n, undef))
    return None


def refute(R, I, outs, models, oracle, pre=()):
    """a model in which the summary's value is not what oracle(env, ev, state, value) accepts"""
    if R.reg(I, outs, models, pre):
        return None
    t0 = time.time()
    undef, n = None, 0
    harvest(I, outs)
    for env, funcs in models():
        if R.late(t0, 60):
            break
        ev = Ev(I, env, funcs, 0)
        try:
            if pre and not ev.guard(pre):
                continue
            o = ev.outcome(outs)
            R.models += 1
            n += 1
            if o is None:
                return (describe(env), 'no normal outcome (panics or does not return)')
            ev.memo = {}
            w = oracle(env, ev, *o)
            if w is not None:
                return (describe(env), w)
        except Panics as e:
            return (describe(env), 'panics: %s' % e)
        except (Undef, NotHere, TypeError, IndexError, KeyError) as e:
            undef = repr(e)
            if os.environ.get('SA_TRACE'):
                import traceback; traceback.print_exc(limit=-3)
    if undef:
        R.notes.append('%d models, last without value: %s' % (n, undef))
    return None


def conclude(R, key, body, rule, why, I, outs, models, oracle, pre=(), detail='', deps=False):
    """why: None when proved; otherwise try to separate, else leave open.
    deps: the argument uses the specification of the selection operations (C07..C09); where one of
    them is not proved, their own summaries take its place"""
    linked = None
    if deps and R.ctx.reg is None:
        import link
        bad = link.unproved(R.ctx)
        if bad or os.environ.get('SA_LINK'):
            why = why or 'rests on %s' % ', '.join(bad[:4])
            link.widen(R.ctx, I, outs)
            linked = lambda: ((env, link.funcs(R.ctx, fs)) for env, fs in models())
    if os.environ.get('SA_FORCE'):           # development: exercise the separating models on a correct tree
        why = why or 'forced'
    if os.environ.get('SA_WHY') and why:
        print('WHY', key, why)
    R.reg(I, outs, models, pre)
    if why is None:
        return R.add(key, PROVED, site(body), rule, detail)
    sep = refute(R, I, outs, models, oracle, pre) if models else None
    if sep is None and linked and models:
        sep = refute(R, I, outs, linked, oracle, pre)
    if sep is not None:
        return R.add(key, REFUTED, site(body), rule, 'summary differs from the specification in the model %s: %s' % sep)
    return R.add(key, OPEN, site(body), rule, 'not proved: %s' % why)


def diff(a, b):
    """the first differing parts"""
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a != b:
        i = next(i for i in range(len(a)) if a[i] != b[i])
        a, b = a[i], b[i]
    return short_(a), short_(b)


def row_value(ev, rows):
    for r in rows:
        if ev.guard([c for c in r[0]]):
            val = canon(ev.ev(r[1])) if r[1] is not None else None
            mems = {k: canon(ev.ev(x)) for k, x in r[2].items()} if len(r) > 2 else {}
            return val, mems
    return None


def oracle_rows(f):
    """a specification given as a function of the model"""
    return f


def separate(R, I, outs, rows, models, pre=()):
    if models is None or R.ctx.reg is not None:
        return None
    t0 = time.time()
    undef = None
    n = 0
    harvest(I, outs)
    for env, funcs in models():
        if R.late(t0, 60):
            break
        for seed in range(2):
            ev = Ev(I, env, funcs, seed)
            try:
                if pre and not ev.guard(pre):
                    break
                want = rows(ev) if callable(rows) else row_value(ev, rows)
                if want is None:
                    break
                o = ev.outcome(outs)
                R.models += 1
                n += 1
                if o is None:
                    return (describe(env), 'no normal outcome (panics or does not return), specified %s' % short_(want[0]))
                s, v = o
                if want[0] is not None:
                    got = canon(ev.ev(v))
                    if got != want[0]:
                        return (describe(env), 'got %s, specified %s' % (short_(got), short_(want[0])))
                for k, x in want[1].items():
                    got = canon(ev.ev(s.mem[('h', k)]))
                    if got != x:
                        return (describe(env), '%s becomes %s, specified %s' % (k, short_(got), short_(x)))
            except Panics as e:
                return (describe(env), 'panics: %s' % e)
            except (Undef, NotHere, TypeError, IndexError, KeyError) as e:
                undef = repr(e)
            if os.environ.get('SA_TRACE'):
                import traceback; traceback.print_exc(limit=-3)
    if undef:
        R.notes.append('%d models, last without value: %s' % (n, undef))
    return None


def short_(x):
    import re
    return re.sub(r"[a-z_]+(::[a-z_]+)*::", '', repr(x))[:400]


def describe(env):
    return '{%s}' % ', '.join('%s=%s' % (k, short_(canon(v))[:300]) for k, v in env.items())


# ------------------------------------------------------------------ running
def known(pid):
    out = {}
    f = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                k, _, d = rest.partition(' :: ')
                out[k.replace('key=', '').strip()] = d.strip()
    return out


def finish(R, tier, meta):
    kn = known(R.pid)
    bad, opened, proved, knownhits = [], [], [], []
    for o in R.obs:
        if o['status'] == PROVED:
            proved.append(o)
        elif o['status'] == OPEN:
            opened.append(o)
        elif o['key'] in kn:
            knownhits.append(o)
        else:
            bad.append(o)
    floor = meta.get('floor', 1)
    if len(R.obs) < floor:
        bad.append({'key': 'floor', 'where': '', 'rule': 'instance floor', 'status': REFUTED,
                    'detail': 'only %d obligations generated, at least %d expected' % (len(R.obs), floor)})
    for o in knownhits:
        print('KNOWN-FINDING: property=%s %s %s' % (R.pid, o['key'], kn[o['key']]))
    write = not os.environ.get('SA_NOWRITE')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {
        'property': R.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': meta.get('level', 'other'),
        'coverage': {
            'explanation': meta['explanation'],
            'obligations': len(R.obs), 'discharged': len(proved), 'open': len(opened),
            'known_findings': len(knownhits), 'violations': len(bad),
            'functions_analysed': len(R.ctx.fn_seen),
            'bodies_in_program': len(R.ctx.P.bodies),
            'entailment_queries': FX.STATS['queries'], 'entailments_proved': FX.STATS['proved'],
            'separating_models_tried': R.models,
            'counts': R.counts,
            'samples': [{k: o[k] for k in ('key', 'where', 'rule', 'detail')} for o in proved[:12]],
            'open_obligations': [{k: o[k] for k in ('key', 'where', 'detail')} for o in opened[:20]],
            'functions': sorted(R.ctx.fn_seen)[:200],
            'checker_cmd': 'python3 sa/run.py %s' % R.pid,
            'trusted_base': 'rustc MIR construction, sa/stdmodel.py (models of std), sa/ (abstract interpreter)',
            'notes': R.notes[:20],
        },
        'wall_s': round(time.time() - R.t0, 2),
    }
    if write:
        json.dump(ev, open(os.path.join(ROOT, 'evidence', R.pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d proved, %d open, %d known findings, %d violations (%.1fs, %d functions, %d models)' % (
        R.pid, len(R.obs), len(proved), len(opened), len(knownhits), len(bad), time.time() - R.t0, len(R.ctx.fn_seen), R.models))
    if os.environ.get('SA_WHY'):
        print('NOTES', *R.notes, sep='\n   ')
    for o in opened:
        print('  OPEN %s at %s: %s' % (o['key'], o['where'], o['detail'][:300]))
    if bad:
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s.txt' % R.pid)
        with open(f if write else os.devnull, 'w') as h:
            for o in bad:
                h.write('%(key)s\n  at   %(where)s\n  rule %(rule)s\n  %(detail)s\n\n' % o)
            h.write('re-run: python3 sa/run.py %s\n' % R.pid)
        for o in bad:
            print('  %s\n    at   %s\n    rule %s\n    %s' % (o['key'], o['where'], o['rule'], o['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (R.pid, f))
        return 1
    return 0
