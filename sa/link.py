"""The selection operations as the program has them, over model values.

The resolvers are judged in terms of the specification of the selection operations and matchers
(C07, C08, C09).  Where one of those does not hold, that argument is void: the summary of the
resolver is then evaluated with the summaries of the operations it calls instead."""
import sem
from terms import *
from check import *
from evalt import Agg

DEPS = ('C07', 'C08', 'C09')


def unproved(ctx):
    """obligations of C07..C09 that are not proved on this tree"""
    if getattr(ctx, 'dep', None) is None:
        import props
        old, ctx.reg = ctx.reg, []
        try:
            bad = []
            hints = []
            for pid in DEPS:
                R = Report(pid, ctx)
                R.guard('check', lambda: props.META[pid]['run'](ctx, R))
                bad += ['%s %s' % (pid, o['key']) for o in R.obs if o['status'] != PROVED]
                if len(R.obs) < props.META[pid]['floor']:
                    bad.append('%s has too few obligations' % pid)
            hints = [harvest(r[0], r[1]) for r in ctx.reg]
        finally:
            ctx.reg = old
        ctx.dep = bad
        ctx.dep_hint = MODELS.Hint(*[{x for h in hints for x in getattr(h, a)} for a in ('ints', 'chars', 'strs')])
    return ctx.dep


def widen(ctx, I, outs):
    """models are extended by the constants of the operations too"""
    h, d = harvest(I, outs), ctx.dep_hint
    I.hint = MODELS.Hint(*[set(getattr(h, a)) | set(getattr(d, a)) for a in ('ints', 'chars', 'strs')])


def funcs(ctx, base):
    """base, with the operations of LLSelection and the tuple constructors replaced by their summaries"""
    N = ctx.N
    out = dict(base)

    def op(name):
        def g(ev, targs, *args):
            bs = N.fns(name, 'LLSelection')
            if len(bs) != 1:
                raise Undef('operation ' + name)
            b = bs[0]
            ts = {}
            if targs:
                gs = [x for x in b.generics if not x.startswith("'")]
                ts = {gs[-1]: targs[-1]} if gs else {}
            try:
                I, outs = ctx.analyse(b, tsubst=ts or None, key=('link', name, repr(sorted(ts.items(), key=repr))))
            except (interp.Unsupported, interp.Impure) as e:
                raise Undef('operation %s: %s' % (name, e))
            env = dict(zip([p('arg1') if name == 'from_line' else p('self'), p('arg2')], args))
            e2 = Ev(I, env, dict(out), ev.seed)
            e2.budget = ev.budget
            try:
                o = e2.outcome(outs)
                if o is None:
                    raise Panics('%s has no normal outcome' % name)
                e2.memo = {}
                return e2.ev(o[1])
            finally:
                ev.budget = e2.budget
        return g
    for name in sem.OPS:
        out['LLSelection::' + name] = op(name)

    def tupled(names):
        def g(ev, targs, t):
            if isinstance(t, Agg) and t.adt == 'tuple' and len(t.fs) in (2, 3):
                return Agg(N.adt(names[len(t.fs) - 2]), None, t.fs)
            return t
        return g
    out['All::into_all'] = tupled(('All2', 'All3'))
    out['AnyOf::into_any'] = tupled(('AnyOf2Matcher', 'AnyOf3Matcher'))
    out['Seq::into_seq'] = tupled(('Seq2', 'Seq3'))
    return out
