"""Transfer functions of the standard library (and of the few external crates)
calls that occur in, or are likely to be introduced into, the analysed code."""
from terms import *
from facts import prove, decide

VEC = 'alloc::vec::Vec'
STRING = 'alloc::string::String'
GLOBAL = ('adt', 'alloc::alloc::Global', ())
MODELS = {}


def model(*keys):
    def d(f):
        for k in keys:
            fam, names = k.rsplit('.', 1)
            for nm in names.split('|'):
                for fm in fam.split('|'):
                    MODELS[(fm, nm)] = f
        return f
    return d


def lib():
    import interp
    return interp


# ------------------------------------------------------------------ types
def strip(t):
    while isinstance(t, tuple) and t:
        if t[0] == 'ref':
            t = t[2]
        elif t[0] == 'adt' and t[1].split('::')[-1] in ('Box', 'Rc', 'Arc') and t[2]:
            t = t[2][0]
        else:
            break
    return t


def base(t):
    t = strip(t) if t else None
    if not t:
        return None
    if t[0] == 'adt':
        return t[1].split('::')[-1]
    return t[0]


def aty(C, i):
    if C.atys and i < len(C.atys):
        return C.atys[i]
    return None


def vecof(t):
    """T of Vec<T>"""
    if t and t[0] == 'adt' and t[1] == VEC:
        return t[2][0]
    return None


def same_vec(a, b):
    x, y = vecof(a), vecof(b)
    return x is not None and x == y or a == b


def as_dyn(v, ty):
    if v.op == 'dyn' and same_vec(v.a[0], ty):
        return v.a[1]
    T_ = vecof(ty)
    if T_ is not None:
        if v.op == 'mgetd' and v.a[1].op == 'tyid' and v.a[1].a[0] == T_:
            return mk('vals', v.a[0], T_)
        if v.op == 'mgetor' and v.a[1].op == 'tyid' and v.a[1].a[0] == T_ and v.a[2].op == 'dyn' \
                and same_vec(v.a[2].a[0], ty) and v.a[2].a[1] is EMPTY:
            return mk('vals', v.a[0], T_)
        if v.op == 'mget' and v.a[1].op == 'tyid' and v.a[1].a[0] == T_:
            return mk('vals', v.a[0], T_)
    return mk('asdyn', ty, v)


def default_of(I, t):
    b = base(t) if t else None
    if b in ('Vec', 'String', 'VecDeque'):
        return EMPTY
    if b in ('HashMap', 'BTreeMap'):
        return mk('mempty')
    if b == 'Option':
        return NONE
    if b == 'int':
        return ZERO
    if b == 'bool':
        return FALSE
    if b == 'str':
        return EMPTY
    if b == 'PhantomData':
        return mk('zst', 'core::marker::PhantomData')
    if t and t[0] == 'tuple' and not t[1]:
        return UNIT
    return None


# ------------------------------------------------------------------ helpers
def S(v):
    """payload of Some"""
    return vf(v, OPTION, 'Some', 0)


def opt_cases(I, st, v):
    return I.is_some(st, v)


def res_cases(I, st, v):
    return I.branch(st, isv(v, RESULT, 'Ok'))


def ok_of(v):
    return vf(v, RESULT, 'Ok', 0)


def err_of(v):
    return vf(v, RESULT, 'Err', 0)


def call(I, st, fr, f, args, C):
    return I.call_value(st, fr, f, args, C.span)


def rev_nodes(nodes):
    out = []
    for n in reversed(norm_nodes(nodes)):
        if n.op == 'item':
            out.append(n)
        elif n.op == 'spl':
            b = new_bv('k')
            out.extend(close_for(b, ZERO, length(n.a[0]), True, (item(elem(n.a[0], b)),)))
        elif n.op == 'for':
            b, lo, hi, rev, body = open_for(n)
            out.extend(close_for(b, lo, hi, not rev, rev_nodes(body)))
        elif n.op == 'alt':
            out.extend(alt_nodes([(g, rev_nodes(ns)) for g, ns in n.a]))
        else:
            raise lib().Unsupported('reversal of ' + n.op)
    return norm_nodes(out)


def rd(I, st, v):
    return I.rd(st, v)


# ------------------------------------------------------------------ identities
@model('Deref.deref', 'DerefMut.deref_mut', 'Clone.clone', 'AsRef.as_ref', 'AsMut.as_mut', 'Borrow.borrow', 'BorrowMut.borrow_mut',
       'ToOwned.to_owned', 'Vec|String|slice|str.as_slice|as_str|as_mut_slice|to_vec|into_vec|into_boxed_str|into_string|into_boxed_slice',
       'hint.must_use|black_box', 'Box|Rc|Arc.new|from|clone|as_ref', 'Cow.into_owned', 'convert.identity', 'array.as_slice',
       'Option|Result.as_ref|as_deref|cloned|copied', 'Pin.new', 'ManuallyDrop.new|into_inner', 'MaybeUninit.assume_init')
def m_ident(I, st, fr, C):
    v = C.args[0]
    if v.op == 'mref' and C.fam in ('Clone', 'ToOwned', 'Vec', 'slice', 'String', 'str') and C.name in ('clone', 'to_owned', 'to_vec', 'as_str', 'as_slice'):
        v = rd(I, st, v)
    if v.op == 'mref' and C.fam in ('Option', 'Result'):
        v = rd(I, st, v)
    if v.op == 'mref' and C.name in ('deref', 'as_ref', 'borrow'):
        v = rd(I, st, v)
    return [(st, v)]


@model('Drop.drop', 'mem.drop|forget', 'Vec|String|HashMap.reserve|shrink_to_fit|reserve_exact')
def m_unit(I, st, fr, C):
    return [(st, UNIT)]


@model('Box.new_uninit')
def m_new_uninit(I, st, fr, C):
    n, r = I.new_root(st, mk('uninit'))
    return [(n, r)]


@model('boxed.box_assume_init_into_vec_unsafe', 'Box.assume_init')
def m_boxvec(I, st, fr, C):
    return [(st, rd(I, st, C.args[0]))]


# ------------------------------------------------------------------ panics
@model('panicking.panic|panic_fmt|panic_display|panic_explicit|panic_str_2015|todo_default_msg|unreachable_display|assert_failed|assert_failed_inner|panic_nounwind|panic_const_add_overflow|unreachable_default_msg',
       'rt.begin_panic|panic_fmt|panic_display|panic_str|begin_panic_fmt', 'option.unwrap_failed|expect_failed', 'result.unwrap_failed')
def m_panic(I, st, fr, C):
    msg = ''
    for a in C.args:
        if isinstance(a, T) and a.op == 'str':
            msg = a.a[0]
        elif isinstance(a, T):
            for x in subterms(a):
                if x.op == 'str':
                    msg = x.a[0]
    I.panic(st, fr, 'panic', C.span, '%s %s' % (C.name, msg))
    return []


# ------------------------------------------------------------------ Option
@model('Option.unwrap|expect|unwrap_unchecked')
def m_unwrap(I, st, fr, C):
    v = C.args[0]
    s = I.oblige(st, fr, C.name, isv(v, OPTION, 'Some'), C.span, show(v))
    return [] if s is None else [(s, S(v))]


@model('Result.unwrap|expect')
def m_runwrap(I, st, fr, C):
    v = C.args[0]
    s = I.oblige(st, fr, C.name, isv(v, RESULT, 'Ok'), C.span, show(v))
    return [] if s is None else [(s, ok_of(v))]


@model('Option.is_some|is_none', 'Result.is_ok|is_err')
def m_is(I, st, fr, C):
    v = rd(I, st, C.args[0])
    p = isv(v, OPTION, 'Some') if C.fam == 'Option' else isv(v, RESULT, 'Ok')
    return [(st, p if C.name in ('is_some', 'is_ok') else neg(p))]


@model('Option.is_some_and|is_none_or')
def m_issa(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        if b:
            out += call(I, s, fr, C.args[1], [S(C.args[0])], C)
        else:
            out.append((s, FALSE if C.name == 'is_some_and' else TRUE))
    return out


@model('Option.map')
def m_omap(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        if b:
            out += [(s2, some(r)) for s2, r in call(I, s, fr, C.args[1], [S(C.args[0])], C)]
        else:
            out.append((s, NONE))
    return out


@model('Option.inspect')
def m_oinspect(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        if b:
            out += [(s2, C.args[0]) for s2, r in call(I, s, fr, C.args[1], [S(C.args[0])], C)]
        else:
            out.append((s, NONE))
    return out


@model('Option.and_then')
def m_oandthen(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        if b:
            out += call(I, s, fr, C.args[1], [S(C.args[0])], C)
        else:
            out.append((s, NONE))
    return out


@model('Option.filter')
def m_ofilter(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        if not b:
            out.append((s, NONE))
            continue
        for s2, r in call(I, s, fr, C.args[1], [S(C.args[0])], C):
            for s3, k in I.branch(s2, r):
                out.append((s3, some(S(C.args[0])) if k else NONE))
    return out


@model('Option.map_or')
def m_omapor(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        out += call(I, s, fr, C.args[2], [S(C.args[0])], C) if b else [(s, C.args[1])]
    return out


@model('Option.map_or_else')
def m_omapore(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        out += call(I, s, fr, C.args[2], [S(C.args[0])], C) if b else call(I, s, fr, C.args[1], [], C)
    return out


@model('Option.unwrap_or|or|unwrap_or_default|unwrap_or_else|or_else|xor')
def m_oor(I, st, fr, C):
    v = C.args[0]
    out = []
    if C.name == 'xor':
        return None
    for s, b in opt_cases(I, st, v):
        if b:
            out.append((s, S(v) if C.name.startswith('unwrap') else some(S(v))))
        elif C.name in ('unwrap_or', 'or'):
            out.append((s, C.args[1]))
        elif C.name == 'unwrap_or_default':
            d = default_of(I, C.dty)
            if d is None:
                return None
            out.append((s, d))
        else:
            out += call(I, s, fr, C.args[1], [], C)
    return out


@model('Option.and')
def m_oand(I, st, fr, C):
    return [(s, C.args[1] if b else NONE) for s, b in opt_cases(I, st, C.args[0])]


@model('Option.zip')
def m_ozip(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        if not b:
            out.append((s, NONE))
            continue
        for s2, b2 in opt_cases(I, s, C.args[1]):
            out.append((s2, some(tup(S(C.args[0]), S(C.args[1]))) if b2 else NONE))
    return out


@model('Option.ok_or|ok_or_else')
def m_okor(I, st, fr, C):
    out = []
    for s, b in opt_cases(I, st, C.args[0]):
        if b:
            out.append((s, ok(S(C.args[0]))))
        elif C.name == 'ok_or':
            out.append((s, err(C.args[1])))
        else:
            out += [(s2, err(r)) for s2, r in call(I, s, fr, C.args[1], [], C)]
    return out


@model('Option.flatten')
def m_oflat(I, st, fr, C):
    return [(s, S(C.args[0]) if b else NONE) for s, b in opt_cases(I, st, C.args[0])]


@model('Option.take')
def m_otake(I, st, fr, C):
    v = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], NONE), v)]


@model('Option.replace|insert')
def m_orepl(I, st, fr, C):
    v = rd(I, st, C.args[0])
    n = I.wr(st, C.args[0], some(C.args[1]))
    if C.name == 'replace':
        return [(n, v)]
    return [(n, I.sub_ref(C.args[0], ('vf', OPTION, 'Some', 0)))]


@model('Option.get_or_insert|get_or_insert_with')
def m_ogetins(I, st, fr, C):
    r = C.args[0]
    if r.op != 'mref':
        return None
    out = []
    for s, b in opt_cases(I, st, rd(I, st, r)):
        if b:
            out.append((s, I.sub_ref(r, ('vf', OPTION, 'Some', 0))))
        elif C.name == 'get_or_insert':
            out.append((I.wr(s, r, some(C.args[1])), I.sub_ref(r, ('vf', OPTION, 'Some', 0))))
        else:
            out += [(I.wr(s2, r, some(v)), I.sub_ref(r, ('vf', OPTION, 'Some', 0))) for s2, v in I.call_value(s, fr, C.args[1], [], C.span)]
    return out


@model('Option.as_mut|as_deref_mut')
def m_oasmut(I, st, fr, C):
    r = C.args[0]
    if r.op != 'mref':
        return [(st, r)]
    v = rd(I, st, r)
    return [(s, some(I.sub_ref(r, ('vf', OPTION, 'Some', 0))) if b else NONE) for s, b in opt_cases(I, st, v)]


@model('Option|Result.iter')
def m_oiter(I, st, fr, C):
    return [(st, opt_iter(I, rd(I, st, C.args[0]), C.fam))]


def opt_iter(I, v, fam='Option'):
    if v.op == 'agg':
        return mk('it', seq((item(v.a[2]),)) if v.a[1] in ('Some', 'Ok') else EMPTY, ())
    if fam == 'Result':
        return mk('it', seq(alt_nodes([((isv(v, RESULT, 'Ok'),), (item(ok_of(v)),))])), ())
    return mk('it', I.option_coll(v), ())


# ------------------------------------------------------------------ Result
@model('Result.map|map_err|and_then|or_else')
def m_rmap(I, st, fr, C):
    v, f = C.args
    out = []
    for s, b in res_cases(I, st, v):
        if C.name == 'map':
            out += [(s2, ok(r)) for s2, r in call(I, s, fr, f, [ok_of(v)], C)] if b else [(s, err(err_of(v)))]
        elif C.name == 'map_err':
            out += [(s, ok(ok_of(v)))] if b else [(s2, err(r)) for s2, r in call(I, s, fr, f, [err_of(v)], C)]
        elif C.name == 'and_then':
            out += call(I, s, fr, f, [ok_of(v)], C) if b else [(s, err(err_of(v)))]
        else:
            out += [(s, ok(ok_of(v)))] if b else call(I, s, fr, f, [err_of(v)], C)
    return out


@model('Result.ok|err|unwrap_or|unwrap_or_else|unwrap_or_default')
def m_rok(I, st, fr, C):
    v = C.args[0]
    out = []
    for s, b in res_cases(I, st, v):
        if C.name == 'ok':
            out.append((s, some(ok_of(v)) if b else NONE))
        elif C.name == 'err':
            out.append((s, NONE if b else some(err_of(v))))
        elif b:
            out.append((s, ok_of(v)))
        elif C.name == 'unwrap_or':
            out.append((s, C.args[1]))
        elif C.name == 'unwrap_or_default':
            d = default_of(I, C.dty)
            if d is None:
                return None
            out.append((s, d))
        else:
            out += call(I, s, fr, C.args[1], [err_of(v)], C)
    return out


@model('Result.map_or|map_or_else')
def m_rmapor(I, st, fr, C):
    v = C.args[0]
    out = []
    for s, b in res_cases(I, st, v):
        if b:
            out += call(I, s, fr, C.args[2], [ok_of(v)], C)
        elif C.name == 'map_or':
            out.append((s, C.args[1]))
        else:
            out += call(I, s, fr, C.args[1], [err_of(v)], C)
    return out


# ------------------------------------------------------------------ ?
@model('Try.branch')
def m_branch(I, st, fr, C):
    v = C.args[0]
    out = []
    t = base(aty(C, 0) or (C.targs[0] if C.targs else None))
    if t == 'Option':
        for s, b in opt_cases(I, st, v):
            out.append((s, mk('agg', CFLOW, 'Continue', S(v)) if b else mk('agg', CFLOW, 'Break', NONE)))
        return out
    if t == 'Result':
        for s, b in res_cases(I, st, v):
            out.append((s, mk('agg', CFLOW, 'Continue', ok_of(v)) if b else mk('agg', CFLOW, 'Break', err(err_of(v)))))
        return out
    return None


@model('FromResidual.from_residual')
def m_resid(I, st, fr, C):
    t = base(C.dty)
    v = C.args[0]
    if t == 'Option':
        return [(st, NONE)]
    if t == 'Result' and v.op == 'agg':
        return [(st, err(v.a[2]))]
    return None


@model('Try.from_output')
def m_output(I, st, fr, C):
    t = base(C.dty)
    return [(st, some(C.args[0]) if t == 'Option' else ok(C.args[0]))] if t in ('Option', 'Result') else None


# ------------------------------------------------------------------ integers
def iname(C):
    return intname(strip(aty(C, 0)) if aty(C, 0) else None)


@model('int.checked_sub')
def m_chk(I, st, fr, C):
    a, b = C.args
    if iname(C)[0] == 'i':
        return [(st, some(sub(a, b)))]
    return [(s, some(sub(a, b)) if t else NONE) for s, t in I.branch(st, le(b, a))]


@model('int.checked_add|wrapping_add|saturating_add')
def m_chkadd(I, st, fr, C):
    r = add(*C.args)
    n = iname(C)
    if any(is_const(x) and cval(x) >= 2 ** 63 for x in C.args):
        return None
    if BITS[n] < 64:
        if n[0] == 'i':
            return None
        top = num(2 ** BITS[n] - 1)
        return [(s, (some(r) if C.name == 'checked_add' else r) if t else
                 NONE if C.name == 'checked_add' else top if C.name == 'saturating_add' else sub(r, num(2 ** BITS[n])))
                for s, t in I.branch(st, le(r, top))]
    return [(st, some(r) if C.name == 'checked_add' else r)]


@model('int.saturating_sub')
def m_satsub(I, st, fr, C):
    a, b = C.args
    if iname(C)[0] == 'i':
        return [(st, sub(a, b))]
    return [(s, sub(a, b) if t else ZERO) for s, t in I.branch(st, le(b, a))]


@model('int.abs_diff')
def m_absdiff(I, st, fr, C):
    a, b = C.args
    return [(s, sub(a, b) if t else sub(b, a)) for s, t in I.branch(st, le(b, a))]


@model('int.wrapping_sub|overflowing_sub')
def m_wsub(I, st, fr, C):
    a, b = C.args
    n = iname(C)
    ov = C.name == 'overflowing_sub'
    if n[0] == 'i':
        return [(st, sub(a, b))] if BITS[n] == 64 and not ov else None
    out = []
    for s, t in I.branch(st, le(b, a)):
        r = sub(a, b) if t else add(sub(a, b), num(2 ** BITS[n]))
        out.append((s, tup(r, FALSE if t else TRUE) if ov else r))
    return out


@model('Ord.max|min', 'cmp.max|min')
def m_maxmin(I, st, fr, C):
    t = base(aty(C, 0) or (C.targs[0] if C.targs else None))
    if t != 'int':
        return None
    a, b = C.args
    out = []
    for s, k in I.branch(st, le(a, b)):
        out.append((s, (b if k else a) if C.name == 'max' else (a if k else b)))
    return out


@model('Ord.clamp')
def m_clamp(I, st, fr, C):
    if base(aty(C, 0) or C.targs[0]) != 'int':
        return None
    v, lo, hi = C.args
    s = I.oblige(st, fr, 'clamp', le(lo, hi), C.span)
    out = []
    if s is not None:
        for s1, k in I.branch(s, lt(v, lo)):
            if k:
                out.append((s1, lo))
            else:
                out += [(s2, hi if k2 else v) for s2, k2 in I.branch(s1, lt(hi, v))]
    return out


@model('PartialOrd.lt|le|gt|ge')
def m_pord(I, st, fr, C):
    t = base(aty(C, 0) or (C.targs[0] if C.targs else None))
    a, b = [rd(I, st, x) for x in C.args]
    if t == 'char':
        a, b = mk('ord', a), mk('ord', b)
    elif t != 'int':
        return None
    return [(st, {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[C.name])]


@model('Ord.cmp', 'PartialOrd.partial_cmp')
def m_cmp(I, st, fr, C):
    t = base(aty(C, 0) or (C.targs[0] if C.targs else None))
    a, b = [rd(I, st, x) for x in C.args]
    w = (lambda x: x) if C.name == 'cmp' else some
    if t != 'int':
        return [(st, w(mk('call', 'Ord::cmp', (), a, b)))]
    out = []
    for s, k in I.branch(st, lt(a, b)):
        if k:
            out.append((s, w(mk('agg', ORDERING, 'Less'))))
        else:
            out += [(s2, w(mk('agg', ORDERING, 'Equal' if k2 else 'Greater'))) for s2, k2 in I.branch(s, eqi(a, b))]
    return out


@model('PartialEq.eq|ne')
def m_eq(I, st, fr, C):
    a, b = [rd(I, st, x) for x in C.args]
    ty = aty(C, 0) or (C.targs[0] if C.targs else None)
    while ty and ty[0] == 'ref':
        ty = ty[2]
    if ty and ty[0] == 'adt' and ty[1].split('::')[0] in I.prog.crates:
        for body in I.prog.bodies.values():
            m = {}
            if body.kind == 'fn' and body.name == 'eq' and (body.impl_trait or '').split('<')[0].endswith('PartialEq') \
                    and body.self_ty and body.self_ty[0] == 'adt' and body.self_ty[1] == ty[1]:
                if I.all_unit(ty[1]):
                    break
                from interp import unify
                if unify(body.self_ty, ty, m):
                    return [(s, v if C.name == 'eq' else neg(v)) for s, v in I.inline(st, body, [a, b], m, fr)]
    t = base(ty)
    r = I.eqv(a, b) if t != 'int' else eqi(a, b)
    return [(st, r if C.name == 'eq' else neg(r))]


@model('bool.then|then_some')
def m_then(I, st, fr, C):
    out = []
    for s, b in I.branch(st, C.args[0]):
        if not b:
            out.append((s, NONE))
        elif C.name == 'then_some':
            out.append((s, some(C.args[1])))
        else:
            out += [(s2, some(r)) for s2, r in call(I, s, fr, C.args[1], [], C)]
    return out


@model('Not.not')
def m_not(I, st, fr, C):
    return [(st, neg(C.args[0]))] if base(aty(C, 0) or C.targs[0]) == 'bool' else None


@model('Add.add', 'Sub.sub')
def m_add(I, st, fr, C):
    t = base(aty(C, 0) or (C.targs[0] if C.targs else None))
    if t == 'int':
        a, b = C.args
        if C.name == 'add':
            return [(st, add(a, b))]
        s = I.oblige(st, fr, 'subtract', le(b, a), C.span)
        return [] if s is None else [(s, sub(a, b))]
    if t == 'String' and C.name == 'add':
        return [(st, seq(nodes_of(C.args[0]) + nodes_of(C.args[1])))]
    return None


@model('AddAssign.add_assign')
def m_addassign(I, st, fr, C):
    t = base(aty(C, 0) or (C.targs[0] if C.targs else None))
    cur = rd(I, st, C.args[0])
    if t == 'String':
        return [(I.wr(st, C.args[0], seq(nodes_of(cur) + nodes_of(C.args[1]))), UNIT)]
    if t == 'int':
        return [(I.wr(st, C.args[0], add(cur, C.args[1])), UNIT)]
    return None


@model('intrinsics.discriminant_value', 'mem.discriminant')
def m_discr(I, st, fr, C):
    t = strip(aty(C, 0) or C.targs[0])
    return [(st, mk('discr', rd(I, st, C.args[0]), t[1] if t[0] == 'adt' else str(t)))]


# ------------------------------------------------------------------ mem
@model('mem.size_of|align_of|needs_drop')
def m_sizeof(I, st, fr, C):
    return [(st, mk('call', C.name, (C.targs[0],)))]


@model('mem.take')
def m_take(I, st, fr, C):
    d = default_of(I, C.dty)
    if d is None:
        return None
    v = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], d), v)]


@model('mem.replace')
def m_replace(I, st, fr, C):
    v = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], C.args[1]), v)]


@model('mem.swap')
def m_swap(I, st, fr, C):
    a, b = [rd(I, st, x) for x in C.args]
    return [(I.wr(I.wr(st, C.args[0], b), C.args[1], a), UNIT)]


# ------------------------------------------------------------------ Vec / String
@model('Vec|String|VecDeque.new|with_capacity')
def m_vnew(I, st, fr, C):
    return [(st, EMPTY)]


@model('HashMap|BTreeMap|HashSet.new|with_capacity')
def m_hnew(I, st, fr, C):
    return [(st, mk('mempty'))]


@model('Vec|String|VecDeque.push|push_back')
def m_push(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], seq(nodes_of(cur) + (item(C.args[1]),))), UNIT)]


@model('String.push_str', 'Vec.extend_from_slice')
def m_pushstr(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], seq(nodes_of(cur) + nodes_of(C.args[1]))), UNIT)]


@model('Vec.append')
def m_append(I, st, fr, C):
    cur, o = rd(I, st, C.args[0]), rd(I, st, C.args[1])
    n = I.wr(st, C.args[0], seq(nodes_of(cur) + nodes_of(o)))
    return [(I.wr(n, C.args[1], EMPTY), UNIT)]


@model('Vec|String|HashMap.clear')
def m_clear(I, st, fr, C):
    return [(I.wr(st, C.args[0], EMPTY if C.fam != 'HashMap' else mk('mempty')), UNIT)]


@model('Vec.pop', 'VecDeque.pop_back')
def m_pop(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    ns = nodes_of(cur)
    if ns and ns[-1].op == 'item':
        return [(I.wr(st, C.args[0], seq(ns[:-1])), some(ns[-1].a[0]))]
    out = []
    n = length(cur)
    for s, b in I.branch(st, le(ONE, n)):
        if b:
            out.append((I.wr(s, C.args[0], slice_of(cur, ZERO, sub(n, ONE))), some(elem(cur, sub(n, ONE)))))
        else:
            out.append((s, NONE))
    return out


@model('VecDeque.pop_front')
def m_popfront(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    ns = nodes_of(cur)
    if ns and ns[0].op == 'item':
        return [(I.wr(st, C.args[0], seq(ns[1:])), some(ns[0].a[0]))]
    out = []
    n = length(cur)
    for s, b in I.branch(st, le(ONE, n)):
        if b:
            out.append((I.wr(s, C.args[0], slice_of(cur, ONE, n)), some(elem(cur, ZERO))))
        else:
            out.append((s, NONE))
    return out


@model('VecDeque.push_front')
def m_pushfront(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], seq((item(C.args[1]),) + nodes_of(cur))), UNIT)]


@model('VecDeque.front|back')
def m_front(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    n = length(cur)
    return [(s, some(elem(cur, ZERO if C.name == 'front' else sub(n, ONE))) if b else NONE) for s, b in I.branch(st, le(ONE, n))]


@model('Vec.insert')
def m_vinsert(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    i, n = C.args[1], length(cur)
    if i is ZERO:
        return [(I.wr(st, C.args[0], seq((item(C.args[2]),) + nodes_of(cur))), UNIT)]
    s = I.oblige(st, fr, 'Vec::insert', le(i, n), C.span)
    if s is None:
        return []
    return [(I.wr(s, C.args[0], seq(nodes_of(slice_of(cur, ZERO, i)) + (item(C.args[2]),) + nodes_of(slice_of(cur, i, n)))), UNIT)]


@model('Vec.remove')
def m_vremove(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    i, n = C.args[1], length(cur)
    s = I.oblige(st, fr, 'Vec::remove', lt(i, n), C.span)
    if s is None:
        return []
    rest = seq(nodes_of(slice_of(cur, ZERO, i)) + nodes_of(slice_of(cur, add(i, ONE), n)))
    return [(I.wr(s, C.args[0], rest), elem(cur, i))]


@model('Vec.truncate')
def m_vtruncate(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    k, n = C.args[1], length(cur)
    out = []
    for s, b in I.branch(st, lt(k, n)):
        out.append((I.wr(s, C.args[0], slice_of(cur, ZERO, k)) if b else s, UNIT))
    return out


@model('Vec.retain')
def m_vretain(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    ns = nodes_of(cur)
    if any(n.op == 'spl' for n in ns):
        b = new_bv('k')
        ns = tuple(x for n in ns for x in (close_for(b, ZERO, length(n.a[0]), False, (item(elem(n.a[0], b)),)) if n.op == 'spl' else (n,)))
    return [(I.wr(st, C.args[0], seq(filtered(I, st, fr, ns, C.args[1]))), UNIT)]


@model('Vec.dedup|dedup_by|dedup_by_key')
def m_vdedup(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], mk('dedup', C.name, cur, *C.args[1:])), UNIT)]


@model('slice.swap')
def m_sswap(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    i, j = C.args[1:]
    n = length(cur)
    s = I.oblige(st, fr, 'swap', lt(i, n), C.span)
    s = s and I.oblige(s, fr, 'swap', lt(j, n), C.span)
    if s is None:
        return []
    return [(I.wr(s, C.args[0], upd(upd(cur, i, elem(cur, j)), j, elem(cur, i))), UNIT)]


@model('slice.reverse')
def m_reverse(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], seq(rev_nodes(nodes_of(cur)))), UNIT)]


@model('slice.sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key')
def m_sort(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    return [(I.wr(st, C.args[0], mk('sorted', C.name, cur, *C.args[1:])), UNIT)]


@model('Vec|slice|VecDeque|HashMap.len')
def m_len(I, st, fr, C):
    v = rd(I, st, C.args[0])
    if C.fam == 'HashMap':
        return [(st, mk('ucall', 'HashMap::len', v))]
    return [(st, length(v))]


@model('Vec|String.capacity')
def m_capacity(I, st, fr, C):
    return [(st, mk('ucall', 'capacity', rd(I, st, C.args[0])))]


@model('String|str.len')
def m_slen(I, st, fr, C):
    return [(st, blen(rd(I, st, C.args[0])))]


@model('Vec|slice|String|str|VecDeque.is_empty')
def m_isempty(I, st, fr, C):
    v = rd(I, st, C.args[0])
    return [(st, neg(nonempty(nodes_of(v))))]


@model('HashMap.is_empty')
def m_hisempty(I, st, fr, C):
    return None


@model('slice|Vec.first|split_first')
def m_first(I, st, fr, C):
    v = rd(I, st, C.args[0])
    out = []
    for s, b in I.branch(st, nonempty(nodes_of(v))):
        if not b:
            out.append((s, NONE))
        elif C.name == 'first':
            out.append((s, some(elem(v, ZERO))))
        else:
            out.append((s, some(tup(elem(v, ZERO), slice_of(v, ONE, length(v))))))
    return out


@model('slice|Vec.last|split_last')
def m_last(I, st, fr, C):
    v = rd(I, st, C.args[0])
    ns = nodes_of(v)
    if ns and ns[-1].op == 'item':
        l, rest = ns[-1].a[0], seq(ns[:-1])
        return [(st, some(l) if C.name == 'last' else some(tup(l, rest)))]
    n = sub(length(v), ONE)
    out = []
    for s, b in I.branch(st, nonempty(ns)):
        if not b:
            out.append((s, NONE))
        else:
            out.append((s, some(elem(v, n) if C.name == 'last' else tup(elem(v, n), slice_of(v, ZERO, n)))))
    return out


def range_bounds(v, n):
    """(lo, hi) of a range value used as an index"""
    if v.op != 'agg':
        return None
    k = v.a[0].split('::')[-1]
    if k == 'Range':
        return v.a[2], v.a[3]
    if k == 'RangeInclusive':
        return v.a[2], add(v.a[3], ONE)
    if k == 'RangeFrom':
        return v.a[2], n
    if k == 'RangeTo':
        return ZERO, v.a[2]
    if k == 'RangeToInclusive':
        return ZERO, add(v.a[2], ONE)
    if k == 'RangeFull':
        return ZERO, n
    return None


def is_range(v, t=None):
    if v.op == 'agg' and v.a[0].startswith('core::ops::range::'):
        return True
    if v.op in ('zst',) and 'RangeFull' in str(v.a):
        return True
    return bool(t) and (base(t) or '').startswith('Range')


@model('slice|Vec.get|get_mut|get_unchecked')
def m_get(I, st, fr, C):
    r, i = C.args
    v = rd(I, st, r)
    if is_range(i, aty(C, 1)):
        rb = range_bounds(i, length(v))
        if rb is None or C.name != 'get':
            return None
        return [(s, some(slice_of(v, *rb)) if b else NONE)
                for s, b in I.branch(st, conj(le(rb[0], rb[1]), le(rb[1], length(v))))]
    out = []
    for s, b in I.branch(st, lt(i, length(v))):
        if not b:
            out.append((s, NONE))
        elif r.op == 'mref' and C.name == 'get_mut':
            out.append((s, some(I.sub_ref(r, ('i', i)))))
        else:
            out.append((s, some(elem(v, i))))
    return out


@model('slice.first_mut|last_mut', 'Vec.first_mut|last_mut')
def m_firstmut(I, st, fr, C):
    r = C.args[0]
    v = rd(I, st, r)
    i = ZERO if C.name == 'first_mut' else sub(length(v), ONE)
    return [(s, some(I.sub_ref(r, ('i', i))) if b else NONE) for s, b in I.branch(st, nonempty(nodes_of(v)))]


@model('Index.index', 'IndexMut.index_mut')
def m_index(I, st, fr, C):
    r, i = C.args
    v = rd(I, st, r)
    t = base(aty(C, 0) or (C.targs[0] if C.targs else None))
    if t in ('HashMap', 'BTreeMap'):
        s = I.oblige(st, fr, 'map index', isv(mget(v, i), OPTION, 'Some'), C.span, show(i))
        return [] if s is None else [(s, mgetd(v, i))]
    if is_range(i, aty(C, 1)):
        if t in ('str', 'String'):
            rb = range_bounds(i, blen(v))
            if i.op == 'zst':
                return [(st, v)]
            if rb is None:
                return None
            if rb[0] is ZERO and rb[1] is blen(v):
                return [(st, v)]
            s = I.oblige(st, fr, 'str index', mk('call', 'is_char_range', (), v, *rb), C.span)
            return [] if s is None else [(s, mk('ucall', 'str::index', v, *rb))]
        if i.op == 'zst':
            return [(st, v)]
        rb = range_bounds(i, length(v))
        if rb is None:
            return None
        s = I.oblige(st, fr, 'slice index', conj(le(rb[0], rb[1]), le(rb[1], length(v))), C.span)
        return [] if s is None else [(s, slice_of(v, *rb))]
    if t in ('Vec', 'slice', 'array', 'VecDeque', None):
        s = I.oblige(st, fr, 'index', lt(i, length(v)), C.span)
        if s is None:
            return []
        if r.op == 'mref' and C.name == 'index_mut':
            return [(s, I.sub_ref(r, ('i', i)))]
        return [(s, elem(v, i))]
    return None


@model('slice|Vec|VecDeque.iter')
def m_iter(I, st, fr, C):
    return [(st, mk('it', rd(I, st, C.args[0]), ()))]


@model('slice|Vec.contains')
def m_contains(I, st, fr, C):
    c, x = rd(I, st, C.args[0]), rd(I, st, C.args[1])
    return [(st, contains(I, st, c, x))]


def contains(I, st, c, x):
    ns = I.map_nodes(st, nodes_of(c), lambda s, v: [(s, alt_nodes([((I.eqv(v, x),), (item(UNIT),))]))])
    return nonempty_cases(ns)


def nonempty_cases(ns):
    return nonempty(ns)


@model('slice.windows')
def m_windows(I, st, fr, C):
    c, n = rd(I, st, C.args[0]), C.args[1]
    b = new_bv('w')
    return [(st, mk('it', seq(close_for(b, ZERO, sub(add(length(c), ONE), n), False, (item(slice_of(c, b, add(b, n))),))), ()))]


@model('slice.concat')
def m_concat(I, st, fr, C):
    c = rd(I, st, C.args[0])
    ns = I.map_nodes(st, nodes_of(c), lambda s, v: [(s, nodes_of(v))])
    return [(st, seq(ns))]


@model('slice.split_at')
def m_splitat(I, st, fr, C):
    c, i = rd(I, st, C.args[0]), C.args[1]
    s = I.oblige(st, fr, 'split_at', le(i, length(c)), C.span)
    return [] if s is None else [(s, tup(slice_of(c, ZERO, i), slice_of(c, i, length(c))))]


# ------------------------------------------------------------------ str / char
@model('str.chars')
def m_chars(I, st, fr, C):
    return [(st, mk('it', rd(I, st, C.args[0]), ()))]


@model('str.char_indices')
def m_charidx(I, st, fr, C):
    c = rd(I, st, C.args[0])
    b = new_bv('k')
    return [(st, mk('it', seq(close_for(b, ZERO, length(c), False, (item(tup(blen(slice_of(c, ZERO, b)), elem(c, b))),))), ()))]


@model('str.to_lowercase')
def m_lower(I, st, fr, C):
    return [(st, mk('call', 'lower', (), rd(I, st, C.args[0])))]


def with_pattern(I, st, fr, C):
    """a string function; the pattern is a string or character, a set of characters, or a predicate"""
    args = [rd(I, st, a) for a in C.args]
    if len(args) > 1:
        t = strip(aty(C, 1)) if aty(C, 1) else None
        if args[1].op in ('clo', 'fnitem', 'fndef') or (t and t[0] in ('closure', 'fndef')):
            ps = seq(tagged(I, st, fr, mat(I, st, fr, mk('it', args[0], ())), args[1]))
            return mk('call', 'str::%s@p' % C.name, (), ps, *args[2:])
        if t and (t[0] in ('array', 'slice') or base(t) == 'Vec'):
            return mk('call', 'str::%s@set' % C.name, (), *args)
    return mk('call', 'str::' + C.name, (), *args)


@model('str.to_uppercase|trim|trim_start|trim_end|to_ascii_lowercase|to_ascii_uppercase|eq_ignore_ascii_case|is_char_boundary|starts_with|ends_with|find|contains')
def m_strfn(I, st, fr, C):
    return [(st, with_pattern(I, st, fr, C))]


@model('str.parse')
def m_parse(I, st, fr, C):
    return [(st, mk('call', 'parse', (C.dty,), rd(I, st, C.args[0])))]


CHARPREDS = ('is_alphabetic', 'is_ascii_digit', 'is_whitespace', 'is_numeric', 'is_alphanumeric', 'is_ascii_alphabetic', 'is_ascii_alphanumeric',
             'is_ascii_punctuation', 'is_ascii_whitespace', 'is_lowercase', 'is_uppercase', 'is_control', 'is_ascii', 'is_ascii_uppercase',
             'is_ascii_lowercase', 'is_ascii_hexdigit', 'is_ascii_graphic', 'is_ascii_control')


@model('char|methods.' + '|'.join(CHARPREDS))
def m_charpred(I, st, fr, C):
    return [(st, mk('call', C.name, (), rd(I, st, C.args[0])))]


@model('char.is_digit')
def m_isdigit(I, st, fr, C):
    if is_const(C.args[1]) and cval(C.args[1]) == 10:
        return [(st, mk('call', 'is_ascii_digit', (), C.args[0]))]
    return [(st, mk('call', 'is_digit', (), *C.args))]


@model('TryFrom.try_from', 'TryInto.try_into')
def m_tryfrom(I, st, fr, C):
    """integer conversions that may fail"""
    src, res = aty(C, 0), C.dty
    dst = res[2][0] if res and res[0] == 'adt' and res[1] == RESULT and res[2] else None
    a, b = (t[1] if t and t[0] in ('int', 'uint') and len(t) > 1 else None for t in (src, dst))
    B = interp_bits()
    if a not in B or b not in B:
        return None
    v = C.args[0]
    lo, hi = (0, 2 ** B[b]) if b[0] == 'u' else (-2 ** (B[b] - 1), 2 ** (B[b] - 1))
    slo, shi = (0, 2 ** B[a]) if a[0] == 'u' else (-2 ** (B[a] - 1), 2 ** (B[a] - 1))
    c = TRUE
    if shi > hi:
        c = conj(c, lt(v, num(hi)))
    if slo < lo:
        c = conj(c, le(num(lo), v))
    return [(s, ok(v) if t else err(mk('zst', 'TryFromIntError'))) for s, t in I.branch(st, c)]


def interp_bits():
    import interp
    return interp.BITS


@model('char.encode_utf8')
def m_encode_utf8(I, st, fr, C):
    t = seq((item(C.args[0]),))
    buf = C.args[1]
    s = I.oblige(st, fr, 'encode_utf8', le(blen(t), length(rd(I, st, buf))), C.span)
    if s is None:
        return []
    if buf.op == 'mref':
        s = I.wr(s, buf, mk('unk', 'encode_utf8', fresh_id(), 0))
    return [(s, t)]


@model('char.len_utf8')
def m_lenutf8(I, st, fr, C):
    return [(st, blen(seq((item(C.args[0]),))))]


@model('char.to_digit|from_digit', 'methods.from_digit', 'convert.from_digit')
def m_digit(I, st, fr, C):
    return [(st, mk('call', 'char::' + C.name, (), *[rd(I, st, a) for a in C.args]))]


@model('char.to_lowercase|to_uppercase')
def m_charcase(I, st, fr, C):
    return [(st, mk('it', mk('call', 'char::' + C.name, (), rd(I, st, C.args[0])), ()))]


@model('char.to_ascii_lowercase|to_ascii_uppercase')
def m_charmap(I, st, fr, C):
    return [(st, mk('call', 'char::' + C.name, (), rd(I, st, C.args[0])))]


@model('ToString.to_string', 'From.from', 'Into.into')
def m_from(I, st, fr, C):
    src, dst = aty(C, 0), C.dty
    if src is None and C.targs:
        src = C.targs[0] if C.fam != 'From' else (C.targs[1] if len(C.targs) > 1 else None)
    if dst is None and C.fam in ('From', 'Into') and len(C.targs) > 1:
        dst = C.targs[0 if C.fam == 'From' else 1]
    a, b = base(src), base(dst)
    v = C.args[0]
    if v.op == 'mref':
        v = rd(I, st, v)
    if a == 'char' and b == 'String':
        return [(st, seq((item(v),)))]
    if a in ('str', 'String') and b in ('String', 'str', 'Cow'):
        return [(st, v)]
    if a in ('array', 'slice', 'Vec') and b in ('Vec', 'slice'):
        return [(st, v)]
    if src is not None and strip(src) == strip(dst or ()):
        return [(st, v)]
    if a == 'int' and b == 'int':
        return [(st, v)]
    if a == 'bool' and b == 'int':
        return [(st, ONE if v is TRUE else ZERO if v is FALSE else mk('b2i', v))]
    if a == 'char' and b == 'int':
        return [(st, mk('ord', v))]
    if b == 'char' and a in ('int', None):
        return [(st, mk('call', 'char::from_code', (), v))]
    if a and b == 'Option' and C.fam != 'ToString':
        return [(st, some(v))]
    if C.fam == 'ToString':
        return [(st, mk('call', 'to_string', (src,), v))]
    if C.fam == 'Into' or C.fam == 'From':
        return [(st, mk('call', 'convert', (src, dst), v))]
    return None


@model('UnicodeSegmentation.split_word_bounds|unicode_words|graphemes|split_word_bound_indices')
def m_swb(I, st, fr, C):
    return [(st, mk('it', mk('call', C.name, (), *[rd(I, st, a) for a in C.args]), ()))]


@model('UnicodeWidthStr.width|width_cjk', 'UnicodeWidthChar.width')
def m_width(I, st, fr, C):
    return [(st, mk('call', C.fam + '::' + C.name, (), rd(I, st, C.args[0])))]


@model('TagsLookup.get', 'TagSet.of|tags')
def m_tags(I, st, fr, C):
    t = mk('call', C.fam + '::' + C.name, (), *[rd(I, st, a) for a in C.args])
    if C.name == 'tags':
        return [(st, mk('it', t, ()))]
    return [(st, t)]


# ------------------------------------------------------------------ maps
@model('HashMap|BTreeMap.get')
def m_hget(I, st, fr, C):
    m, k = rd(I, st, C.args[0]), rd(I, st, C.args[1])
    return [(st, mget(m, k))]


@model('HashMap|BTreeMap.contains_key')
def m_hck(I, st, fr, C):
    return [(st, isv(mget(rd(I, st, C.args[0]), rd(I, st, C.args[1])), OPTION, 'Some'))]


@model('HashMap|BTreeMap.get_mut')
def m_hgetmut(I, st, fr, C):
    r, k = C.args[0], rd(I, st, C.args[1])
    m = rd(I, st, r)
    return [(s, some(I.sub_ref(r, ('key', k, None))) if b else NONE) for s, b in I.is_some(st, mget(m, k))]


@model('HashMap|BTreeMap.insert')
def m_hinsert(I, st, fr, C):
    r, k, v = C.args
    m = rd(I, st, r)
    return [(I.wr(st, r, mset(m, k, v)), mget(m, k))]


@model('HashMap|BTreeMap.entry')
def m_entry(I, st, fr, C):
    return [(st, mk('entry', C.args[0], C.args[1]))]


@model('Entry.or_default|or_insert|or_insert_with|or_insert_with_key')
def m_ordef(I, st, fr, C):
    e = C.args[0]
    if e.op != 'entry':
        return None
    r, k = e.a
    if C.name == 'or_default':
        d = None
    elif C.name == 'or_insert':
        d = C.args[1]
    else:
        rs = call(I, st, fr, C.args[1], [] if C.name == 'or_insert_with' else [k], C)
        if len(rs) != 1:
            return None
        st, d = rs[0]
    if d is EMPTY or (d is not None and d.op == 'mempty'):
        d = None
    return [(st, I.sub_ref(r, ('key', k, d)))]


@model('HashMap|BTreeMap.iter|keys|values|into_keys|into_values|drain')
def m_hiter(I, st, fr, C):
    m = rd(I, st, C.args[0])
    if C.fam == 'BTreeMap':
        return [(st, mk('it', mk('btseq', C.name, m), ()))]
    return [(st, mk('it', mk('hashseq', C.name, m), ()))]


# ------------------------------------------------------------------ type ids and Any
@model('TypeId.of')
def m_tyid(I, st, fr, C):
    return [(st, mk('tyid', C.targs[0]))]


@model('any.type_name')
def m_tyname(I, st, fr, C):
    return [(st, mk('tyname', C.targs[0]))]


def dyn_known(v):
    return v.op == 'dyn'


@model('dynAny.downcast_ref', 'BoxAny.downcast', 'dynAny.is')
def m_downcast(I, st, fr, C):
    v = C.args[0]
    if v.op == 'mref':
        v = rd(I, st, v)
    ty = [t for t in C.targs if t != GLOBAL][0]
    yes = some if C.name == 'downcast_ref' else ok
    no = NONE if C.name == 'downcast_ref' else err(v)
    if C.name == 'is':
        yes, no = (lambda x: TRUE), FALSE
    if v.op == 'dyn':
        if same_vec(v.a[0], ty):
            return [(st, yes(v.a[1]))]
        if not has_param(v.a[0]) and not has_param(ty) and not has_any(v.a[0]):
            return [(st, no)]
        c = mk('tyeq', *sorted((mk('ty', v.a[0]), mk('ty', ty)), key=lambda x: x.u))
        return [(s, yes(mk('undyn', ty, v)) if b else no) for s, b in I.branch(st, c)]
    c = mk('isty', v, ty)
    return [(s, yes(mk('undyn', ty, v)) if b else no) for s, b in I.branch(st, c)]


def has_any(x):
    if isinstance(x, tuple):
        if x and x[0] == 'anyty':
            return True
        return any(has_any(y) for y in x)
    return False


@model('dynAny.downcast_mut')
def m_downcastm(I, st, fr, C):
    r = C.args[0]
    ty = C.targs[0]
    if r.op != 'mref':
        return None
    p = r.a[1]
    if p and p[-1][0] == 'as' and same_vec(p[-1][1], ty):
        return [(st, some(r))]
    if p and p[-1][0] == 'as':
        c = mk('tyeq', *sorted((mk('ty', p[-1][1]), mk('ty', ty)), key=lambda x: x.u))
        return [(s, some(r) if b else NONE) for s, b in I.branch(st, c)]
    return None


def dyn_type(I, st, v):
    """concrete type behind a trait object, when the analysis knows it"""
    if v.op == 'mref':
        p = v.a[1]
        if p and p[-1][0] == 'as':
            return p[-1][1]
        if p and p[-1][0] == 'key':
            k, d = p[-1][1], p[-1][2]
            if d is not None and d.op == 'dyn':
                return d.a[0]
            if k.op == 'tyid':
                return ('adt', VEC, (k.a[0], ('adt', 'alloc::alloc::Global', ())))
        return dyn_type(I, st, I.rd(st, v))
    if v.op == 'dyn':
        return v.a[0]
    if v.op in ('mgetd', 'mgetor') and v.a[1].op == 'tyid':
        return ('adt', VEC, (v.a[1].a[0], ('adt', 'alloc::alloc::Global', ())))
    return None


# ------------------------------------------------------------------ formatting
@model('Argument.new_debug|new_display')
def m_fmtarg(I, st, fr, C):
    return [(st, mk('fmtarg', C.name, (aty(C, 0),), rd(I, st, C.args[0])))]


@model('Arguments.from_str|from_str_nonconst|new_const')
def m_argsstr(I, st, fr, C):
    v = C.args[0]
    if v.op == 'seq' and len(v.a) == 1 and v.a[0].op == 'item':
        v = v.a[0].a[0]
    return [(st, mk('fmtargs', v))]


def tmpl_bytes(v):
    """bytes of an encoded format template"""
    if v.op == 'opaque':
        s = v.a[0]
        import ast
        i = s.find('b"')
        if i >= 0:
            j = s.rfind('"')
            try:
                return ast.literal_eval(s[i:j + 1])
            except Exception:
                return None
    if v.op == 'bytes':
        return bytes(v.a[0])
    return None


@model('Arguments.new')
def m_argsnew(I, st, fr, C):
    tb = tmpl_bytes(C.args[0])
    args = C.args[1]
    if tb is not None and args.op == 'seq':
        # template: length-prefixed literals, 0xC0.. = next argument with default options, 0 = end
        out, i, ai = [], 0, 0
        okp = True
        while i < len(tb):
            b = tb[i]
            if b == 0:
                break
            if b < 0x80:
                out += [item(mk('chr', ch)) for ch in tb[i + 1:i + 1 + b].decode('utf8', 'replace')]
                i += 1 + b
            elif b == 0xC0 or b == 0xC1 and tb[i + 1:i + 5] == b'\x20\x00\x80\x60':      # {:#?}
                if ai >= len(args.a) or args.a[ai].op != 'item':
                    okp = False
                    break
                x = args.a[ai].a[0]
                ai += 1
                out += list(nodes_of(fmt_one(x, b == 0xC1)))
                i += 1 if b == 0xC0 else 5
            else:
                okp = False
                break
        if okp:
            return [(st, mk('fmtargs', seq(tuple(out))))]
    return [(st, mk('fmtargs', mk('ucall', 'format', C.args[0], C.args[1])))]


def fmt_one(x, pretty=False):
    if x.op == 'fmtarg':
        how, tys, v = x.a
        if pretty:
            return mk('call', 'debug#', (), v) if how == 'new_debug' else mk('ucall', 'fmt', x)
        t = base(tys[0]) if tys else None
        if how == 'new_display' and t in ('str', 'String'):
            return v
        if how == 'new_display' and t == 'char':
            return seq((item(v),))
        return mk('call', 'debug' if how == 'new_debug' else 'display', (), v)
    return mk('ucall', 'fmt', x)


@model('fmt.format', 'fmt.format_inner')
def m_format(I, st, fr, C):
    a = C.args[0]
    return [(st, a.a[0] if a.op == 'fmtargs' else mk('ucall', 'format', a))]


@model('Formatter|Write.write_str|write_char|write_fmt|pad')
def m_write(I, st, fr, C):
    r, v = C.args[0], C.args[1]
    if r.op != 'mref':
        return None
    cur = rd(I, st, r)
    if C.name == 'write_char':
        ns = (item(v),)
    elif C.name == 'write_fmt':
        ns = nodes_of(v.a[0]) if v.op == 'fmtargs' else nodes_of(mk('ucall', 'format', v))
    elif C.name == 'pad':
        ns = nodes_of(mk('call', 'pad', (), v))
    else:
        ns = nodes_of(v)
    return [(I.wr(st, r, seq(nodes_of(cur) + ns)), ok(UNIT))]


@model('Debug.fmt', 'Display.fmt')
def m_dbgfmt(I, st, fr, C):
    r = C.args[1]
    if r.op != 'mref':
        return None
    cur = rd(I, st, r)
    return [(I.wr(st, r, seq(nodes_of(cur) + nodes_of(mk('call', 'debug' if C.fam == 'Debug' else 'display', (), rd(I, st, C.args[0]))))), ok(UNIT))]


@model('Formatter.debug_struct|debug_tuple|debug_list|debug_map')
def m_dbgstruct(I, st, fr, C):
    return [(st, mk('dbgb', C.name, C.args[0], C.args[1] if len(C.args) > 1 else UNIT, ()))]


@model('Formatter.debug_struct_field1_finish|debug_struct_field2_finish|debug_struct_field3_finish|debug_struct_field4_finish|debug_struct_fields_finish|debug_tuple_field1_finish|debug_tuple_field2_finish|debug_tuple_field3_finish|debug_c_like_enum_write_str')
def m_dbgfin(I, st, fr, C):
    r = C.args[0]
    if r.op != 'mref':
        return None
    cur = rd(I, st, r)
    return [(I.wr(st, r, seq(nodes_of(cur) + nodes_of(mk('call', C.name, (), *[rd(I, st, a) for a in C.args[1:]])))), ok(UNIT))]


@model('DebugStruct|DebugTuple.field|finish|finish_non_exhaustive')
def m_dbgfield(I, st, fr, C):
    b = C.args[0]
    b0 = rd(I, st, b) if b.op == 'mref' else b
    if b0.op != 'dbgb':
        return None
    if C.name == 'field':
        nb = mk('dbgb', b0.a[0], b0.a[1], b0.a[2], b0.a[3] + tuple(rd(I, st, a) for a in C.args[1:]))
        if b.op == 'mref':
            return [(I.wr(st, b, nb), b)]
        return [(st, nb)]
    f = b0.a[1]
    cur = rd(I, st, f)
    return [(I.wr(st, f, seq(nodes_of(cur) + nodes_of(mk('call', b0.a[0], (), b0.a[2], *b0.a[3])))), ok(UNIT))]


# ------------------------------------------------------------------ Rc
@model('Rc|Arc.ptr_eq')
def m_ptreq(I, st, fr, C):
    return [(st, eq(C.args[0], C.args[1]))]


@model('Rc|Arc.try_unwrap|into_inner')
def m_tryunwrap(I, st, fr, C):
    v = C.args[0]
    y, n = (ok(v), err(v)) if C.name == 'try_unwrap' else (some(v), NONE)
    return [(s, y if b else n) for s, b in I.branch(st, mk('call', 'Rc::unique', (), v))]


@model('Rc.unwrap_or_clone')
def m_uoc(I, st, fr, C):
    return [(st, C.args[0])]


# ------------------------------------------------------------------ Default
@model('Default.default')
def m_default(I, st, fr, C):
    d = default_of(I, C.dty or (C.targs[0] if C.targs else None))
    if d is not None:
        return [(st, d)]
    t = strip(C.dty or C.targs[0])
    if t and t[0] == 'tuple':
        ds = [default_of(I, x) for x in t[1]]
        if all(d is not None for d in ds):
            return [(st, tup(*ds))]
    return None


# ------------------------------------------------------------------ iterators
@model('RangeInclusive.new')
def m_rinew(I, st, fr, C):
    return [(st, mk('agg', 'core::ops::range::RangeInclusive', None, *C.args))]


@model('RangeInclusive|Range.start|end')
def m_rse(I, st, fr, C):
    v = C.args[0]
    return [(st, v.a[2 if C.name == 'start' else 3])] if v.op == 'agg' else None


@model('RangeInclusive|Range|RangeBounds|RangeFrom|RangeTo|RangeToInclusive.contains')
def m_rcont(I, st, fr, C):
    v, x = rd(I, st, C.args[0]), rd(I, st, C.args[1])
    ty = base(aty(C, 1)) or base(C.targs[0])
    if v.op != 'agg' or ty not in ('int', 'char'):
        return None
    o = (lambda t: mk('ord', t)) if ty == 'char' else (lambda t: t)
    k = v.a[0].split('::')[-1]
    x = o(x)
    r = {'Range': lambda: conj(le(o(v.a[2]), x), lt(x, o(v.a[3]))),
         'RangeInclusive': lambda: conj(le(o(v.a[2]), x), le(x, o(v.a[3]))),
         'RangeFrom': lambda: le(o(v.a[2]), x),
         'RangeTo': lambda: lt(x, o(v.a[2])),
         'RangeToInclusive': lambda: le(x, o(v.a[2]))}.get(k)
    return None if r is None else [(st, r())]


@model('Range|RangeInclusive.is_empty')
def m_rempty(I, st, fr, C):
    v = C.args[0]
    if v.op != 'agg':
        return None
    return [(st, le(v.a[3], v.a[2]) if v.a[0].endswith('::Range') else lt(v.a[3], v.a[2]))]


def mut_items(I, st, r):
    """an iterator over mutable borrows of the elements of the list behind r"""
    n = length(I.rd(st, r))
    b = new_bv('m')
    return mk('it', seq(close_for(b, ZERO, n, False, (item(I.sub_ref(r, ('i', b))),))), ())


@model('slice.iter_mut', 'Vec.iter_mut', 'VecDeque.iter_mut')
def m_itermut(I, st, fr, C):
    r = C.args[0]
    return [(st, mut_items(I, st, r))] if r.op == 'mref' else None


@model('vec.from_elem')
def m_fromelem(I, st, fr, C):
    b = new_bv('t')
    return [(st, seq(close_for(b, ZERO, C.args[1], False, (item(C.args[0]),))))]


@model('slice.fill')
def m_fill(I, st, fr, C):
    b = new_bv('t')
    return [(I.wr(st, C.args[0], seq(close_for(b, ZERO, length(rd(I, st, C.args[0])), False, (item(C.args[1]),)))), UNIT)]


@model('Vec.resize|resize_with')
def m_resize(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    k, n = C.args[1], length(cur)
    out = []
    for s, b in I.branch(st, lt(k, n)):
        if b:
            out.append((I.wr(s, C.args[0], slice_of(cur, ZERO, k)), UNIT))
            continue
        b = new_bv('t')
        if C.name == 'resize':
            x = C.args[2]
        else:
            rs = I.call_value(s, fr, C.args[2], [], C.span)
            if len(rs) != 1 or rs[0][0].mem != s.mem:
                raise lib().Unsupported('resize_with an effectful function')
            x = rs[0][1]
        out.append((I.wr(s, C.args[0], seq(nodes_of(cur) + tuple(close_for(b, ZERO, sub(k, n), False, (item(x),))))), UNIT))
    return out


def own_iterator(I, t):
    """a type of the analysed crates with an Iterator implementation of its own"""
    if not t or t[0] != 'adt':
        return False
    return any(b.kind == 'fn' and b.name == 'next' and b.self_ty and b.self_ty[0] == 'adt' and b.self_ty[1] == t[1]
               and (b.impl_trait or '').split('<')[0].split('::')[-1] == 'Iterator' for b in I.prog.bodies.values())


def to_iter(I, st, v, t):
    b = base(t)
    if own_iterator(I, t):
        return v
    if v.op == 'mref':
        if t is not None and t[0] == 'ref' and t[1]:
            cur = I.rd(st, v)
            if cur.op in ('it', 'liter', 'litadv', 'litdone') or (cur.op == 'agg' and is_range(cur)):
                return mk('itref', v)
            if base(t) in ('Vec', 'slice', 'array', 'VecDeque'):
                return mut_items(I, st, v)
        raise lib().Unsupported('iteration over a mutable borrow')
    if v.op in ('it', 'itref', 'liter'):
        return v
    if b in ('HashMap', 'HashSet'):
        return mk('it', mk('hashseq', 'keys' if b == 'HashSet' else 'iter', v), ())
    if b in ('BTreeMap', 'BTreeSet'):
        return mk('it', mk('btseq', 'keys' if b == 'BTreeSet' else 'iter', v), ())
    if b in ('Option', 'Result'):
        return opt_iter(I, v, b)
    return I.as_iter(st, v)


@model('IntoIterator.into_iter', 'Iterator.by_ref')
def m_intoiter(I, st, fr, C):
    t = aty(C, 0) or (C.targs[0] if C.targs else None)
    if C.name == 'by_ref':
        return [(st, mk('itref', C.args[0]) if C.args[0].op == 'mref' else C.args[0])]
    return [(st, to_iter(I, st, C.args[0], t))]


def item_type(I, t):
    """item type of an iterator type, or None"""
    if not t:
        return None
    if t[0] == 'ref':
        u = t[2]
        if base(u) in ('Vec', 'slice', 'array'):
            return u[2][0] if u[0] == 'adt' else u[1]
        return item_type(I, u)
    if t[0] == 'slice' or t[0] == 'array':
        return t[1]
    if t[0] != 'adt':
        return None
    n = t[1].split('::')[-1]
    a = [x for x in t[2] if not (isinstance(x, tuple) and x and x[0] in ('lifetime',))]
    if n in ('IntoIter', 'Iter', 'Vec', 'Option', 'Once', 'Repeat', 'RepeatN', 'Range', 'RangeInclusive', 'Empty', 'VecDeque', 'Item'):
        return a[0] if a else None
    if n in ('Chars',):
        return ('char',)
    if n in ('Filter', 'Rev', 'Take', 'Skip', 'Cloned', 'Copied', 'Peekable', 'Chain', 'Inspect', 'TakeWhile', 'SkipWhile', 'Fuse', 'StepBy', 'Cycle'):
        return item_type(I, a[0])
    if n == 'Enumerate':
        x = item_type(I, a[0])
        return ('tuple', (('int', 'usize'), x)) if x else None
    if n == 'Map' and a[1][0] == 'closure':
        b = I.prog.bodies.get(a[1][1])
        return b.locals[0] if b else None
    if n == 'FilterMap' and a[1][0] == 'closure':
        b = I.prog.bodies.get(a[1][1])
        r = b.locals[0] if b else None
        return r[2][0] if r and r[0] == 'adt' and r[2] else None
    if n == 'FlatMap':
        return item_type(I, a[1])
    if n == 'Flatten':
        return item_type(I, item_type(I, a[0]))
    if n in ('UWordBounds', 'Split', 'SplitWhitespace', 'Lines', 'UnicodeWords'):
        return ('ref', False, ('str',))
    return None


def hint(t):
    b = base(t) if t else None
    return 'option' if b == 'Option' else 'result' if b == 'Result' else 'hash' if b == 'HashMap' else None


def stage(C, k, f, h=None):
    it = C.args[0]
    return mk('it', it.a[0], it.a[1] + (mk('stg', k, f, h),))


def self_it(I, st, fr, C):
    """the receiver as an `it` term"""
    v = C.args[0]
    if v.op == 'itref':
        raise lib().Unsupported('adaptor on a borrowed iterator')
    if v.op == 'it':
        return v
    t = aty(C, 0) or (C.targs[0] if C.targs else None)
    v = to_iter(I, st, v, t)
    if v.op != 'it':
        raise lib().Unsupported('adaptor on ' + v.op)
    return v


@model('Iterator.map|filter|filter_map|inspect')
def m_stage(I, st, fr, C):
    it = self_it(I, st, fr, C)
    if it.a[0].op in ('repeat', 'from'):
        raise lib().Unsupported('infinite iterator')
    return [(st, mk('it', it.a[0], it.a[1] + (mk('stg', C.name, C.args[1], None),)))]


@model('Iterator.flat_map')
def m_flatmap(I, st, fr, C):
    it = self_it(I, st, fr, C)
    return [(st, mk('it', it.a[0], it.a[1] + (mk('stg', 'flat_map', C.args[1], hint(C.targs[1])),)))]


@model('Iterator.flatten')
def m_flatten(I, st, fr, C):
    it = self_it(I, st, fr, C)
    t = item_type(I, C.targs[0])
    return [(st, mk('it', it.a[0], it.a[1] + (mk('stg', 'flatten', UNIT, hint(t)),)))]


@model('Iterator.cloned|copied|fuse')
def m_itid(I, st, fr, C):
    return [(st, C.args[0])]


@model('Iterator.peekable')
def m_peekable(I, st, fr, C):
    """the same sequence; peeking looks at its first element"""
    try:
        return [(st, mk('it', seq(mat(I, st, fr, self_it(I, st, fr, C))), ()))]
    except lib().Impure:
        return None


@model('Peekable.peek|next_if|next_if_eq')
def m_peek(I, st, fr, C):
    r = C.args[0]
    if r.op != 'mref':
        return None
    cur = rd(I, st, r)
    while cur.op == 'itref':
        r = cur.a[0]
        cur = rd(I, st, r)
    if cur.op in ('liter', 'litadv', 'litdone'):
        x = cur if cur.op == 'liter' else cur.a[0]
        raise lib().Irregular(I.liters[x]['lid'], 'peek')
    if cur.op != 'it' or cur.a[1]:
        return None
    src = cur.a[0]
    out = []
    for s, b in I.branch(st, le(ONE, length(src))):
        x = elem(src, ZERO)
        if not b:
            out.append((s, NONE))
        elif C.name == 'peek':
            out.append((s, some(x)))
        else:
            cs = [(s, compare_eq(I, s, fr, x, C))] if C.name == 'next_if_eq' else I.call_value(s, fr, C.args[1], [x], C.span)
            for s2, c in cs:
                for s3, d in I.branch(s2, c):
                    out.append((I.wr(s3, r, mk('it', slice_of(src, ONE, length(src)), ())), some(x)) if d else (s3, NONE))
    return out


def compare_eq(I, st, fr, x, C):
    y = rd(I, st, C.args[1])
    t = aty(C, 1)
    while t and t[0] == 'ref':
        t = t[2]
    if not t or t[0] not in ('int', 'char', 'bool'):
        raise lib().Unsupported('next_if_eq')
    return eqi(x, y) if t[0] == 'int' else eq(x, y)


def mat(I, st, fr, it):
    try:
        return I.materialise(st, fr, it)
    except lib().Impure:
        raise lib().Unsupported('effectful iterator adaptor')


@model('Iterator.rev')
def m_rev(I, st, fr, C):
    it = self_it(I, st, fr, C)
    return [(st, mk('it', seq(rev_nodes(mat(I, st, fr, it))), ()))]


@model('Iterator.enumerate')
def m_enum(I, st, fr, C):
    c = seq(mat(I, st, fr, self_it(I, st, fr, C)))
    b = new_bv('e')
    return [(st, mk('it', seq(close_for(b, ZERO, length(c), False, (item(tup(b, elem(c, b))),))), ()))]


@model('Iterator.zip', 'iter.zip')
def m_zip(I, st, fr, C):
    a = self_it(I, st, fr, C)
    o = to_iter(I, st, C.args[1], aty(C, 1) or (C.targs[1] if len(C.targs) > 1 else None))
    b = new_bv('z')
    if a.a[0].op == 'from' or o.a[0].op == 'from':
        x, y = (a, o) if a.a[0].op == 'from' else (o, a)
        if x.a[1]:
            return None
        c = seq(mat(I, st, fr, y))
        cnt = add(x.a[0].a[0], b)
        t = tup(cnt, elem(c, b)) if x is a else tup(elem(c, b), cnt)
        return [(st, mk('it', seq(close_for(b, ZERO, length(c), False, (item(t),))), ()))]
    c, d = seq(mat(I, st, fr, a)), seq(mat(I, st, fr, o))
    n = tmin(length(c), length(d))
    if prove(st.facts, le(length(c), length(d))):
        n = length(c)
    elif prove(st.facts, le(length(d), length(c))):
        n = length(d)
    return [(st, mk('it', seq(close_for(b, ZERO, n, False, (item(tup(elem(c, b), elem(d, b))),))), ()))]


@model('Iterator.chain')
def m_chain(I, st, fr, C):
    a = self_it(I, st, fr, C)
    o = to_iter(I, st, C.args[1], aty(C, 1) or (C.targs[1] if len(C.targs) > 1 else None))
    return [(st, mk('it', seq(mat(I, st, fr, a) + mat(I, st, fr, o)), ()))]


@model('Iterator.take')
def m_itake(I, st, fr, C):
    it = self_it(I, st, fr, C)
    n = C.args[1]
    if it.a[0].op == 'repeat' and not it.a[1]:
        b = new_bv('t')
        return [(st, mk('it', seq(close_for(b, ZERO, n, False, (item(it.a[0].a[0]),))), ()))]
    if it.a[0].op == 'from' and not it.a[1]:
        b = new_bv('t')
        return [(st, mk('it', seq(close_for(b, it.a[0].a[0], add(it.a[0].a[0], n), False, (item(b),))), ()))]
    c = seq(mat(I, st, fr, it))
    out = []
    for s, b in I.branch(st, le(n, length(c))):
        out.append((s, mk('it', slice_of(c, ZERO, n) if b else c, ())))
    return out


@model('Iterator.skip')
def m_skip(I, st, fr, C):
    it = self_it(I, st, fr, C)
    n = C.args[1]
    if it.a[0].op == 'from' and not it.a[1]:
        return [(st, mk('it', mk('from', add(it.a[0].a[0], n)), ()))]
    c = seq(mat(I, st, fr, it))
    out = []
    for s, b in I.branch(st, le(n, length(c))):
        out.append((s, mk('it', slice_of(c, n, length(c)) if b else EMPTY, ())))
    return out


@model('iter.repeat')
def m_repeat(I, st, fr, C):
    return [(st, mk('it', mk('repeat', C.args[0]), ()))]


@model('iter.repeat_n')
def m_repeatn(I, st, fr, C):
    b = new_bv('t')
    return [(st, mk('it', seq(close_for(b, ZERO, C.args[1], False, (item(C.args[0]),))), ()))]


@model('str.repeat')
def m_strrepeat(I, st, fr, C):
    b = new_bv('t')
    return [(st, seq(close_for(b, ZERO, C.args[1], False, nodes_of(C.args[0]))))]


@model('iter.once')
def m_once(I, st, fr, C):
    return [(st, mk('it', seq((item(C.args[0]),)), ()))]


@model('iter.empty')
def m_iempty(I, st, fr, C):
    return [(st, mk('it', EMPTY, ()))]


# -- stepping
@model('Iterator.next')
def m_next(I, st, fr, C):
    return step(I, st, fr, C.args[0], C)


def step(I, st, fr, r, C):
    if r.op == 'itref':
        r = r.a[0]
    if r.op != 'mref':
        return None
    cur = rd(I, st, r)
    while cur.op == 'itref':
        r = cur.a[0]
        cur = rd(I, st, r)
    if cur.op == 'liter':
        return I.next_liter(st, fr, r, cur)
    if cur.op == 'litdone':
        return [(st, NONE)]
    if cur.op == 'litadv':
        raise lib().Irregular(I.liters[cur.a[0]]['lid'], 'iterator advanced twice in one pass')
    if cur.op == 'phi':
        raise lib().Unsupported('next on a generalised iterator')
    cur = I.as_iter(st, cur)
    if cur.op != 'it':
        return None
    src, stages = cur.a
    if src.op == 'slice' and not stages:
        return [(I.wr(s2, r, mk('it', slice_of(src, ONE, length(src)) if b else EMPTY, ())), some(elem(src, ZERO)) if b else NONE)
                for s2, b in I.branch(st, le(ONE, length(src)))]
    if src.op == 'repeat' and not stages:
        return [(st, some(src.a[0]))]
    if src.op == 'from' and not stages:
        return [(I.wr(st, r, mk('it', mk('from', add(src.a[0], ONE)), ())), some(src.a[0]))]
    try:
        nodes = I.materialise(st, fr, cur)
    except lib().Impure:
        # effects per item: step the source, then run the stages on the item
        if any(s.a[0] != 'map' for s in stages):
            raise lib().Unsupported('stepping an effectful iterator')
        out = []
        for s2, o, rest in step_nodes(I, st, nodes_of(src)):
            s2 = I.wr(s2, r, mk('it', rest, stages))
            if o is None:
                out.append((s2, NONE))
                continue
            vs = [(s2, o)]
            for sg in stages:
                vs = [(s4, ns[0].a[0]) for s3, x in vs for s4, ns in I.stage(s3, fr, sg, x)]
            out += [(s5, some(x)) for s5, x in vs]
        return out
    out = []
    for s2, o, rest in step_nodes(I, st, nodes):
        out.append((I.wr(s2, r, mk('it', rest, ())), NONE if o is None else some(o)))
    return out


def step_nodes(I, st, nodes):
    """[(state, item|None, rest)]"""
    if not nodes:
        return [(st, None, EMPTY)]
    if nodes[0].op == 'item':
        return [(st, nodes[0].a[0], seq(nodes[1:]))]
    c = seq(nodes)
    out = []
    for s, b in I.branch(st, nonempty(nodes)):
        if b:
            if len(nodes) == 1 and nodes[0].op == 'for' and len(nodes[0].a[4]) == 1 and nodes[0].a[4][0].op == 'item':
                bv, lo, hi, rev, body = open_for(nodes[0])
                if rev:
                    x = subst(body[0].a[0], {bv: sub(hi, ONE)})
                    rest = seq(close_for(bv, lo, sub(hi, ONE), True, body))
                else:
                    x = subst(body[0].a[0], {bv: lo})
                    rest = seq(close_for(bv, add(lo, ONE), hi, False, body))
                out.append((s, x, rest))
            elif len(nodes) == 1 and nodes[0].op == 'spl':
                d = nodes[0].a[0]
                if d.op == 'slice':
                    out.append((s, elem(d, ZERO), slice_of(d, ONE, length(d))))
                else:
                    bv = new_bv('n')
                    out.append((s, elem(d, ZERO), mk('slice', d, ONE, length(d))))
            else:
                out.append((s, first_of(nodes), mk('slice', c, ONE, length(c))))
        else:
            out.append((s, None, EMPTY))
    return out


@model('DoubleEndedIterator.next_back')
def m_nextback(I, st, fr, C):
    r = C.args[0]
    if r.op != 'mref':
        return None
    cur = rd(I, st, r)
    if cur.op in ('liter', 'litadv', 'litdone', 'phi'):
        raise lib().Unsupported('next_back in a loop')
    c = seq(mat(I, st, fr, I.as_iter(st, cur)))
    n = length(c)
    out = []
    for s, b in I.branch(st, le(ONE, n)):
        if b:
            out.append((I.wr(s, r, mk('it', slice_of(c, ZERO, sub(n, ONE)), ())), some(elem(c, sub(n, ONE)))))
        else:
            out.append((I.wr(s, r, mk('it', EMPTY, ())), NONE))
    return out


# -- consuming
def char_items(I, t, nodes):
    """do the items denote characters (rather than strings)?"""
    b = base(item_type(I, t)) if t else None
    if b in ('char',):
        return True
    if b in ('str', 'String'):
        return False
    for n in nodes:
        for x in subterms(n):
            if x.op == 'item':
                return x.a[0].op == 'chr'
            if x.op == 'call' and x.a[0] in ('char::to_lowercase', 'char::to_uppercase'):
                return True
    return None


def gather(I, st, fr, C, it, dty):
    """[(state, collected value)]"""
    b = base(dty)
    t = aty(C, 0) or (C.targs[0] if C.targs else None)
    if b in ('Vec', 'String', 'VecDeque', 'str', 'slice'):
        try:
            n0 = len(I.log)
            nodes = I.materialise(st, fr, it)
            if b == 'String':
                ci = char_items(I, t, nodes)
                if ci is None:
                    return [(st, mk('ucall', 'collect', seq(nodes)))]
                if not ci:
                    nodes = I.map_nodes(st, nodes, lambda s, v: [(s, nodes_of(v))])
            return [(st, seq(nodes))]
        except lib().Impure:
            del I.log[n0:]
        if b == 'String':
            return None
        s0, acc = I.new_root(st, EMPTY)

        def body(s, v):
            cur = I.rd(s, acc)
            return [(I.wr(s, acc, seq(nodes_of(cur) + (item(v),))), None)]
        out = []
        for s, _ in I.consume(s0, fr, it, body, C.span):
            v = I.rd(s, acc)
            s = s.copy()
            del s.mem[acc.a[0]]
            out.append((s, v))
        return out
    nodes = mat(I, st, fr, it)
    if b in ('HashMap', 'BTreeMap'):
        return [(st, mk('mfrom', seq(nodes)))]
    if b in ('HashSet', 'BTreeSet'):
        return [(st, mk('setof', seq(nodes)))]
    return None


@model('Iterator.collect', 'FromIterator.from_iter')
def m_collect(I, st, fr, C):
    it = self_it(I, st, fr, C) if C.fam == 'Iterator' else to_iter(I, st, C.args[0], aty(C, 0))
    return gather(I, st, fr, C, it, C.dty or C.targs[-1])


@model('Extend.extend')
def m_extend(I, st, fr, C):
    r = C.args[0]
    it = to_iter(I, st, C.args[1], aty(C, 1))
    t = base(aty(C, 0) or (C.targs[0] if C.targs else None))
    if t == 'String':
        nodes = mat(I, st, fr, it)
        ci = char_items(I, aty(C, 1), nodes)
        if ci is None:
            return None
        if not ci:
            nodes = I.map_nodes(st, nodes, lambda s, v: [(s, nodes_of(v))])
        return [(I.wr(st, r, seq(nodes_of(rd(I, st, r)) + nodes)), UNIT)]
    if t not in ('Vec', 'VecDeque'):
        return None
    out = []
    for s, v in gather(I, st, fr, C, it, ('adt', VEC, ())):
        out.append((I.wr(s, r, seq(nodes_of(rd(I, s, r)) + nodes_of(v))), UNIT))
    return out


@model('Iterator.fold')
def m_fold(I, st, fr, C):
    it = self_it(I, st, fr, C)
    s0, acc = I.new_root(st, C.args[1])

    def body(s, v):
        return [(I.wr(s2, acc, r), None) for s2, r in I.call_value(s, fr, C.args[2], [I.rd(s, acc), v], C.span)]
    out = []
    for s, _ in I.consume(s0, fr, it, body, C.span):
        v = I.rd(s, acc)
        s = s.copy()
        del s.mem[acc.a[0]]
        out.append((s, v))
    return out


@model('Iterator.try_fold|try_for_each')
def m_tryfold(I, st, fr, C):
    t = base(C.dty)
    if t not in ('Option', 'Result'):
        return None
    fold = C.name == 'try_fold'
    it, r = rest_of(I, st, fr, C.args[0], C)
    f = C.args[2 if fold else 1]
    s0, acc = I.new_root(st, C.args[1] if fold else UNIT)

    def body(s, v):
        out = []
        for s2, x in I.call_value(s, fr, f, ([I.rd(s, acc)] if fold else []) + [v], C.span):
            for s3, b in (opt_cases if t == 'Option' else res_cases)(I, s2, x):
                if b:
                    out.append((I.wr(s3, acc, S(x) if t == 'Option' else ok_of(x)), None))
                else:
                    out.append((s3, ('brk', NONE if t == 'Option' else err(err_of(x)))))
        return out
    out = []
    for s, brk in I.consume(s0, fr, it, body, C.span):
        v = I.rd(s, acc)
        s = s.copy()
        del s.mem[acc.a[0]]
        if r is not None:
            s = I.wr(s, r, mk('unk', 'advanced', fresh_id()))
        out.append((s, brk if brk is not None else some(v) if t == 'Option' else ok(v)))
    return out


@model('slice.binary_search')
def m_bsearch(I, st, fr, C):
    v = mk('call', 'seq::binary_search', (), rd(I, st, C.args[0]), rd(I, st, C.args[1]))
    return [(st, v)]


@model('Iterator.for_each')
def m_foreach(I, st, fr, C):
    it = self_it(I, st, fr, C)

    def body(s, v):
        return [(s2, None) for s2, r in I.call_value(s, fr, C.args[1], [v], C.span)]
    return [(s, UNIT) for s, _ in I.consume(st, fr, it, body, C.span)]


def rest_of(I, st, fr, v, C):
    """an iterator receiver passed by value or by `&mut`"""
    if v.op == 'itref':
        v = v.a[0]
    if v.op == 'mref':
        cur = I.rd(st, v)
        if cur.op in ('liter', 'litadv', 'phi', 'itref'):
            raise lib().Unsupported('%s inside a loop over the same iterator' % C.name)
        if cur.op == 'litdone':
            return mk('it', EMPTY, ()), v
        return I.as_iter(st, cur), v
    return self_it(I, st, fr, C), None


def filtered(I, st, fr, nodes, f, want=True):
    def fn(s, v):
        out = []
        for s2, r in I.call_value(s, fr, f, [v], '-'):
            for s3, b in I.branch(s2, r):
                out.append((s3, (item(v),) if b is want else ()))
        return out
    try:
        return I.map_nodes(st, nodes, fn)
    except lib().Impure:
        raise lib().Unsupported('effectful predicate')


@model('Iterator.any|all')
def m_any(I, st, fr, C):
    it, r = rest_of(I, st, fr, C.args[0], C)
    nodes = mat(I, st, fr, it)
    ns = filtered(I, st, fr, nodes, C.args[1], C.name == 'any')
    t = nonempty(ns)
    if r is not None:
        st = I.wr(st, r, mk('unk', 'advanced', fresh_id()))
    return [(st, t if C.name == 'any' else neg(t))]


@model('Iterator.find|find_map')
def m_find(I, st, fr, C):
    it, r = rest_of(I, st, fr, C.args[0], C)
    nodes = mat(I, st, fr, it)
    if C.name == 'find':
        ns = filtered(I, st, fr, nodes, C.args[1])
    else:
        try:
            ns = I.map_nodes(st, nodes, lambda s, v: I.stage(s, fr, mk('stg', 'filter_map', C.args[1], None), v))
        except lib().Impure:
            raise lib().Unsupported('effectful find_map')
    if r is not None:
        st = I.wr(st, r, mk('unk', 'advanced', fresh_id()))
    return [(s, some(first_of(ns)) if b else NONE) for s, b in I.branch(st, nonempty(ns))]


@model('Iterator.count')
def m_count(I, st, fr, C):
    return [(st, cnt_of(mat(I, st, fr, self_it(I, st, fr, C))))]


@model('Iterator.last')
def m_ilast(I, st, fr, C):
    ns = rev_nodes(mat(I, st, fr, self_it(I, st, fr, C)))
    return [(s, some(first_of(ns)) if b else NONE) for s, b in I.branch(st, nonempty(ns))]


@model('Iterator.nth')
def m_nth(I, st, fr, C):
    it, r = rest_of(I, st, fr, C.args[0], C)
    c = seq(mat(I, st, fr, it))
    k = C.args[1]
    out = []
    for s, b in I.branch(st, lt(k, length(c))):
        if r is not None:
            s = I.wr(s, r, mk('it', slice_of(c, add(k, ONE), length(c)) if b else EMPTY, ()))
        out.append((s, some(elem(c, k)) if b else NONE))
    return out


@model('ExactSizeIterator.len')
def m_eslen(I, st, fr, C):
    v = rd(I, st, C.args[0])
    return [(st, cnt_of(mat(I, st, fr, I.as_iter(st, v))))]


@model('Chars.as_str')
def m_charsasstr(I, st, fr, C):
    v = rd(I, st, C.args[0])
    if v.op == 'it' and not v.a[1]:
        return [(st, v.a[0])]
    return None


# ------------------------------------------------------------------ functions without laws: values in models only
def tagged(I, st, fr, nodes, f):
    """items paired with what f says of them"""
    try:
        return I.map_nodes(st, nodes, lambda s, v: [(s2, (item(tup(r, v)),)) for s2, r in I.call_value(s, fr, f, [v], '-')])
    except lib().Impure:
        raise lib().Unsupported('effectful predicate')


def moved(I, st, r):
    return I.wr(st, r, mk('unk', 'advanced', fresh_id())) if r is not None else st


@model('Iterator.position|rposition', 'ExactSizeIterator.rposition', 'DoubleEndedIterator.rposition')
def m_position(I, st, fr, C):
    it, r = rest_of(I, st, fr, C.args[0], C)
    t = mk('call', 'seq::' + C.name, (), seq(tagged(I, st, fr, mat(I, st, fr, it), C.args[1])))
    return [(moved(I, st, r), t)]


@model('Iterator.take_while|skip_while')
def m_takewhile(I, st, fr, C):
    it, r = rest_of(I, st, fr, C.args[0], C)
    t = mk('call', 'seq::' + C.name, (), seq(tagged(I, st, fr, mat(I, st, fr, it), C.args[1])))
    return [(moved(I, st, r), mk('it', t, ()))]


@model('Iterator.map_while')
def m_mapwhile(I, st, fr, C):
    it, r = rest_of(I, st, fr, C.args[0], C)
    t = mk('call', 'seq::map_while', (), seq(tagged(I, st, fr, mat(I, st, fr, it), C.args[1])))
    return [(moved(I, st, r), mk('it', t, ()))]


@model('Iterator.max_by_key|min_by_key')
def m_maxby(I, st, fr, C):
    it = self_it(I, st, fr, C)
    return [(st, mk('call', 'seq::' + C.name, (), seq(tagged(I, st, fr, mat(I, st, fr, it), C.args[1]))))]


@model('Iterator.max|min|sum|product')
def m_imax(I, st, fr, C):
    it = self_it(I, st, fr, C)
    return [(st, mk('call', 'seq::' + C.name, (), seq(mat(I, st, fr, it))))]


@model('Iterator.step_by')
def m_stepby(I, st, fr, C):
    it = self_it(I, st, fr, C)
    s = I.oblige(st, fr, 'step_by', le(ONE, C.args[1]), C.span)
    return [] if s is None else [(s, mk('it', mk('call', 'seq::step_by', (), seq(mat(I, st, fr, it)), C.args[1]), ()))]


@model('Iterator.partition')
def m_partition(I, st, fr, C):
    ns = mat(I, st, fr, self_it(I, st, fr, C))
    return [(st, tup(seq(filtered(I, st, fr, ns, C.args[1])), seq(filtered(I, st, fr, ns, C.args[1], False))))]


@model('Iterator.unzip')
def m_unzip(I, st, fr, C):
    ns = mat(I, st, fr, self_it(I, st, fr, C))
    return [(st, tup(*[seq(I.map_nodes(st, ns, lambda s, v, k=k: [(s, (item(fld(v, 'tuple', k)),))])) for k in (0, 1)]))]


@model('DoubleEndedIterator.rfind')
def m_rfind(I, st, fr, C):
    it, r = rest_of(I, st, fr, C.args[0], C)
    ns = filtered(I, st, fr, rev_nodes(mat(I, st, fr, it)), C.args[1])
    st = moved(I, st, r)
    return [(s, some(first_of(ns)) if b else NONE) for s, b in I.branch(st, nonempty(ns))]


@model('slice.chunks|chunks_exact')
def m_chunks(I, st, fr, C):
    c = rd(I, st, C.args[0])
    s = I.oblige(st, fr, C.name, le(ONE, C.args[1]), C.span)
    return [] if s is None else [(s, mk('it', mk('call', 'seq::' + C.name, (), c, C.args[1]), ()))]


@model('slice.join', 'Join.join')
def m_join(I, st, fr, C):
    return [(st, mk('call', 'seq::join', (), rd(I, st, C.args[0]), rd(I, st, C.args[1])))]


@model('slice.starts_with|ends_with')
def m_sstarts(I, st, fr, C):
    return [(st, mk('call', 'seq::' + C.name, (), rd(I, st, C.args[0]), rd(I, st, C.args[1])))]


@model('slice.iter_position')
def m_none(I, st, fr, C):
    return None


@model('str.is_ascii', 'str.strip_prefix|strip_suffix|trim_end_matches|trim_start_matches|trim_matches|replace|rfind|split_once|rsplit_once')
def m_strfn2(I, st, fr, C):
    return [(st, with_pattern(I, st, fr, C))]


@model('str.bytes|lines|split_whitespace|split_ascii_whitespace')
def m_stri(I, st, fr, C):
    return [(st, mk('it', mk('call', 'str::' + C.name, (), rd(I, st, C.args[0])), ()))]


@model('str.as_bytes|into_bytes', 'String.as_bytes|into_bytes')
def m_asbytes(I, st, fr, C):
    return [(st, mk('call', 'str::bytes', (), rd(I, st, C.args[0])))]


@model('str.split|rsplit|split_terminator|split_inclusive|matches|match_indices')
def m_ssplit(I, st, fr, C):
    return [(st, mk('it', with_pattern(I, st, fr, C), ()))]


@model('str.splitn|rsplitn')
def m_ssplitn(I, st, fr, C):
    return [(st, mk('it', mk('call', 'str::' + C.name, (), *[rd(I, st, a) for a in C.args]), ()))]


@model('String.pop')
def m_spop(I, st, fr, C):
    return m_pop(I, st, fr, C)


@model('String.insert')
def m_sinsert(I, st, fr, C):
    if C.args[1] is not ZERO:
        return None
    return [(I.wr(st, C.args[0], seq((item(C.args[2]),) + nodes_of(rd(I, st, C.args[0])))), UNIT)]


@model('String.insert_str')
def m_sinsertstr(I, st, fr, C):
    if C.args[1] is not ZERO:
        return None
    return [(I.wr(st, C.args[0], seq(nodes_of(rd(I, st, C.args[2])) + nodes_of(rd(I, st, C.args[0])))), UNIT)]


@model('String.remove')
def m_sremove(I, st, fr, C):
    if C.args[1] is not ZERO:
        return None
    cur = rd(I, st, C.args[0])
    s = I.oblige(st, fr, 'String::remove', le(ONE, length(cur)), C.span)
    return [] if s is None else [(I.wr(s, C.args[0], slice_of(cur, ONE, length(cur))), elem(cur, ZERO))]


@model('String.retain')
def m_sretain(I, st, fr, C):
    return m_vretain(I, st, fr, C)


@model('String.truncate')
def m_struncate(I, st, fr, C):
    return [(I.wr(st, C.args[0], mk('call', 'str::truncated', (), rd(I, st, C.args[0]), C.args[1])), UNIT)]


@model('Vec.drain', 'VecDeque.drain')
def m_drain(I, st, fr, C):
    cur = rd(I, st, C.args[0])
    rb = range_bounds(C.args[1], length(cur)) if C.args[1].op == 'agg' else \
        (ZERO, length(cur)) if is_range(C.args[1], aty(C, 1)) and 'RangeFull' in str(C.args[1]) + str(aty(C, 1)) else None
    if rb is None:
        return None
    lo, hi = rb
    s = I.oblige(st, fr, 'drain', le(lo, hi), C.span)
    s = s and I.oblige(s, fr, 'drain', le(hi, length(cur)), C.span)
    if s is None:
        return []
    rest = seq(nodes_of(slice_of(cur, ZERO, lo)) + nodes_of(slice_of(cur, hi, length(cur))))
    if lo is ZERO and hi is length(cur):
        rest = EMPTY
    return [(I.wr(s, C.args[0], rest), mk('it', slice_of(cur, lo, hi), ()))]


@model('Vec.split_off')
def m_splitoff(I, st, fr, C):
    cur, i = rd(I, st, C.args[0]), C.args[1]
    s = I.oblige(st, fr, 'split_off', le(i, length(cur)), C.span)
    return [] if s is None else [(I.wr(s, C.args[0], slice_of(cur, ZERO, i)), slice_of(cur, i, length(cur)))]


@model('Vec.swap_remove')
def m_swapremove(I, st, fr, C):
    cur, i = rd(I, st, C.args[0]), C.args[1]
    n = sub(length(cur), ONE)
    s = I.oblige(st, fr, 'swap_remove', lt(i, length(cur)), C.span)
    return [] if s is None else [(I.wr(s, C.args[0], slice_of(upd(cur, i, elem(cur, n)), ZERO, n)), elem(cur, i))]


@model('slice.rotate_left|rotate_right')
def m_rotate(I, st, fr, C):
    cur, k = rd(I, st, C.args[0]), C.args[1]
    s = I.oblige(st, fr, 'rotate', le(k, length(cur)), C.span)
    if s is None:
        return []
    k = k if C.name == 'rotate_left' else sub(length(cur), k)
    return [(I.wr(s, C.args[0], seq(nodes_of(slice_of(cur, k, length(cur))) + nodes_of(slice_of(cur, ZERO, k)))), UNIT)]


# -- sets are maps to ()
@model('HashSet|BTreeSet.insert')
def m_setinsert(I, st, fr, C):
    r, k = C.args
    m = rd(I, st, r)
    return [(I.wr(s, r, mset(m, k, UNIT)), FALSE if b else TRUE) for s, b in I.is_some(st, mget(m, k))]


@model('HashSet|BTreeSet.contains')
def m_setcontains(I, st, fr, C):
    return [(s, TRUE if b else FALSE) for s, b in I.is_some(st, mget(rd(I, st, C.args[0]), rd(I, st, C.args[1])))]


@model('HashSet|BTreeSet.remove')
def m_setremove(I, st, fr, C):
    r, k = C.args[0], rd(I, st, C.args[1])
    m = rd(I, st, r)
    return [(I.wr(s, r, mk('mdel', m, k)), TRUE if b else FALSE) for s, b in I.is_some(st, mget(m, k))]


@model('HashMap|BTreeMap.remove')
def m_hremove(I, st, fr, C):
    r, k = C.args[0], rd(I, st, C.args[1])
    m = rd(I, st, r)
    return [(I.wr(st, r, mk('mdel', m, k)), mget(m, k))]


@model('HashSet|BTreeSet.len', 'BTreeMap.len')
def m_setlen(I, st, fr, C):
    return [(st, mk('ucall', 'HashMap::len', rd(I, st, C.args[0])))]


@model('HashSet|BTreeSet.is_empty', 'BTreeMap.is_empty')
def m_setempty(I, st, fr, C):
    return [(st, mk('ucall', 'HashMap::is_empty', rd(I, st, C.args[0])))]


@model('HashSet.iter|drain', 'BTreeSet.iter')
def m_setiter(I, st, fr, C):
    return [(st, mk('it', mk('hashseq' if C.fam == 'HashSet' else 'btseq', 'keys', rd(I, st, C.args[0])), ()))]


@model('BTreeSet.new', 'BTreeMap.new')
def m_btnew(I, st, fr, C):
    return [(st, mk('mempty'))]
