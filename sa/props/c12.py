"""C12: the guarantees the type system gives to every program that uses the library.

Three rules: (1) the source has no unsafe code; (2) witness programs that must (not) type-check,
each next to a control program that differs in one point; (3) signature and effect rules over
every function reachable from outside: nobody but `run` changes a finished line, and spans
(tokens, match end points, selections, assignments) come only from the library."""
import glob
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import mir
import cg
from check import *

SPANS = ('ToIdx', 'LLSelection', 'LLCursorAssignment', 'LLToken')
SEALED = {'ToIdx': 'x::ToIdx', 'LLSelection': 'LLSelection', 'LLCursorAssignment': 'LLCursorAssignment',
          'LLLine': 'LLLine', 'AnyAttribute': 'AnyAttribute', 'LLToken': 'LLToken'}
INT = ('int', 'uint')


# ------------------------------------------------------------------ witnesses
RES = '''#![allow(dead_code)]
use layered_nlp::{Resolver, LLSelection, LLCursorAssignment};
%(decl)s
pub struct R%(g)s(std::marker::PhantomData<A%(g)s>);
impl%(g)s Resolver for R%(g)s {
    type Attr = A%(g)s;
    fn go(&self, _: LLSelection) -> Vec<LLCursorAssignment<A%(g)s>> { Vec::new() }
}
'''
ANY = '''#![allow(dead_code)]
use layered_nlp::AnyAttribute;
%(decl)s
pub fn f%(g)s(a: A%(g)s) -> AnyAttribute { AnyAttribute::new(a) }
'''
ADD = '''#![allow(dead_code)]
use layered_nlp::InputToken;
%(decl)s
pub fn f%(g)s(t: &mut InputToken, a: A%(g)s) { t.add_attr(a) }
'''
GOOD = '#[derive(Debug)] pub struct A(u8);'
BAD = {
    'Debug': ('pub struct A(u8);', ''),
    'Send': ("#[derive(Debug)] pub struct A(std::sync::MutexGuard<'static, u8>);", ''),
    'Sync': ('#[derive(Debug)] pub struct A(std::cell::Cell<u8>);', ''),
    'static': ("#[derive(Debug)] pub struct A<'a>(&'a u8);", "<'a>"),
}
AUTO = '''pub fn need<T: %s>() {}
pub fn f() { need::<layered_nlp::LLLine>() }
'''


def witnesses(P):
    """(key, what it shows, control program, program, must it compile)"""
    for route, txt, what in (('resolver', RES, 'attributes assigned by resolvers'),
                             ('any_attribute', ANY, 'attributes of input tokens'),
                             ('add_attr', ADD, 'attributes added to input tokens')):
        for b, (decl, g) in BAD.items():
            yield ('%s.%s' % (route, b), '%s must be %s' % (what, "'static" if b == 'static' else b),
                   txt % {'decl': GOOD, 'g': ''}, txt % {'decl': decl, 'g': g}, False)
    for t in ('Send', 'Sync'):
        yield ('line.%s' % t, 'a finished line is %s' % t, AUTO % "Sized", AUTO % t, True)
    yield ('line.thread', 'a finished line moves into a thread and is shared between threads',
           'use layered_nlp::LLLine;\npub fn f(l: LLLine) { drop(l.ll_tokens().len()) }\n',
           'use layered_nlp::LLLine;\npub fn f(l: LLLine) { std::thread::scope(|s| { let l = &l; s.spawn(move || l.ll_tokens().len()); '
           's.spawn(move || l.ll_tokens().len()); }); std::thread::spawn(move || drop(l)); }\n', True)
    for name, path in SEALED.items():
        i = P.adt_named(name, 'layered_nlp')
        if not i:
            continue
        v = P.adts[i]['variants']
        if len(v) != 1:
            continue
        fs = [q['name'] for q in v[0]['fields']]
        gen = '<u8>' if name == 'LLCursorAssignment' else ''
        lit = '{ %s }' % ', '.join('%s: todo!()' % q for q in fs)
        yield ('sealed.%s' % name, '%s cannot be built outside the library' % name,
               'pub fn f(x: layered_nlp::%s%s) { drop(x) }\n' % (path, gen),
               '#![allow(unreachable_code)]\npub fn f() -> layered_nlp::%s%s { layered_nlp::%s %s }\n' % (path, gen, path, lit), False)


def build_metadata(tmp):
    src = mir.REPO
    if not os.path.exists(os.path.join(src, 'Cargo.lock')):
        src = os.path.join(tmp, 'src')
        shutil.copytree(mir.REPO, src, ignore=shutil.ignore_patterns('.git', 'target'))
        if os.path.exists('/opt/vp/Cargo.lock'):
            shutil.copy('/opt/vp/Cargo.lock', os.path.join(src, 'Cargo.lock'))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, 'target'))
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-p', 'layered-nlp', '--lib'], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    every = glob.glob(os.path.join(tmp, 'target', '**', 'lib*.rmeta'), recursive=True)
    deps = sorted({os.path.dirname(x) for x in every})
    m = [x for x in every if os.path.basename(x).startswith('liblayered_nlp-')]
    if r.returncode or len(m) != 1:
        raise interp.Unsupported('type-checking the library failed: ' + r.stdout[-300:])
    return deps, m[0]


def typecheck(tmp, deps, lib, name, text):
    f = os.path.join(tmp, name + '.rs')
    open(f, 'w').write(text)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata',
                        '-o', os.path.join(tmp, name + '.rmeta'), '--extern', 'layered_nlp=' + lib] +
                       [x for d in deps for x in ('-L', 'dependency=' + d)] + ['--cap-lints', 'allow', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    codes = [x for x in re.findall(r'^error(?:\[(E\d+)\])?: (.*)$', r.stdout, re.M) if not x[1].startswith('aborting')]
    return r.returncode == 0, codes


def run_witnesses(ctx, R):
    ws = list(witnesses(ctx.P))
    tmp = tempfile.mkdtemp(prefix='witness-')
    try:
        deps, lib = build_metadata(tmp)

        def go(w):
            k = w[0].replace('.', '_')
            return typecheck(tmp, deps, lib, k + '_control', w[2]), typecheck(tmp, deps, lib, k, w[3])
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(go, ws))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for (key, what, ctl, txt, must), ((cok, cerr), (ok, err)) in zip(ws, res):
        R.count('witness programs', 2)
        rule = 'witness program %s, its control compiles' % ('compiles' if must else 'is rejected by the type checker')
        e = '; '.join('%s %s' % x for x in err[:2])
        if not cok:
            ce = [c for c, _ in cerr]
            if key.startswith('sealed.') and ce and all(c in ('E0425', 'E0412', 'E0432', 'E0433', 'E0603') for c in ce) and not ok:
                R.add(key, PROVED, '', rule, '%s: its name is not even visible outside (%s)' % (what, '; '.join('%s %s' % x for x in cerr[:1])))
            else:
                R.add(key, OPEN, '', rule, 'the control program does not compile: %s' % cerr[:2])
        elif ok == must:
            R.add(key, PROVED, '', rule, '%s%s' % (what, '' if must else ': rejected with %s' % e))
        else:
            R.add(key, REFUTED, 'program outside the library:\n' + txt, rule,
                  '%s: the program %s' % (what, 'is rejected: %s' % e if must else 'type-checks'))


# ------------------------------------------------------------------ unsafe code
def no_unsafe(ctx, R):
    import json
    d = mir.export()
    n = 0
    for f in sorted(os.listdir(d)):
        if not f.endswith('.json'):
            continue
        j = json.load(open(os.path.join(d, f)))
        rule = 'no unsafe block, function, impl, trait or foreign item in crate %s' % j['crate']
        bad = [(x['kind'], x['id'], x['span']) for x in j['special'] if x['kind'] in ('unsafe_block', 'unsafe_trait', 'foreign_mod')]
        bad += [('static mut', x['id'], x['span']) for x in j['special'] if x['kind'] == 'static' and x['mut']]
        bad += [('unsafe impl of %s' % i['trait'], i['id'], i['span']) for i in j['impls'] if i.get('unsafe') and not i.get('derived')]
        bad += [('unsafe fn', b['id'], b['span']) for b in j['bodies'] if b.get('unsafe')]
        n += len(j['bodies']) + len(j['impls']) + len(j['adts'])
        for k, i, s in bad:
            R.add('unsafe.%s' % i, REFUTED, '%s (%s)' % (i, s), rule, k)
        if not bad:
            R.add('unsafe.%s' % j['crate'], PROVED, j['crate'], rule, '%d bodies, %d impls' % (len(j['bodies']), len(j['impls'])))
    R.count('items scanned for unsafe code', n)


# ------------------------------------------------------------------ signatures
def parts(t):
    """the types inside a type, with whether they are owned or behind &/&mut"""
    out = []

    def go(x, how):
        if not isinstance(x, tuple) or not x:
            return
        if not isinstance(x[0], str):
            for y in x:
                go(y, how)
            return
        if x[0] == 'ref':
            h = 'ref' if not x[1] or how == 'ref' else 'mut'
            for y in x[2:]:
                go(y, h)
            return
        out.append((x, how))
        for y in x[1:]:
            if isinstance(y, tuple):
                go(y, how)
    go(t, 'own')
    return out


def has(t, names, how=('own', 'mut', 'ref')):
    return any(x[0] == 'adt' and x[1].split('::')[-1] in names and x[1].startswith('layered_nlp') and h in how for x, h in parts(t))


def ints(t, how=('own', 'mut', 'ref')):
    return any(x[0] in INT and h in how for x, h in parts(t))


def field_writes(P, b, line):
    """statements of b that change something inside a line"""
    out = []

    def through(pl):
        return any(e[0] == 'field' and e[3] == line for e in pl['p'])

    for bl in b.blocks:
        for s in bl['s']:
            if s[0] == 'assign':
                if through(s[1]):
                    out.append(s)
                v = s[2]
                if isinstance(v, list) and v and v[0] == 'ref' and v[1] == 'mut' and isinstance(v[2], dict) and through(v[2]):
                    out.append(s)
        t = bl['t']
        if t['k'] == 'call' and through(t['dest']):
            out.append(t)
    return out


def signatures(ctx, R):
    P = ctx.P
    G = cg.Graph(P)
    line = P.adt_named('LLLine', 'layered_nlp')
    if not line:
        R.add('line.anchor', REFUTED, '', 'the public item must exist', 'LLLine not found')
        return
    run = P.method('LLLine', 'run')
    writers = {b.id: field_writes(P, b, line) for b in P.bodies.values()}
    reach = [b for b in P.bodies.values() if b.kind == 'fn' and b.reachable]
    n = bad = 0
    for b in sorted(reach, key=lambda b: b.id):
        n += 1
        ins, out = b.locals[1:1 + b.argc], b.locals[0]
        # public fields are covered below; here: functions
        if any(has(t, ('LLLine',), ('mut',)) for t in ins) or any(has(t, ('LLLine',), ('own',)) for t in ins):
            if run is not None and b.id == run.id:
                continue
            seen, todo, w = set(), [b.id], None
            while todo:
                i = todo.pop()
                if i in seen or (run is not None and i == run.id):
                    continue
                seen.add(i)
                if writers.get(i):
                    w = i
                    break
                todo += [j for j, _ in G.out.get(i, ())]
            gives = has(out, ('LLLine', 'LLToken', 'LLLineAttrs', 'TypeBucket', 'TypeIdToMany', 'LToken'), ('mut',))
            if w or gives:
                bad += 1
                R.add('line.changed_by.%s' % b.id, REFUTED, site(b), 'a finished line changes only by running a resolver',
                      'a public function changes a line without a resolver: %s' % (
                          'path %s -> %s' % (b.id, w) if w else 'it returns a mutable reference into the line'))
        rule = 'spans come only from the library'
        makes = [s for s in SPANS if has(out, (s,), ('own',))]
        for s in makes:
            lib = any(has(t, SPANS + ('LLLine', 'XForwards', 'XBackwards')) or any(x[0] in ('param', 'other') for x, _ in parts(t)) for t in ins)
            if not lib:
                bad += 1
                R.add('span.made_by.%s' % b.id, REFUTED, site(b), rule, 'a public function makes a %s out of nothing of the library' % s)
            elif any(ints(t) for t in ins) and s != 'LLSelection':
                bad += 1
                R.add('span.made_by.%s' % b.id, REFUTED, site(b), rule, 'a public function makes a %s from a number the caller chooses' % s)
            elif any(ints(t) for t in ins):
                R.add('span.made_by.%s' % b.id, OPEN, site(b), rule, 'a public function makes a selection from numbers the caller chooses')
        for t in ins:
            if has(t, ('ToIdx', 'LLSelection', 'LLCursorAssignment'), ('mut',)) and (ints(out, ('mut',)) or any(ints(u) for u in ins)):
                bad += 1
                R.add('span.changed_by.%s' % b.id, REFUTED, site(b), rule, 'a public function lets the caller change a span')
                break
    if not bad:
        R.add('signatures', PROVED, '', 'no public function changes a line (except run) or makes spans from caller data', '%d public functions' % n)
    R.count('public functions', n)
    nf = bad = 0
    for name in SEALED:
        i = P.adt_named(name, 'layered_nlp')
        if not i:
            R.add('fields.%s' % name, OPEN, '', 'private fields', '%s not found' % name)
            continue
        a = P.adts[i]
        for v in a['variants']:
            for q in v['fields']:
                nf += 1
                if q['pub'] and a['reachable'] and not (name == 'LLCursorAssignment' and q['ty'][0] == 'param') and name != 'LLToken':
                    bad += 1
                    R.add('fields.%s.%s' % (name, q['name']), REFUTED, '%s (%s)' % (i, a['span']), 'fields that make up spans and lines are private',
                          'field %s of %s can be read and changed outside the library' % (q['name'], name))
    if not bad:
        R.add('fields', PROVED, '', 'fields that make up spans and lines are private', '%d fields' % nf)


def run_c12(ctx, R):
    R.guard('unsafe', lambda: no_unsafe(ctx, R))
    R.guard('signatures', lambda: signatures(ctx, R))
    R.guard('witnesses', lambda: run_witnesses(ctx, R))


META = {
    'C12': dict(run=run_c12, floor=6,
                explanation='Source scan for unsafe code in every crate of the workspace; signature and effect rules over every publicly reachable '
                            'function and the fields of the sealed types; witness programs type-checked against the current tree, each with a control '
                            'program that differs in one point, so that only the property decides whether it compiles.'),
}
