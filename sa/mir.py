"""Runs the MIR exporter on /repo's current tree and loads the result."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
import terms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
DRIVER = os.path.join(VERIF, 'mirdump/target/release/mirdump')
CACHE = os.path.join(VERIF, '.cache')


class ExportError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def build_driver():
    src = os.path.join(VERIF, 'mirdump', 'src', 'main.rs')
    if not os.path.exists(DRIVER) or os.path.getmtime(DRIVER) < os.path.getmtime(src):
        r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline'],
                           cwd=os.path.join(VERIF, 'mirdump'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ExportError('building the MIR exporter failed:\n' + r.stdout[-3000:])


def tree_hash(repo):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(repo)):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, repo).encode() + b'\0')
                h.update(open(p, 'rb').read() + b'\0')
    h.update(open(DRIVER, 'rb').read())
    return h.hexdigest()[:24]


def export(repo=REPO, extra_flags=''):
    """returns directory with the crate JSONs, exporting if this exact tree is not cached"""
    build_driver()
    key = tree_hash(repo) + hashlib.sha256(extra_flags.encode()).hexdigest()[:6]
    out = os.path.join(CACHE, 'mir-' + key)
    if os.path.exists(os.path.join(out, 'DONE')):
        try:
            os.utime(out)
        except OSError:
            pass
        return out
    tmp = tempfile.mkdtemp(prefix='mirdump-')
    try:
        js = os.path.join(tmp, 'json')
        os.makedirs(js)
        env = dict(os.environ)
        sr = sysroot()
        env['LD_LIBRARY_PATH'] = sr + '/lib'
        env['MIRDUMP_OUT'] = js
        env['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
        env['CARGO_TARGET_DIR'] = os.path.join(tmp, 'target')
        if extra_flags:
            env['RUSTFLAGS'] = extra_flags
        # never write into the analysed tree: work on a copy of its sources when it has no lock file
        src = repo
        if not os.path.exists(os.path.join(repo, 'Cargo.lock')):
            src = os.path.join(tmp, 'src')
            shutil.copytree(repo, src, ignore=shutil.ignore_patterns('.git', 'target'))
            if os.path.exists('/opt/vp/Cargo.lock'):
                shutil.copy('/opt/vp/Cargo.lock', os.path.join(src, 'Cargo.lock'))
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--workspace', '--lib'],
                           cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        names = sorted(os.listdir(js))
        if r.returncode or not names:
            raise ExportError('exporting MIR of %s failed:\n%s' % (repo, r.stdout[-4000:]))
        os.makedirs(CACHE, exist_ok=True)
        # keep the cache small
        def age(d):
            try:
                return os.path.getmtime(d)
            except OSError:        # another run has just removed it
                return 0
        old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('mir-')), key=age)
        for d in old[:-40]:
            shutil.rmtree(d, ignore_errors=True)
        stage = tempfile.mkdtemp(prefix='stage-', dir=CACHE)
        for f in names:
            shutil.copy(os.path.join(js, f), stage)
        open(os.path.join(stage, 'DONE'), 'w').write('\n'.join(names))
        try:
            os.rename(stage, out)
        except OSError:
            shutil.rmtree(stage, ignore_errors=True)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tt(x):
    return tuple(tt(y) for y in x) if isinstance(x, list) else x


class Body:
    pass


def _conv_place(p):
    p['p'] = [tuple(x) for x in p['p']]
    p['ty'] = tt(p['ty'])


def _walk(x):
    if isinstance(x, dict):
        if 'l' in x and 'p' in x:
            _conv_place(x)
            return
        for k, v in x.items():
            if k in ('ty', 'self_ty', 'dty', 'args', 'rargs') and isinstance(v, list) and not (k == 'args' and v and isinstance(v[0], list) and v[0] and v[0][0] in ('copy', 'move', 'const')):
                x[k] = tt(v)
            else:
                _walk(v)
    elif isinstance(x, list):
        for y in x:
            _walk(y)


class Program:
    def traits_of(self, adt):
        return {i['trait'].split('<')[0].split('::')[-1] for i in self.impls
                if i.get('trait') and i['self_ty'][0] == 'adt' and i['self_ty'][1] == adt}

    def __init__(self, d):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.crates = []
        for f in sorted(os.listdir(d)):
            if not f.endswith('.json'):
                continue
            j = json.load(open(os.path.join(d, f)))
            self.crates.append(j['crate'])
            for b in j['bodies']:
                o = Body()
                o.__dict__.update(b)
                o.crate = j['crate']
                o.locals = [tt(t) for t in b['locals']]
                o.self_ty = tt(b['self_ty']) if 'self_ty' in b else None
                o.impl_trait = b.get('impl_trait')
                o.in_trait = b.get('in_trait')
                o.name = b.get('name')
                o.reachable = b.get('reachable')
                _walk(o.blocks)
                o.names = [(n, p) for n, p in b['names']]
                for _, p in o.names:
                    _conv_place(p)
                self._cfg(o)
                self.bodies[o.id] = o
            for a in j['adts']:
                a['crate'] = j['crate']
                for v in a['variants']:
                    for q in v['fields']:
                        q['ty'] = tt(q['ty'])
                self.adts[a['id']] = a
            for k, vs in j.get('enums', ()):
                if not k.startswith(('core::', 'alloc::', 'std::')):
                    terms.VARIANTS[k] = [n for n, _ in vs]
                    if [d for _, d in vs] != list(range(len(vs))):
                        terms.DISCR[k] = [d for _, d in vs]
            for i in j['impls']:
                i['crate'] = j['crate']
                i['self_ty'] = tt(i['self_ty'])
                self.impls.append(i)
        for a in self.adts.values():
            vs = a['variants']
            if a.get('kind') == 'enum' or len(vs) != 1 or vs[0]['name'] != a['id'].split('::')[-1]:
                terms.VARIANTS[a['id']] = [v['name'] for v in vs]
            else:
                terms.STRUCT_ARITY[a['id']] = len(vs[0]['fields'])
                for i, q in enumerate(vs[0]['fields']):
                    terms.FNAMES[(a['id'], i)] = q['name']

    # -------------------------------------------------------- control flow
    def succs(self, t):
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['t']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        if k == 'switch':
            return [b for _, b in t['cases']] + [t['otherwise']]
        return []

    def _cfg(self, o):
        n = len(o.blocks)
        succ = [self.succs(b['t']) for b in o.blocks]
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(succ[x])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for x in succ[b]:
                pred[x].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        o.irreducible = False
        for b in rpo:
            for x in succ[b]:
                if pos[x] <= pos[b]:
                    if dom(x, b):
                        body = loops.setdefault(x, {x})
                        st = [b]
                        while st:
                            y = st.pop()
                            if y not in body:
                                body.add(y)
                                st.extend(pred[y])
                    else:
                        o.irreducible = True
        o.loops = loops
        o.rpo = rpo
        self._live(o, succ, rpo)

    def _live(self, o, succ, rpo):
        use, dfn = {}, {}
        always = set()

        def pl_use(p, u):
            u.add(p['l'])
            for x in p['p']:
                if x[0] == 'index':
                    u.add(x[1])

        def op_use(x, u):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('copy', 'move') and isinstance(x[1], dict):
                    pl_use(x[1], u)
                    return
                if x and x[0] == 'ref' and len(x) == 3 and isinstance(x[2], dict):
                    pl_use(x[2], u)
                    if x[1] == 'mut':
                        always.add(x[2]['l'])
                    return
                if x and x[0] in ('rawptr', 'discr') and isinstance(x[1], dict):
                    pl_use(x[1], u)
                    return
                for y in x:
                    op_use(y, u)
        for b in rpo:
            u, d = set(), set()

            def assign(p, u=u, d=d):
                if p['p']:
                    uu = set()
                    pl_use(p, uu)
                    u.update(uu - d)
                else:
                    d.add(p['l'])
            bl = o.blocks[b]
            for s in bl['s']:
                if s[0] == 'assign':
                    uu = set()
                    op_use(s[2], uu)
                    u.update(uu - d)
                    assign(s[1])
                else:
                    assign(s[1])
            t = bl['t']
            uu = set()
            if t['k'] == 'call':
                op_use(t['f'], uu)
                op_use(t['args'], uu)
                u.update(uu - d)
                assign(t['dest'])
            elif t['k'] == 'switch':
                op_use(t['d'], uu)
                u.update(uu - d)
            elif t['k'] == 'assert':
                op_use(t['cond'], uu)
                op_use(t['msg'], uu)
                u.update(uu - d)
            elif t['k'] == 'return':
                u.update({0} - d)
            use[b], dfn[b] = u, d
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set()
                for x in succ[b]:
                    out |= live[x]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        o.live = live
        o.always_live = always

    # -------------------------------------------------------- lookups
    def find_fns(self, pred):
        return [b for b in self.bodies.values() if b.kind == 'fn' and pred(b)]

    def adt_named(self, name, crate=None):
        r = [a for a in self.adts.values() if a['id'].split('::')[-1] == name and (crate is None or a['crate'] == crate)]
        return r[0]['id'] if len(r) == 1 else None

    def method(self, adt, name, trait=None):
        r = []
        for b in self.bodies.values():
            if b.kind != 'fn' or b.name != name or b.self_ty is None:
                continue
            if b.self_ty[0] == 'adt' and b.self_ty[1].split('::')[-1] == adt:
                if (trait is None and b.impl_trait is None) or (trait is not None and b.impl_trait and b.impl_trait.split('<')[0].split('::')[-1] == trait):
                    r.append(b)
        return r[0] if len(r) == 1 else None

    def free_fn(self, name, crate=None):
        r = [b for b in self.bodies.values() if b.kind == 'fn' and b.name == name and b.self_ty is None
             and b.in_trait is None and (crate is None or b.crate == crate)]
        return r[0] if len(r) == 1 else None


_prog = None


def load():
    global _prog
    if _prog is None:
        _prog = Program(export())
    return _prog
