"""python3 tools/mkseed.py SPEC.py : makes seeded/<id>/ after confirming it in a scratch copy.

SPEC.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Rust main.rs),
optionally DEPS (extra crates: 'layered-amount', ...)."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/seedrepo'
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" || exit 2
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
layered-nlp = { path = "$repo" }
%s
E
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:$PATH
cd "$t" && timeout 200 cargo run --offline -q
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def tests(copy):
    env = dict(os.environ, CARGO_TARGET_DIR=copy + '/target', INSTA_UPDATE='no', CARGO_NET_OFFLINE='true',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    r = sh('cargo test --workspace --no-fail-fast --offline -q 2>&1', copy, env=env)
    return r.returncode == 0, r.stdout[-1500:]


def main():
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        d = os.path.join(ROOT, 'seeded', ns['ID'])
        if not os.path.isdir(COPY):
            sh(['cp', '-a', '/repo', COPY], '/')
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', COPY)
        for f, old, new in ns['EDITS']:
            q = os.path.join(COPY, f)
            s = open(q).read()
            assert s.count(old) >= 1, (spec, f, 'pattern not found', old)
            assert s.count(old) == 1, (spec, f, 'pattern ambiguous', old)
            open(q, 'w').write(s.replace(old, new))
        patch = sh('git diff', COPY).stdout
        ok, log = tests(COPY)
        if not ok:
            print(ns['ID'], 'REJECTED: tests fail\n', log)
            continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.rs', 'w').write(ns['DEMO'])
        deps = '\n'.join('%s = { path = "$repo/%s" }' % (x, x) for x in ns.get('DEPS', ()))
        open(d + '/demo.sh', 'w').write(DEMO_SH % deps)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        bad = sh(['bash', d + '/demo.sh'], COPY)
        sh('git checkout -q -- .', COPY)
        good = sh(['bash', d + '/demo.sh'], COPY)
        if good.returncode == 0 and bad.returncode != 0:
            print(ns['ID'], 'kept; with the change:', (bad.stderr.strip().splitlines() or [''])[:3])
        else:
            print(ns['ID'], 'REJECTED: demo', good.returncode, bad.returncode, good.stderr[-800:], bad.stderr[-800:])
            shutil.rmtree(d)


main()
