"""Development aid: run checks on mutated copies of /repo (never registered in MANIFEST).
usage: mutate.py [-j N] [-t] FILE.py [id-substring]     FILE defines M = [(id, props, expect, [(file, old, new), ..]), ..]
expect: V (some listed check must report), Q (all listed checks must be quiet)   -t: also run the tests"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(m, tests):
    mid, props, expect, edits = m
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        subprocess.run(['rsync', '-a', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/'], check=True)
        if isinstance(edits, str):
            r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, edits], cwd='/', capture_output=True, text=True)
            if r.returncode:
                return mid, 'BAD', r.stderr[:300]
        else:
            for f, old, new in edits:
                p = os.path.join(d, f)
                s = open(p).read()
                if old not in s:
                    return mid, 'BAD', 'pattern not found: ' + old[:60]
                open(p, 'w').write(s.replace(old, new, 1))
        note = ''
        if tests:
            r = subprocess.run(['cargo', 'test', '--offline', '--workspace', '--quiet'], cwd=d, capture_output=True, text=True,
                               env=dict(os.environ, CARGO_TARGET_DIR='/tmp/mut-target'))
            note = 'tests %s; ' % ('pass' if r.returncode == 0 else 'FAIL')
        out = []
        for p in props:
            r = subprocess.run(['python3', os.path.join(VERIF, 'sa/run.py'), p], capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=d, SA_NOWRITE='1'))
            o = [l for l in (r.stdout + r.stderr).splitlines()]
            out.append((p, r.returncode, o))
        codes = [c for _, c, _ in out]
        got = 'V' if 1 in codes else 'E' if any(c not in (0, 1) for c in codes) else 'Q'
        ops = [l.strip()[:260] for _, c, o in out for l in o if l.strip().startswith('OPEN')]
        v = [l.strip()[:330] for p, c, o in out if c == 1 for l in o[1:6]]
        e = [o[-3:] for p, c, o in out if c not in (0, 1)]
        return mid, ('ok ' if got == expect else 'MISS') + ' %s' % got, note + ' '.join('%s=%d' % (p, c) for p, c, _ in out) + \
            ('\n      ' + '\n      '.join(v if got == 'V' else ops) if (v or ops) else '') + (str(e) if e else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    j, tests, every = 6, False, False
    while a and a[0].startswith('-'):
        if a[0] == '-j':
            j = int(a[1]); a = a[2:]
        elif a[0] == '-t':
            tests = True; a = a[1:]
        elif a[0] == '-q':      # only the behaviour-preserving ones, every check
            every = True; a = a[1:]
    ns = {}
    exec(open(a[0]).read(), ns)
    ms = [m for m in ns['M'] if len(a) < 2 or a[1] in m[0]]
    if every:
        ms = [(m[0], ['C%02d' % i for i in range(1, 21)], 'Q', m[3]) for m in ms if m[2] == 'Q']
    with ThreadPoolExecutor(j) as ex:
        for mid, st, d in ex.map(lambda m: run(m, tests), ms):
            print(st, mid, d, flush=True)
