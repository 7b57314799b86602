"""plant.py SPEC.py: makes seeded/<id> directories from specs and keeps those that qualify.
A spec file defines S = [(id, property, file, old, new, needs, breaks, demo)]; old/new may be lists of equal length.
A seed qualifies if it changes only lines of the original repository, the stable tests pass with it, and
its demonstration passes without it and fails with it."""
import sys, os, subprocess, json, shutil, runpy, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '0c0649b'
W = '/tmp/plant_wt'
PY = '/opt/venv/bin/python'
STABLE = '/opt/vp/BASELINE.json'
def sh(c, cwd=None, **k): return subprocess.run(c, shell=isinstance(c, str), cwd=cwd, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    sh('git checkout -q . && git clean -fdq', W)
def tests():
    e = dict(os.environ, PYTHONPATH=W + ':/opt/vp', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    r = sh(f"timeout 280 {PY} -m pytest -q -p no:cacheprovider -p pytest_timeout -p seed_random --timeout=100 -o python_files='_[a-z]*.py test_*.py' pcollections/test 2>&1 | tail -4", W, env=e)
    return ('21 passed' in r.stdout and 'failed' not in r.stdout), r.stdout
def demo(d):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    try: r = sh(['bash', os.path.join(d, 'demo.sh')], W, env=e, timeout=300)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return r.returncode, (r.stdout + r.stderr)[-400:]
def main():
    spec = runpy.run_path(sys.argv[1])['S']
    only = sys.argv[2:]
    for (i, prop, files, old, new, needs, breaks, dm) in spec:
        if only and i not in only: continue
        fresh()
        if isinstance(old, str): old, new = [old], [new]
        if isinstance(files, str): files = [files] * len(old)
        bad = None
        for (f, o, n) in zip(files, old, new):
            p = os.path.join(W, 'pcollections', f)
            s = open(p).read()
            if s.count(o) != 1: bad = f'{f}: {s.count(o)} matches for {o[:60]!r}'; break
            open(p, 'w').write(s.replace(o, n))
        if bad: print(i, 'BAD', bad); continue
        diff = sh('git diff', W).stdout
        # every changed line must be of the original repository
        own = []
        for f in set(files):
            bl = sh(f'git blame -s HEAD -- pcollections/{f}', W).stdout.splitlines()
            fd = sh(f'git diff -U0 -- pcollections/{f}', W).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
                a, k = int(m[1]), int(m[2] if m[2] is not None else 1)
                for l in range(a, a + k):
                    if not bl[l - 1].startswith('^' + BASE): own.append(f'{f}:{l}')
        ok, out = tests()
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(dm.lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'meta.json'), 'a').write('\n')
        with_, o1 = demo(d)
        sh('git checkout -q .', W)
        without, o2 = demo(d)
        good = ok and with_ != 0 and without == 0 and not own
        print(i, 'OK' if good else 'REJECTED', '' if good else f'tests={ok} with={with_} without={without} own={own} {out if not ok else ""} {o2 if without else ""}', '|', o1.strip().splitlines()[-1:] )
        if not good and os.environ.get('KEEP') and ok and with_ and not without:     # not eligible, but still a bug to try the checks on
            shutil.rmtree(os.path.join(os.environ['KEEP'], i), ignore_errors=True)
            shutil.copytree(d, os.path.join(os.environ['KEEP'], i))
        if not good: shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
main()
