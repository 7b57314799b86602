"""mutate.py gen FILE... > list; systematic small changes (mutants) of the library, to look for holes in the checks.
mutate.py FILES OUT.jsonl N: takes N mutants evenly from those of the files, keeps those that pass the stable
tests, and runs the checks of the file on each (stopping at the first violation)."""
import ast, sys, os, json, subprocess, shutil, copy, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
W = '/tmp/mut'
L1 = 'C12 C14 C19 C24 C29 C01 C08 C02 C03 C11 C13 C20 C28 C26 C18 C23 C27'.split()
CHECKS = {
    '_list.py': L1,
    '_set.py': 'C04 C09 C14 C19 C24 C29 C05 C13 C03 C11 C20 C23 C28 C26 C27'.split(),
    '_dict.py': 'C06 C24 C14 C19 C29 C30 C07 C10 C13 C03 C11 C20 C23 C28 C12 C27 C17 C18'.split(),
    '_lazy.py': 'C15 C17 C24 C14 C19 C29 C30 C18 C06 C02 C08 C10 C13 C11 C20 C28 C27 C12 C03 C07 C23 C16'.split(),
    'abc/_seq.py': L1 + ['C30', 'C21'],
    'abc/_set.py': 'C04 C09 C14 C19 C24 C29 C05 C26 C13 C03 C11 C20 C28 C27 C23'.split(),
    'abc/_map.py': 'C06 C24 C14 C19 C29 C10 C26 C13 C03 C11 C20 C28 C12 C27 C07 C17 C18'.split(),
    'abc/_core.py': 'C24 C26 C19'.split(),
    'util/_core.py': 'C27 C12 C05 C26 C20'.split(),
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
def muts(tree):
    """Yields (node, replacement source or None to delete, description)."""
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n); m.ops = [o()]
                yield n, ast.unparse(m), 'compare'
            m = copy.deepcopy(n)
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                m = copy.deepcopy(n); del m.values[i]
                if len(m.values) == 1: m = m.values[0]
                yield n, '(' + ast.unparse(m) + ')', 'drop operand'
            m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield n, '(' + ast.unparse(m) + ')', 'and/or'
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            m = copy.deepcopy(n); m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            yield n, '(' + ast.unparse(m) + ')', '+/-'
            yield n, '(' + ast.unparse(n.left) + ')', 'left operand'
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            yield n, repr(n.value + 1), 'const+1'
            if n.value > 0: yield n, repr(n.value - 1), 'const-1'
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n, repr(not n.value), 'bool'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield n, '(' + ast.unparse(n.operand) + ')', 'drop unary'
        elif isinstance(n, ast.If):
            yield n.test, 'True', 'if True'
            yield n.test, 'False', 'if False'
        elif isinstance(n, ast.IfExp):
            yield n, '(' + ast.unparse(n.body) + ')', 'ifexp body'
            yield n, '(' + ast.unparse(n.orelse) + ')', 'ifexp else'
        elif isinstance(n, ast.Return) and n.value is not None:
            s = ast.unparse(n.value)
            if s != 'self': yield n, 'return self', 'return self'
            if s != 'None': yield n, 'return None', 'return None'
            if s in ('True', 'False'): pass
        elif isinstance(n, ast.Raise):
            if 'NotImplementedError' in ast.unparse(n): continue
            yield n, 'pass', 'no raise'
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): continue
            if ast.unparse(n) in ('empty = None', '_eq_types = ()') or ast.unparse(n).startswith(('msg =', '__slots__')): continue
            yield n, 'pass', 'drop statement'
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield n, 'pass', 'drop jump'
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if len(n.args) == 1 and not n.keywords and name in ('iter', 'list', 'tuple', 'reversed', 'set', 'unlazy', 'holdlazy', 'THAMT', 'sorted'):
                yield n, '(' + ast.unparse(n.args[0]) + ')', 'drop call'
            sw = {'any': 'all', 'all': 'any', 'union': 'intersection', 'add': 'discard', 'discard': 'remove', 'append': 'prepend', 'is_lazy': 'is_ready', 'get': 'getlazy', 'min': 'max', 'max': 'min'}
            if name in sw and isinstance(f, ast.Attribute): 
                m = copy.deepcopy(n); m.func.attr = sw[name]
                yield n, ast.unparse(m), f'{name} -> {sw[name]}'
            elif name in sw:
                m = copy.deepcopy(n); m.func.id = sw[name]
                yield n, ast.unparse(m), f'{name} -> {sw[name]}'
def apply(src, n, new):
    lines = src.splitlines(True)
    b = [l.encode() for l in lines]
    pre = b''.join(b[:n.lineno - 1]) + b[n.lineno - 1][:n.col_offset]
    post = b[n.end_lineno - 1][n.end_col_offset:] + b''.join(b[n.end_lineno:])
    return (pre + new.encode() + post).decode()
def mutants(f):
    src = open(os.path.join('/repo/pcollections', f)).read()
    tree = ast.parse(src)
    seen = set()
    out = []
    for (n, new, d) in muts(tree):
        s = apply(src, n, new)
        if s in seen or s == src: continue
        try: compile(s, f, 'exec')
        except SyntaxError: continue
        seen.add(s)
        out.append((f, n.lineno, n.col_offset, d, ast.get_source_segment(src, n), new, s))
    out.sort(key=lambda m: (m[1], m[2], m[3]))
    return out
def copyrepo(i):
    d = f'{W}/{i}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d
def tests(d):
    e = dict(os.environ, PYTHONPATH=d + ':/opt/vp', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    try: r = subprocess.run(f"timeout 40 {PY} -m pytest -x -q -p no:cacheprovider -p pytest_timeout -p seed_random --timeout=20 -o python_files='_[a-z]*.py test_*.py' pcollections/test 2>&1 | tail -4", shell=True, cwd=d, env=e, capture_output=True, text=True)
    except Exception: return False
    return '21 passed' in r.stdout and 'failed' not in r.stdout
def test_one(a):
    (k, ms) = a
    d = copyrepo(f't{k}')
    ok = []
    for m in ms:
        p = os.path.join(d, 'pcollections', m[0])
        orig = open(p).read()
        open(p, 'w').write(m[6])
        if tests(d): ok.append(m)
        open(p, 'w').write(orig)
    shutil.rmtree(d)
    return ok
def main():
    files, out, n = sys.argv[1].split(','), sys.argv[2], int(sys.argv[3])
    os.makedirs(W, exist_ok=True)
    ms = [m for f in files for m in mutants(f)]
    print(len(ms), 'mutants')
    ms = ms[::max(1, len(ms) // n)]
    with cf.ProcessPoolExecutor(8) as ex: ok = [m for r in ex.map(test_one, [(k, ms[k::8]) for k in range(8)]) for m in r]
    ok.sort(key=lambda m: (m[0], m[1], m[2], m[3]))
    print(len(ms), 'taken,', len(ok), 'pass the tests', flush=True)
    d = copyrepo('c')
    e = dict(os.environ, VERIF_REPO=d, MC_FIRST='1', PYTHONDONTWRITEBYTECODE='1')
    with open(out, 'a') as fo:
        for m in ok:
            p = os.path.join(d, 'pcollections', m[0])
            orig = open(p).read()
            open(p, 'w').write(m[6])
            by = None
            for c in CHECKS[m[0]]:
                try: r = subprocess.run(['bash', V + '/run.sh', c, 'quick'], env=e, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired: by = c + ' timeout'; break
                if r.returncode == 1 and 'VIOLATION' in r.stdout: by = c; break
                if r.returncode != 0: by = c + f' exit {r.returncode}'; 
                if by: break
            fo.write(json.dumps(dict(file=m[0], line=m[1], what=m[3], old=m[4], new=m[5], by=by)) + '\n'); fo.flush()
            if not by: print('SURVIVED', m[:6], flush=True)
            open(p, 'w').write(orig)
main()
