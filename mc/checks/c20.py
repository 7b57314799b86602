"""C20: pickling and copying reproduce every collection."""
import copy, pickle, json, subprocess, sys, os, itertools
from .. import core, syms, menus, cases, env, sweep
from ..core import Space, split, FuncJob
from ..cases import attempt
import pcollections as pc
BOUNDS = {
    'quick': "all ten kinds: every state reached by histories of <= 2 updates (sets and dicts 3) from 3-5 starts (offsets, equal hashes, waiting and evaluated lazies, edited transients); in every state pickle with each of the protocols 0-5, copy.copy and "
             "copy.deepcopy, the result compared in kind, order, content, equality, hash and under a battery of follow-up updates, and independence from the original; nested collections of depth 2; structures in which one object is met several times or in a cycle (10 kinds x 9 shared objects x shapes) keep their shape; the JSON text of all sequences and mappings of <= 3 of 11 values and 8 keys; "
             "pickles of string-keyed collections loaded in a process with other string hashes; every representation of every size 0-72 and 10 sizes up to 257 (and 1023-1025 from one), and up to 33 keys with one common hash",
    'thorough': "as quick with one more update",
}
ASSUMPTIONS = ["elements can themselves be pickled and copied", "no collection contains itself directly"]
RULE = "a case is one nested collection expression under one copier; distinct by construction"
def const(x): return x
def L(x): return pc.lazy(const, x)
def R(x):
    l = pc.lazy(const, x); l()
    return l
def content(p):
    return [(ident(k), ident(v)) for (k, v) in p.items()] if isinstance(p, (pc.pdict, pc.tdict)) else [ident(x) for x in p]
def ident(x): return id(x) if isinstance(x, syms.Sym) else (type(x).__name__, repr(x))
COPIERS = [(f'pickle{i}', (lambda i: lambda p: pickle.loads(pickle.dumps(p, i)))(i)) for i in range(pickle.HIGHEST_PROTOCOL + 1)] + [('copy', copy.copy), ('deepcopy', copy.deepcopy), ('pypickle', lambda p: pickle._loads(pickle._dumps(p)))]
A, B, C, D, G = syms.A, syms.B, syms.C, syms.D, syms.G
def battery(p):
    "What a series of updates and reads gives; p may be changed."
    out = []
    def rd(f):
        o = attempt(f)
        out.append(o if o[0] == 'exc' else ('ok', nm(o[1])))
    if isinstance(p, pc.plist):
        for f in (lambda: p.append(D), lambda: p.prepend(D), lambda: p.insert(1, D), lambda: p.delete(0), lambda: p.delete(), lambda: p.set(0, D), lambda: p.set(-1, D), lambda: p[::-1], lambda: p + [D], lambda: p.index(B), lambda: p.count(A), lambda: p[0], lambda: p[-1], lambda: p.transient().persistent()): rd(f)
    elif isinstance(p, pc.tlist):
        for f in (lambda: p.append(D), lambda: p.prepend(G), lambda: p.insert(1, D), lambda: p.pop(0), lambda: p.index(D), lambda: p.pop(), lambda: p.__setitem__(0, D), lambda: p.persistent(), lambda: p.reverse(), lambda: p): rd(f)
    elif isinstance(p, pc.pset):
        for x in (A, B, C, D, G, syms.A2):
            for f in (lambda: p.add(x), lambda: p.discard(x), lambda: p.remove(x), lambda: x in p): rd(f)
    elif isinstance(p, pc.tset):
        for x in (A, D, B, syms.A2, C):
            for f in (lambda: x in p, lambda: p.add(x), lambda: p.discard(G), lambda: p, lambda: p.remove(x), lambda: p): rd(f)
    elif isinstance(p, pc.pdict):
        for x in (A, B, C, D, G, syms.A2):
            for f in (lambda: p.set(x, 1), lambda: p.drop(x), lambda: p[x], lambda: x in p, lambda: p.setdefault(x, 2)): rd(f)
    else:
        for x in (A, B, D, syms.A2, C):
            for f in (lambda: p.get(x), lambda: p.__setitem__(x, 1), lambda: p, lambda: p.pop(x), lambda: p): rd(f)
    return out
def nm(x):
    if isinstance(x, (pc.pdict, pc.tdict)): return (type(x).__name__, [(nm(k), nm(v)) for (k, v) in x.items()])
    if isinstance(x, (pc.plist, pc.tlist, pc.pset, pc.tset)): return (type(x).__name__, [nm(y) for y in x])
    if isinstance(x, tuple): return tuple(map(nm, x))
    return repr(x)
def copies(p):
    out = []
    T = type(p)
    tr = T.__name__[0] == 't'
    c = content(p)
    ref = T(p)
    want = battery(ref if tr else p)
    for (n, f) in COPIERS:
        o = attempt(lambda: f(p))
        if o[0] == 'exc': out.append((n, o[1])); continue
        q = o[1]
        if type(q) is not T: out.append((n, 'type ' + type(q).__name__)); continue
        if content(q) != c or len(q) != len(p): out.append((n, 'content ' + nm(q).__repr__())); continue
        if not (q == p and p == q) or q != p: out.append((n, 'not equal'))
        if not tr:
            if hash(q) != hash(p): out.append((n, 'hash'))
            if len(p) == 0 and q is not T.empty: out.append((n, 'not the empty instance'))
            if q.transient().persistent() != p: out.append((n, 'round trip'))
        elif q is p: out.append((n, 'the same object')); continue
        got = battery(q)
        if got != want: out.append((n, 'updates', next((a, b) for (a, b) in zip(got, want) if a != b)))
        if content(p) != c: out.append((n, 'the original changed'))
        if tr:
            r = f(p)
            e = f(r)
            r.clear()
            if content(e) != c: out.append((n, 'a copy of the copy changed'))
            if content(p) != c: out.append((n, 'clearing the copy changed the original'))
            s = f(p)
            battery(ref)
            if content(s) != c: out.append((n, 'the copy changed with another collection'))
    return out
def js_(p):
    "The JSON text of the collection."
    return getattr(p, '__json__', None) and attempt(p.__json__)
G_ = core.impl_globals(dict(L=L))
def nested_case(expr, copier):
    f = dict(COPIERS)[copier]
    p = cases.ev(expr, G_)
    before = nm(p)
    o = attempt(lambda: f(p))
    if o[0] == 'exc': return f"{copier} of {expr} raised {o[1]}"
    q = o[1]
    if nm(q) != before or type(q) is not type(p): return f"{copier} of {expr} is {nm(q)}"
    if not (q == p): return f"{copier} of {expr} is not equal to it"
    tr = type(p).__name__[0] == 't'
    # mutable members: shared by copy, private to deepcopy and pickle
    def members(x): return list(x.values()) if isinstance(x, (pc.pdict, pc.tdict)) else list(x)
    for (a, b) in zip(members(p), members(q)):
        mut = isinstance(a, (list, set, dict, pc.tlist, pc.tset, pc.tdict))
        if copier == 'copy' and a is not b: return f"{copier} of {expr} copied a member"
        if copier != 'copy' and mut and a is b: return f"{copier} of {expr} shares a mutable member"
        if copier != 'copy' and mut:
            b.clear()
            if nm(p) != before: return f"{copier} of {expr}: changing the copy's member changed the original"
    return None
class Node:
    "An object known by its identity, with attributes."
    def __init__(self): self.kids = None; self.up = None
TG = dict(G_, Node=Node)
def parts(x):
    if isinstance(x, pc.lazy): return []
    if isinstance(x, (pc.pdict, pc.tdict, dict)): return [y for kv in x.items() for y in kv]
    if isinstance(x, (pc.plist, pc.tlist, pc.pset, pc.tset, list, tuple)): return list(x)
    if isinstance(x, Node): return [x.kids, x.up]
    return []
def same_shape(x, q):
    "Whether the copy holds one object where the original holds one; None or the difference."
    there, back, todo = {}, {}, [(x, q, 'copy')]
    while todo:
        (a, b, path) = todo.pop()
        if type(a) is not type(b): return f"{path} is a {type(b).__name__}"
        if isinstance(a, (list, Node, pc.tlist, pc.tset, pc.tdict)) and a is b: return f"{path} is shared with the original"
        if isinstance(a, (list, Node, pc.plist, pc.pset, pc.pdict, pc.tlist, pc.tset, pc.tdict)):
            if id(a) in there:
                if there[id(a)] is not b: return f"{path} is another object than where it was met before"
                continue
            if id(b) in back: return f"{path} is the copy of two objects"
            there[id(a)] = b; back[id(b)] = a
        (u, v) = (parts(a), parts(b))
        if len(u) != len(v): return f"{path} has {len(v)} parts"
        todo += [(c, d, f"{path}.{i}") for (i, (c, d)) in enumerate(zip(u, v))]
    return None
def topo_case(lines, copier):
    f = dict(COPIERS)[copier]
    env = dict(TG)
    exec(lines, env)
    o = attempt(lambda: f(env['x']))
    if o[0] == 'exc': return f"{copier} of x after {lines!r} raised {o[1]}"
    d = same_shape(env['x'], o[1])
    return d and f"{copier} of x after {lines!r}: {d}"
def topo_lines():
    "Structures in which objects are met more than once."
    out = []
    shared = ["[1]", "Node()", "tlist([1])", "tdict({1: 2})", "tset([1])", "plist([1, 2])", "pset([1])", "pdict({1: 2})", "ldict({1: [2]})"]
    def holds(k, *xs):
        if 'dict' in k: return f"{k}([{', '.join(f'({i}, {x})' for (i, x) in enumerate(xs))}])"
        return f"{k}([{', '.join(xs)}])"
    KS = ('plist', 'tlist', 'llist', 'tllist', 'pset', 'tset', 'pdict', 'tdict', 'ldict', 'tldict')
    for k in KS:
        for s in shared:
            if 'set' in k and (s[0] in '[t' or 'ldict' in s): continue
            a = f"s = {s}; p = {holds(k, 's', '7')}; "
            out += [a + "x = [p, s]", a + "x = [s, p]", a + "x = [p, p]", a + "x = (p, s, p)", a + "x = {'a': p, 'b': s}", a + f"x = [p, {holds(k, 's')}]"]
            if 'set' not in k: out.append(f"s = {s}; x = {holds(k, 's', '7', 's')}")
            hashable = s[0] not in '[t' and 'ldict' not in s
            for k2 in ('plist', 'tdict', 'ldict', 'tlist') + (('pset',) if k[0] in 'pl' and hashable else ()):
                out += [a + f"x = {holds(k2, 'p', y)}" for y in ('5', 's')] + [a + f"x = {holds(k2, 's', 'p')}"]
        out += [f"x = Node(); x.kids = {holds(k, 'x')}", f"x = Node(); y = Node(); x.kids = {holds(k, 'y')}; y.up = x", f"y = Node(); x = Node(); x.kids = {holds(k, 'y', 'x')}; y.up = x; y.kids = {holds(k, 'x')}",
                f"n = Node(); n.kids = {holds(k, 'n')}; x = [n, n.kids]"]
    return out
def json_case(expr):
    p = cases.ev(expr, G_)
    o = attempt(p.__json__)
    w = attempt(lambda: json.dumps(dict(p.items()) if isinstance(p, (pc.pdict, pc.tdict)) else list(p)))
    return None if o == w else f"{expr}.__json__() is {o}; specified: {w}"
CROSS = ["plist(['a', 'b'])", "tlist(['a'])", "llist(['a', 'b'])", "tllist(['b'])", "pset(['alpha', 'beta', 'gamma'])", "tset(['alpha', 'beta'])", "pdict(alpha=1, beta=2)", "tdict(alpha=1, beta=2)", "ldict(alpha=1, beta=2)", "tldict(alpha=1)",
         "pset([pset(['x']), pset(['y', 'z'])])", "pdict([(pset(['x', 'y']), plist(['z']))])", "pset([('a', 1), ('b', 2)]).discard(('a', 1))", "pdict(a=pdict(b=1))", "pset([plist('ab'), plist('ba')])"]
LOADER = '''
import sys, pickle, ast
import pcollections as pc
out = []
for (e, h, blob) in ast.literal_eval(sys.stdin.read()):
    q = pickle.loads(bytes.fromhex(blob))
    p = eval(e, {k: getattr(pc, k) for k in pc.__all__})
    hh = None
    try: hh = hash(p)
    except TypeError: pass
    if type(q) is not type(p): out.append((e, 'type')); continue
    if not (q == p and p == q): out.append((e, 'not equal')); continue
    if hh is not None and hash(q) != hh: out.append((e, 'hash')); continue
    els = list(p)
    if list(q) != els or any(x not in q for x in els): out.append((e, 'members not found')); continue
    if hasattr(p, 'items') and any(q[k] != p[k] for k in p): out.append((e, 'items not found')); continue
    if hasattr(q, 'discard'):
        for x in els:
            r = q.discard(x)
            if r is None: r = q
            else: q = r
            if x in r: out.append((e, 'discard'))
        if len(q): out.append((e, 'discard'))
print(out)
'''
def cross(rep):
    "Pickles made here are read by a process in which strings have other hashes."
    blobs = []
    for e in CROSS:
        p = cases.ev(e, G_)
        try: hash(p)
        except TypeError: pass
        for i in range(pickle.HIGHEST_PROTOCOL + 1):
            blobs.append((e, i, pickle.dumps(p, i).hex()))
    for seed in ('1', '2', '12345'):
        r = subprocess.run([sys.executable, '-c', LOADER], input=repr(blobs), capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=env.REPO + os.pathsep + env.VERIF, PYTHONDONTWRITEBYTECODE='1'), cwd=env.VERIF, timeout=120)
        for (e, i, _) in blobs: rep.case(key=(e, i, seed), sample=f'{e} protocol {i} read with PYTHONHASHSEED={seed}')
        if r.returncode: rep.violation(f"reading pickles with other string hashes failed: {r.stderr.strip().splitlines()[-1:]}", None)
        elif r.stdout.strip() != '[]': rep.violation(f"reading pickles with other string hashes: {r.stdout.strip()[:400]}", None)
def gi(): return dict(copies=copies, L=L, R=R)
def gm(): return dict(copies=lambda p: [], L=lambda x: x, R=lambda x: x)
def strip(x): return x.replace('L(', '(').replace('R(', '(')
def jobs(tier):
    th = tier != 'quick'
    d = 3 if th else 2
    js = []
    def sp(name, seeds, ops, var, depth, w=4):
        mut = name[0] in 't' or name[0] == 'l'
        js.extend(split(Space(name, seeds, [(a, strip(b)) for (a, b) in ops], [(f"copies({var})", f"copies({var})"), (f"type({var}).__name__", f"'{name}'")], depth=depth, mutable=mut, gi=gi, gm=gm, within=f'len({var}) <= {w}', limit=12000 if th else 2500), 4))
    for (k, t, lz) in (('plist', 'tlist', 0), ('llist', 'tllist', 1)):
        x = 'L(B)' if lz else 'B'; y = 'R(A2)' if lz else 'A2'
        ops = [o for o in menus.pl_updates(els=('A', x, y), idx=(0, 1, -1), lite=True, cls=k, tcls=t) if '.remove(R(' not in o[0]]
        sp(k, [[(f"p = {k}()", "p = []")], [(f"p = {k}([A, {x}, {y}])", "p = [A, B, A2]")], [(f"p = {k}([{x}]).prepend(A).prepend({y})", "p = [A2, A, B]")], [(f"p = {k}([B, A, {x}, D]).delete(0)", "p = [A, B, D]")]], ops, 'p', d)
        ops = [o for o in menus.tl_updates(els=('A', x, y), idx=(0, 1, -1), lite=True) if '.remove(R(' not in o[0]]
        sp(t, [[(f"t = {t}()", "t = []")], [(f"t = {t}([A, {x}, {y}])", "t = [A, B, A2]")], [(f"t = {k}([{x}]).prepend(A).transient()", "t = [A, B]")]], ops, 't', d)
    for (k, t, lz) in (('pdict', 'tdict', 0), ('ldict', 'tldict', 1)):
        v = ('v1', 'L(v2)') if lz else ('v1', 'v2')
        ops = [o for o in menus.pd_updates(keys=('A', 'B', 'C', 'A2'), vals=v, cls=k, tcls=t) if 'UH' not in o[0]]
        sp(k, [[(f"p = {k}()", "p = {}")], [(f"p = {k}([(C, v1), (A, {v[1]}), (B, v3)])", "p = {C: v1, A: v2, B: v3}")], [(f"p = {k}([(A2, v1), (D, {v[1]}), (G, None)]).drop(D)", "p = {A2: v1, G: None}")]], ops, 'p', d)
        ops = [o for o in menus.td_updates(keys=('A', 'B', 'C', 'A2'), vals=v) if 'UH' not in o[0]]
        sp(t, [[(f"t = {t}()", "t = {}")], [(f"t = {t}([(C, v1), (A, {v[1]}), (B, v3)])", "t = {C: v1, A: v2, B: v3}")], [(f"t = {k}([(A2, v1), (D, {v[1]})]).transient()", "t = {A2: v1, D: v2}")]], ops, 't', d)
    sp('pset', [[("p = pset()", "p = MSet()")], [("p = pset([A, B, D])", "p = MSet([A, B, D])")], [("p = pset([C, A2, G]).discard(C)", "p = MSet([A2, G])")]], [o for o in menus.ps_updates() if 'UH' not in o[0]], 'p', d + 1)
    sp('tset', [[("t = tset()", "t = MSet()")], [("t = tset([A, B, D])", "t = MSet([A, B, D])")], [("t = pset([C, A2, G]).discard(C).transient()", "t = MSet([A2, G])")]], [o for o in menus.ts_updates() if 'UH' not in o[0]], 't', d + 1)
    sz = tuple(n for n in sweep.sizes(tier) if n <= (1025 if th else 257))
    for k in ('plist', 'llist', 'tlist', 'tllist'): js += sweep.sweep(k + '-sizes', sweep.list_seeds(k, sz), [], [("copies(p)", "copies(p)")], gi, gm, mutable=True, depth=0)
    for k in ('pdict', 'ldict', 'tdict', 'tldict'): js += sweep.sweep(k + '-sizes', sweep.dict_seeds(k, sz) + sweep.chain_seeds(k), [], [("copies(p)", "copies(p)")], gi, gm, mutable=True, depth=0)
    for k in ('pset', 'tset'): js += sweep.sweep(k + '-sizes', sweep.set_seeds(k, sz) + sweep.chain_seeds(k), [], [("copies(p)", "copies(p)")], gi, gm, mutable=True, depth=0)
    big = []
    for n in (31, 32, 33, 1023, 1024, 1025):
        for k in ('plist', 'tlist', 'llist', 'tllist'): big += [f"{k}(range({n}))", f"{k}(range(5, {n}))[::-1]"]
        big += [f"pset(range({n}))", f"tset(range({n}))"] + [f"{k}([(i, str(i)) for i in range({n})])" for k in ('pdict', 'tdict', 'ldict', 'tldict')]
    inner = ["[1]", "{1}", "{1: 2}", "tlist([1])", "tset([1])", "tdict({1: 2})", "plist([1, 2])", "pset([1])", "pdict({1: 2})", "llist([L(1)])", "ldict({1: L(2)})", "'s'", "None", "(1, 2)", "plist()", "pset()", "pdict()", "tllist([L(1)])", "tldict({1: 2})"]
    nest = []
    for x in inner:
        for k in ('plist', 'tlist', 'llist', 'tllist'): nest += [f"{k}([{x}])", f"{k}([{x}, 5, {x}])"]
        for k in ('pdict', 'tdict', 'ldict', 'tldict'): nest += [f"{k}({{'a': {x}}})", f"{k}([(A, 1), (B, {x})])"]
        if x[0] in "pl'(N" : nest += [f"pset([{x}])", f"tset([{x}, 7])", f"pdict([({x}, 1)])"]
    nest += ["llist([L([1]), 2])", "ldict({'a': L([1]), 'b': L(plist([2]))})", "plist([plist([tlist([1])])])", "pdict(a=pdict(b=tdict(c=1)))"]
    js += cases.chunks('nested', 'c20:nested_case', nested_case, [(e, n) for e in nest for (n, _) in COPIERS] + [(e, n) for e in big for (n, _) in COPIERS], 16)
    js += cases.chunks('topology', 'c20:topo_case', topo_case, [(l, n) for l in topo_lines() for (n, _) in COPIERS if n != 'copy'], 16)
    jn = [e for e in nest if e[0] in 'plt' and 'set' not in e[:4]] + ["plist([1, 'a', None, True, [1]])", "tlist([])", "pdict(a=1, b=[2])", "tdict()", "ldict({'a': L(1)})", "llist([L('x'), 1.5])", "tldict({1: L(2)})", "pdict({None: 1, True: 2})"]
    jv = ["None", "True", "0", "-1.5", "float('nan')", "'a'", "'\\u00e9\"'", "[1, {'z': 1, 'b': 2}]", "(1, 2)", "{1}", "10**25"]
    jk = ["'b'", "'a'", "1", "None", "True", "1.5", "''", "(1, 2)"]
    for n in (1, 2, 3):
        for c in itertools.product(jv if n < 3 else jv[:7], repeat=n):
            for k in (('plist', 'tlist') if n == 3 else ('plist', 'tlist', 'llist', 'tllist')): jn.append(f"{k}([{', '.join(c)}])")
        for c in itertools.permutations(jk, n):
            for k in ('pdict', 'tdict', 'ldict', 'tldict'):
                for v in ((jv[0], jv[5], jv[7]) if n < 3 else jv[5:6]): jn.append(f"{k}([{', '.join(f'({x}, {v})' for x in c)}])")
    for k in ('pdict', 'tdict'): jn += [f"{k}(b=1, a=2, c=3){e}" for e in (('.drop("b").set("b", 1)', '.update(a=5)') if k == 'pdict' else ('',))]
    js += cases.chunks('json', 'c20:json_case', json_case, [(e,) for e in jn], 2)
    js.append(FuncJob('other-process', cross))
    return js
