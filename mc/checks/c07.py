"""C07: mapping views always show the mapping they came from."""
from ..core import Space, split
from .. import menus, reads, syms, core, sweep
import pcollections as pc
BOUNDS = {
    'quick': "pdict, ldict, tdict, tldict: all histories of <= 3 edits over 4 keys (three with one hash, one equal to another) and lazy and plain values, "
             "from 3 starts; in every state the three views, made now and (for the transient kinds) made before the edits, are compared to the dict views of the model: "
             "length, order, reverse order, membership of present, absent and malformed items, set operations and comparisons of key and item views; "
             "the same after one edit of every representation of every size 0-72 and of 14 sizes up to 1025, and for keys with one common hash",
    'thorough': "as quick with histories of <= 4 edits",
}
ASSUMPTIONS = ["keys are opaque apart from == and hash, values apart from =="]
def const(x): return x
def L(x): return pc.lazy(const, x)
KEYS = [syms.A, syms.B, syms.C, syms.A2, syms.D]
VALS = [syms.v1, syms.v2, syms.N, None]
class Any:
    "Equals everything."
    def __eq__(self, o): return True
    __hash__ = None
ANY = Any()
class AnyHashed(Any):
    "Equals everything, but has a hash of its own."
    def __hash__(self): return 987654321
    def __repr__(self): return 'ANYHASHED'
ANYH = AnyHashed()
def views(p):
    """What the three views answer."""
    lib = type(p) is not dict
    out = []
    def rd(label, fn): out.append((label, reads.o(fn)))
    (k, i, v) = (p.keys(), p.items(), p.values())
    vreads(rd, k, i, v, lib)
    return out
def vreads(rd, k, i, v, lib):
    for (n, x) in (('keys', k), ('items', i), ('values', v)):
        rd(n + ' len', lambda: len(x)); rd(n + ' list', lambda: list(x)); rd(n + ' reversed', lambda: list(reversed(x))); rd(n + ' twice', lambda: [y for ab in zip(x, x) for y in ab])
    for x in KEYS + [None, 5, [], [syms.A], {}, ANYH]: rd(f'{x!r} in keys', lambda: x in k)
    for x in VALS + [syms.v7, syms.D, ANY, [], {}]: rd(f'{x!r} in values', lambda: x in v)
    for a in KEYS:
        for b in VALS + [syms.v7, ANY]: rd(f'({a!r},{b!r}) in items', lambda: (a, b) in i)
    for x in (syms.A, (syms.A,), (syms.A, syms.v1, 1), [syms.A, syms.v1], None, ()): rd(f'{x!r} in items', lambda: x in i)
    for x in (([], syms.v1), (ANYH, syms.v1), ({}, ANY), (syms.A, [])): rd(f'{x!r} in items', lambda: x in i)
    for o in (set(), {syms.A, syms.D}, {syms.A2}, {syms.A, syms.B, syms.C}):
        for op in ('&', '|', '-', '^', '==', '!=', '<=', '<', '>=', '>'):
            rd(f'keys {op} {o}', lambda: nset(eval(f'k {op} o', {'k': k, 'o': o})))
            rd(f'{o} {op} keys', lambda: nset(eval(f'o {op} k', {'k': k, 'o': o})))
        rd(f'keys isdisjoint {o}', lambda: k.isdisjoint(o))
    try: hash(tuple(i)); hashable = True
    except TypeError: hashable = False
    if hashable:
        for o in (set(), {(syms.A, syms.v1)}, {(syms.A2, syms.v2), (syms.B, syms.v1)}, {(syms.D, syms.v7)}):
            for op in ('&', '|', '-', '^', '==', '!=', '<=', '<', '>=', '>'):
                rd(f'items {op} {o}', lambda: nset(eval(f'i {op} o', {'i': i, 'o': o})))
            rd(f'items isdisjoint {o}', lambda: i.isdisjoint(o))
    rd('keys == keys', lambda: k == k); rd('items == items', lambda: (i == i) if not has_nan(i) else None)
def has_nan(i): return any(y is syms.N for x in i for y in x)
def nset(x):
    "A set result as a set of names (the representative of equal elements is not specified)."
    if isinstance(x, bool): return x
    return sorted(repr(tuple(getattr(y, 'eqc', repr(y)) for y in (e if isinstance(e, tuple) else (e,)))) for e in x)
def old_views(k, i, v):
    out = []
    vreads(lambda l, f: out.append((l, reads.o(f))), k, i, v, True)
    return out
def views1(p):
    "The same for collections of many items."
    out = []
    vreads1(lambda l, f: out.append((l, reads.o(f))), p.keys(), p.items(), p.values())
    return out
def vreads1(rd, k, i, v):
    for (n, x) in (('keys', k), ('items', i), ('values', v)):
        rd(n + ' len', lambda: len(x)); rd(n + ' list', lambda: list(x)); rd(n + ' reversed', lambda: list(reversed(x)))
    its = list(i)[:3] + list(i)[-3:] + [(syms.ES[j], syms.ES[j + 1]) for j in (0, 1, 7, 31, 32, 33, 63, 64, 1024)] + [(syms.A, syms.v1)]
    for (x, y) in its:
        rd(f'{x!r} in keys', lambda: x in k); rd(f'{y!r} in values', lambda: y in v); rd(f'({x!r}, {y!r}) in items', lambda: (x, y) in i); rd(f'({x!r}, v7) in items', lambda: (x, syms.v7) in i)
    for o in ({x for (x, y) in its}, set(list(k)[1:]), set(k) | {syms.D}):
        for op in ('&', '|', '-', '^', '==', '<=', '>'): rd(f'keys {op} {len(o)}', lambda: nset(eval(f'k {op} o', {'k': k, 'o': o})))
        rd(f'keys isdisjoint {len(o)}', lambda: k.isdisjoint(o))
    for o in (set(its), set(list(i)[1:]), set(i) | {(syms.D, 1)}):
        for op in ('&', '|', '-', '^', '==', '<=', '>'): rd(f'items {op} {len(o)}', lambda: nset(eval(f'i {op} o', {'i': i, 'o': o})))
def old_views1(k, i, v):
    out = []
    vreads1(lambda l, f: out.append((l, reads.o(f))), k, i, v)
    return out
def g(): return dict(views=views, old_views=old_views, views1=views1, old_views1=old_views1, L=L)
def gm(): return dict(views=views, old_views=old_views, views1=views1, old_views1=old_views1, L=lambda x: x)
def jobs(tier):
    th = tier != 'quick'
    js = []
    for (kind, lz, tr) in (('pdict', 0, 0), ('ldict', 1, 0), ('tdict', 0, 1), ('tldict', 1, 1)):
        v = ('v1', 'L(v2)', 'N' if not lz else 'L(N)', 'None') if lz else ('v1', 'v2', 'N', 'None')
        ops = []
        for k in ('A', 'B', 'C', 'A2'):
            for x in (v if k in 'AB' else v[:2]):
                ops.append((f"p[{k}] = {x}" if tr else f"p = p.set({k}, {x})", f"p[{k}] = {x.replace('L(', '(')}"))
            ops.append((f"p.pop({k}, None)" if tr else f"p = p.drop({k})", f"p.pop({k}, None)"))
        ops += [("p.clear()" if tr else "p = p.clear()", "p.clear()" if tr else "p = {}"),
                ("p.popitem()" if tr else "(r, p) = p.popitem()", "p.pop(next(iter(p)))" if 0 else "p.popitem() if not p else p.pop(next(iter(p)))")][:1]
        seeds = []
        for (a, b) in (("", "{}"), (f"[(B, {v[0]}), (A, {v[1]})]", "{B: v1, A: v2}"), (f"[(A2, {v[2]}), (C, {v[3]}), (D, {v[0]})]", "{A2: N, C: None, D: v1}")):
            sd = [(f"p = {kind}({a})", f"p = {b}")]
            if tr: sd.append(("_k = p.keys(); _i = p.items(); _v = p.values()", "_k = p.keys(); _i = p.items(); _v = p.values()"))
            seeds.append(sd)
        pr = [("views(p)", "views(p)")]
        if tr: pr.append(("old_views(_k, _i, _v)", "old_views(_k, _i, _v)"))
        js += split(Space(kind, seeds, ops, pr, depth=4 if th else 3, mutable=bool(tr or lz), gi=g, gm=gm, limit=100000), 8)
        big = [[(f"p = {kind}([(i, VALS[i % 8]) for i in range({n})])", f"p = dict([(i, VALS[i % 8]) for i in range({n})])")] for n in (31, 32, 33, 1024, 1025)]
        js += split(Space(kind + '-large', big, [], pr[:1], depth=0, mutable=True, gi=g, gm=gm))
        o1 = [(f"p[{k}] = {x}" if tr else f"p = p.set({k}, {x})", f"p[{k}] = {x}") for (k, x) in (('A', 'v1'), ('ES[1]', 'v2'), ('ES[-1]', 'v2'), ('CH[2]', 'v3'))] + [(f"p.pop({k}, None)" if tr else f"p = p.drop({k})", f"p.pop({k}, None)") for k in ('ES[0]', 'ES[2]', 'ES[7]', 'CH[1]')]
        sds = sweep.dict_seeds(kind, sweep.sizes(tier)) + sweep.chain_seeds(kind)
        if tr: sds = [sd + [("_k = p.keys(); _i = p.items(); _v = p.values()", "_k = p.keys(); _i = p.items(); _v = p.values()")] for sd in sds]
        js += sweep.sweep(kind + '-sizes', sds, o1, [(a.replace('views', 'views1'), b.replace('views', 'views1')) for (a, b) in pr], g, gm, mutable=bool(tr))
    return js
