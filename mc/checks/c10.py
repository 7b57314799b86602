"""C10: a tdict is a faithful mutable dict."""
from ..core import Space, split
from .. import menus, reads, syms, sweep, huge, pump
from .c04 import SE, RE
from .c06 import K1, K2
import pcollections as pc
BOUNDS = {
    'quick': "tdict and tldict: all histories of <= 3 edits over 5 keys (three distinct with one hash, one equal to another, one with the next hash), plain and (tldict) lazy values, from 5 starts; the same over "
             "special keys and values; length 2 at the sizes 31-33 and 1023-1025; every operation once on collections of 2049, 4097, 32769 and 33800 items",
    'thorough': "as quick with histories of <= 4 edits; huge collections at 17 sizes from 2047 to 65537",
}
ASSUMPTIONS = ["keys are opaque apart from == and hash, values entirely"]
RULE = "a case of a huge collection is one operation on one representation of one size; distinct by construction"
huge_case = huge.case
def const(x): return x
def L(x): return pc.lazy(const, x)
def mk(keys, lz): return lambda: dict(reads=lambda p: reads.map_reads(p, keys), L=(lambda x: x) if lz else L)
def seeds(k, lz):
    P = 'ldict' if lz else 'pdict'
    v = 'L(v2)' if lz else 'v2'
    return [[(f"t = {k}()", "t = {}")], [(f"t = {k}({{A: v1, B: {v}, C: v3}})", "t = {A: v1, B: v2, C: v3}")],
            [(f"t = {P}([(D, v1), (A2, {v}), (C, v1)]).transient()", "t = {D: v1, A2: v2, C: v1}")],
            [(f"t = {k}({P}([(C, v1), (A, {v}), (B, v3), (D, v4)]).drop(A))", "t = {C: v1, B: v3, D: v4}")],
            [(f"t = {k}([(B, v1), (A, v1)], x={v}); del t[B]; t[B] = v3", "t = {A: v1, 'x': v2, B: v3}")]]
def jobs(tier):
    th = tier != 'quick'
    js = []
    for (k, lz) in (('tdict', 0), ('tldict', 1)):
        pr = [("reads(t)", "reads(t)"), ("type(t).__name__", f"'{k}'"), ("list(t.persistent().items())", "list(t.items())")]
        ops = menus.td_updates(vals=('v1', 'L(v2)' if lz else 'v2'))
        ops = [(a, b) for (a, b) in ops]
        js += split(Space(k, seeds(k, lz), ops, pr, depth=4 if th else 3, mutable=True, gi=mk(K1, 0), gm=mk(K1, 1), limit=80000), 8)
        js += split(Space(k + '-unmerged', seeds(k, lz), ops, pr, depth=2, mutable=True, dedup=False, gi=mk(K1, 0), gm=mk(K1, 1)), 2)
        js += pump.jobs(Space(k, seeds(k, lz), ops, pr, mutable=True, gi=mk(K1, 0), gm=mk(K1, 1)), rounds=300 if th else 70)
        sp = []
        for x in ('N', 'None', '0', 'False', '-1', '-2', 'BIG', 'NEG', 'M7', "''", 'True', 'Z', 'F0'):
            sp += [(f"t[{x}] = v1", f"t[{x}] = v1"), (f"del t[{x}]", f"del t[{x}]"), (f"r = t.pop({x}, v6)", f"r = t.pop({x}, v6)")]
        for v in ('None', 'N', 'Ellipsis', 'UH'): sp += [(f"t[A] = {v}", f"t[A] = {v}"), (f"r = t.setdefault(B, {v})", f"r = t.setdefault(B, {v})")]
        sp += [("r = t.popitem()", "r = takeitem(t, _r)"), ("t.update(self=v3, cls=v4)", "t.update(self=v3, cls=v4)"), ("t.update([(A, v1)], arg=v3, args=v4, kw=v5)", "t.update([(A, v1)], arg=v3, args=v4, kw=v5)")]
        js += split(Space(k + '-special', [[(f"t = {k}()", "t = {}")], [(f"t = {k}([(None, N), (-1, None), (-2, v1), (0, v2)])", "t = dict([(None, N), (-1, None), (-2, v1), (0, v2)])")]],
                          sp, pr, depth=3, mutable=True, gi=mk(K2, 0), gm=mk(K2, 1), limit=80000), 8)
        W = [("t[A] = v1", "t[A] = v1"), ("t[B] = v1", "t[B] = v1"), ("t[7] = v5", "t[7] = v5"), ("t[-1] = v5", "t[-1] = v5"), ("del t[7]", "del t[7]"), ("r = t.pop(29)", "r = t.pop(29)"), ("del t[30]", "del t[30]"),
             ("r = t.popitem()", "r = takeitem(t, _r)"), ("t.update({i: v1 for i in range(5, 40)})", "t.update({i: v1 for i in range(5, 40)})"), ("t = t.copy()", "t = t.copy()"), ("r = t.setdefault(1030, v2)", "r = t.setdefault(1030, v2)")]
        P = 'ldict' if lz else 'pdict'
        for h in (k + "([(i, VALS[i % 8]) for i in range({n})])", P + "([(i, VALS[i % 8]) for i in range({n})]).transient()"):
            big = [[("t = " + h.replace('{n}', str(n)), f"t = dict([(i, VALS[i % 8]) for i in range({n})])")] for n in (30, 31, 32, 33, 1023, 1024, 1025)]
            js += split(Space(k + '-large-' + h[:5], big, W, pr, depth=3 if th else 2, mutable=True, gi=mk(K1, 0), gm=mk(K1, 1)))
        sz = []
        for e in ("ES[:len(t)]", "ES[:len(t) // 2]", "ES[len(t) // 2:len(t) + 3]", "ES[1:len(t):2]"):
            sz += [(f"t.update([(x, v7) for x in {e}])", f"t.update([(x, v7) for x in {e}])"), (f"t.update(pdict([(x, v7) for x in {e}]), dict([(x, v6) for x in {e}]))", f"t.update([(x, v6) for x in {e}])"), (f"r = [t.pop(x, 5) for x in {e}]", f"r = [t.pop(x, 5) for x in {e}]")]
        v = 'L(v2)' if lz else 'v2'
        js += sweep.sweep(k + '-sizes', sweep.dict_seeds(k, sweep.SMALL + (sweep.LARGE if th else sweep.LARGE[:6]), 't'), menus.td_updates(keys=SE, vals=('v1', v)) + sz, pr, gi=mk(RE, 0), gm=mk(RE, 1), mutable=True)
        js += sweep.sweep(k + '-chains', sweep.chain_seeds(k, 't'), menus.td_updates(keys=sweep.CE, vals=('v1', v)), pr, gi=mk(sweep.RC, 0), gm=mk(sweep.RC, 1), mutable=True, depth=3 if th else 2)
    js += huge.jobs('c10', 'tdict', tier)
    js += huge.jobs('c10', 'tldict', tier)
    return js
