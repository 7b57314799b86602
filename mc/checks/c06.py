"""C06: a pdict goes through every update history exactly as a dict would."""
from ..core import Space, split
from .. import menus, reads, syms, sweep, huge, pump
from .c04 import SE, RE
BOUNDS = {
    'quick': "all update histories of length <= 3 over 5 keys (three distinct with one hash, one equal to another, one with the next hash) and 2+ values "
             "from 6 starts; the same over special keys (NaN-like, None, False/0/0.0, -1/-2, huge and negative hashes) and values (None, NaN-like, Ellipsis); "
             "length 2 at the sizes 31-33 and 1023-1025; every history to length 2 also without merging states; every operation once on collections of 2049, 4097, 32769 and 33800 items",
    'thorough': "as quick with length 4; huge collections at 17 sizes from 2047 to 65537",
}
ASSUMPTIONS = ["keys are opaque apart from == and hash, values entirely (data independence)"]
RULE = "a case of a huge collection is one operation on one representation of one size; distinct by construction"
huge_case = huge.case
K1 = [syms.A, syms.B, syms.C, syms.D, syms.A2, syms.G, 'x']
K2 = [syms.N, None, 0, False, 0.0, -1, -2, syms.BIG, syms.NEG, syms.M7, '', 1, True, syms.Z]
def mk(k): return lambda: dict(reads=lambda p: reads.map_reads(p, k))
def seeds():
    return [[("p = pdict()", "p = {}")], [("p = pdict({A: v1, B: v2, C: v3})", "p = {A: v1, B: v2, C: v3}")],
            [("p = pdict([(D, v1), (A2, v2), (C, v1), (A, v3)])", "p = dict([(D, v1), (A2, v2), (C, v1), (A, v3)])")],
            [("p = pdict().set(C, v1).set(D, v1).set(B, v2).drop(C)", "p = {D: v1, B: v2}")],
            [("p = pdict([(B, v1), (A, v2), (C, v3), (D, v4)]).drop(A)", "p = {B: v1, C: v3, D: v4}")], [("p = pdict(tdict({A: v1}), x=v2)", "p = {A: v1, 'x': v2}")]]
def sized():
    o = []
    for e in ("ES[:len(p)]", "ES[:len(p) // 2]", "ES[len(p) // 2:len(p) + 3]", "ES[1:len(p):2]"):
        o += [(f"p = p.update([(x, v7) for x in {e}])", f"p.update([(x, v7) for x in {e}])"), (f"p = p.dropall({e})", f"d_dropall(p, {e})"), (f"p = p.deleteall({e})", f"d_deleteall(p, {e})"), (f"p = p.setall({e}, VALS * 200)", f"d_setall(p, {e}, VALS * 200)"),
              (f"p = p.update(pdict([(x, v7) for x in {e}]), dict([(x, v6) for x in {e}]))", f"p.update([(x, v6) for x in {e}])")]
    return o
def jobs(tier):
    th = tier != 'quick'
    pr = [("reads(p)", "reads(p)"), ("type(p).__name__", "'pdict'")]
    ops = menus.pd_updates()
    js = split(Space('pdict', seeds(), ops, pr, depth=4 if th else 3, gi=mk(K1), gm=mk(K1), limit=400000), 8)
    js += split(Space('pdict-unmerged', seeds(), ops, pr, depth=3 if th else 2, dedup=False, gi=mk(K1), gm=mk(K1)), 8 if th else 2)
    sp = []
    for k in ('N', 'None', '0', 'False', '-1', '-2', 'BIG', 'NEG', 'M7', "''", 'True', 'Z'):
        sp += [(f"p = p.set({k}, v1)", f"p[{k}] = v1"), (f"p = p.drop({k})", f"d_drop(p, {k})"), (f"(r, p) = p.pop({k})", f"r = p.pop({k})")]
    for v in ('None', 'N', 'Ellipsis', 'UH', '()'):
        sp += [(f"p = p.set(A, {v})", f"p[A] = {v}"), (f"p = p.setdefault(B, {v})", f"p.setdefault(B, {v})")]
    sp += [("(r, p) = p.popitem()", "r = takeitem(p, _r)"), ("p = p.delete(A)", "d_delete(p, A)"), ("(r, p) = p.pop(B, N)", "r = p.pop(B, N)"),
           ("p = p.update(self=v3, cls=v4)", "p.update(self=v3, cls=v4)"), ("p = p.update([(A, v1)], arg=v3, args=v4, kw=v5)", "p.update([(A, v1)], arg=v3, args=v4, kw=v5)")]
    js += split(Space('pdict-special', [[("p = pdict()", "p = {}")], [("p = pdict([(None, N), (-1, None), (-2, v1), (0, v2)])", "p = dict([(None, N), (-1, None), (-2, v1), (0, v2)])")]],
                      sp, pr, depth=4 if th else 3, gi=mk(K2), gm=mk(K2), limit=300000), 8)
    W = [("p = p.set(A, v1)", "p[A] = v1"), ("p = p.set(B, v1)", "p[B] = v1"), ("p = p.set(7, v5)", "p[7] = v5"), ("p = p.set(-1, v5)", "p[-1] = v5"), ("p = p.drop(7)", "d_drop(p, 7)"),
         ("p = p.drop(0)", "d_drop(p, 0)"), ("p = p.delete(30)", "d_delete(p, 30)"), ("(r, p) = p.pop(29)", "r = p.pop(29)"), ("(r, p) = p.popitem()", "r = takeitem(p, _r)"),
         ("p = p.update({i: v1 for i in range(5, 40)})", "p.update({i: v1 for i in range(5, 40)})"), ("p = p.dropall(range(3, 1000))", "d_dropall(p, range(3, 1000))"),
         ("p = p.setall(range(1020, 1030), [v1] * 10)", "d_setall(p, range(1020, 1030), [v1] * 10)"), ("p = p.deleteall([1, 2, 3])", "d_deleteall(p, [1, 2, 3])")]
    big = [[(f"p = pdict([(i, VALS[i % 8]) for i in range({n})])", f"p = dict([(i, VALS[i % 8]) for i in range({n})])")] for n in (30, 31, 32, 33, 1023, 1024, 1025)]
    js += split(Space('pdict-large', big, W, pr, depth=3 if th else 2, gi=mk(K1), gm=mk(K1)))
    js += sweep.sweep('pdict-sizes', sweep.dict_seeds('pdict', sweep.SMALL + (sweep.LARGE if th else sweep.LARGE[:6])), menus.pd_updates(keys=SE) + sized(), pr, gi=mk(RE), gm=mk(RE))
    js += sweep.sweep('pdict-chains', sweep.chain_seeds('pdict'), menus.pd_updates(keys=sweep.CE), pr, gi=mk(sweep.RC), gm=mk(sweep.RC), depth=3 if th else 2)
    js += pump.jobs(Space('pdict', seeds(), ops, pr, gi=mk(K1), gm=mk(K1)), rounds=300 if th else 70)
    js += huge.jobs('c06', 'pdict', tier)
    return js
