"""C04: a pset goes through every update history exactly as a set would."""
from ..core import Space, split
from .. import menus, reads, syms, sweep, huge, pump
ES = syms.ES
BOUNDS = {
    'quick': "all update histories of length <= 5 over 5 elements (three distinct with one hash, one equal to another, one with the next hash) "
             "from 6 starts; the same to length 3 over special elements (NaN-like, None, False/0/0.0, hash 0, -1/-2 with equal hashes, huge "
             "and negative hashes); length 2 at the sizes 31-33 and 1023-1025; every history to length 3 also without merging states; every operation once on collections of 2049, 4097, 32769 and 33800 items",
    'thorough': "as quick with length 6, and 4 for the special elements; huge collections at 17 sizes from 2047 to 65537",
}
ASSUMPTIONS = ["elements are opaque apart from == and hash (data independence)", "hash chains longer than 5 behave as those up to 5"]
RULE = "a case of a huge collection is one operation on one representation of one size; distinct by construction"
huge_case = huge.case
E1 = [syms.A, syms.B, syms.C, syms.D, syms.A2, syms.G]
E2 = [syms.N, None, 0, False, syms.F0, -1, -2, syms.BIG, syms.NEG, syms.M7, '', (), 1, True, syms.Z]
def mk(els): return lambda: dict(reads=lambda p: reads.set_reads(p, els))
SE = ('ES[1]', 'A', 'ES[33]', 'ES[0]', 'D', 'ES[64]', 'ES[2]')
RE = [ES[i] for i in (0, 1, 2, 30, 31, 32, 33, 63, 64, 65, 66, 127, 128)] + [syms.A]
def sized(p, t):
    "Whole-set updates whose extent scales with the set."
    o = []
    for e in ("ES[:len(p)]", "ES[:len(p) // 2]", "ES[len(p) // 2:len(p) + 3]", "ES[1:len(p):2]"): o += [(f"p = p.addall({e})", f"p.update({e})"), (f"p = p.discardall({e})", f"s_discardall(p, {e})"), (f"p = p.removeall({e})", f"s_removeall(p, {e})")]
    return o
def seeds():
    return [[("p = pset()", "p = MSet()")], [("p = pset([A, B, C])", "p = MSet([A, B, C])")], [("p = pset([D, A2, C, A])", "p = MSet([D, A2, C, A])")],
            [("p = pset().add(C).add(D).add(B).discard(C)", "p = MSet([D, B])")], [("p = pset({A})", "p = MSet([A])")],
            [("p = pset([B, A, C, D]).discard(A)", "p = MSet([B, C, D])")]]
def jobs(tier):
    th = tier != 'quick'
    pr = [("reads(p)", "reads(p)"), ("type(p).__name__", "'pset'")]
    s = Space('pset', seeds(), menus.ps_updates(), pr, depth=6 if th else 5, gi=mk(E1), gm=mk(E1), limit=400000)
    js = split(s, 8)
    js += split(Space('pset-unmerged', seeds(), menus.ps_updates(), pr, depth=3, dedup=False, gi=mk(E1), gm=mk(E1)), 4)
    ops = []
    for x in ('N', 'N2', 'None', '0', 'False', '-1', '-2', 'BIG', 'NEG', 'M7', "''", '1', 'True', 'Z', 'F0'):
        ops += [(f"p = p.add({x})", f"p.add({x})"), (f"p = p.discard({x})", f"p.discard({x})"), (f"p = p.remove({x})", f"p.remove({x})")]
    ops += [("(r, p) = p.pop()", "r = take(p, _r)"), ("p = p.addall([N, None, -1])", "p.update([N, None, -1])"), ("p = p.discardall([0, -2])", "s_discardall(p, [0, -2])")]
    sp = Space('pset-special', [[("p = pset()", "p = MSet()")], [("p = pset([None, -1, -2, 0, N])", "p = MSet([None, -1, -2, 0, N])")]], ops, pr, depth=4 if th else 3,
               gi=mk(E2), gm=mk(E2), limit=400000)
    js += split(sp, 8)
    W = [("p = p.add(A)", "p.add(A)"), ("p = p.add(B)", "p.add(B)"), ("p = p.add(7)", "p.add(7)"), ("p = p.add(-1)", "p.add(-1)"), ("p = p.discard(7)", "p.discard(7)"),
         ("p = p.discard(0)", "p.discard(0)"), ("p = p.remove(30)", "p.remove(30)"), ("p = p.remove(31)", "p.remove(31)"), ("(r, p) = p.pop()", "r = take(p, _r)"), ("p = p.discard(A2)", "p.discard(A2)"),
         ("p = p.addall(range(5, 40))", "p.update(range(5, 40))"), ("p = p.discardall(range(3, 1000))", "s_discardall(p, range(3, 1000))"), ("p = p.add(10**15)", "p.add(10**15)")]
    big = [[(f"p = pset(range({n}))", f"p = MSet(range({n}))")] for n in (30, 31, 32, 33, 1023, 1024, 1025)]
    js += split(Space('pset-large', big, W, [("reads(p)", "reads(p)")], depth=3 if th else 2, gi=mk(E1), gm=mk(E1)))
    js += sweep.sweep('pset-sizes', sweep.set_seeds('pset', sweep.SMALL + (sweep.LARGE if th else sweep.LARGE[:6])), menus.ps_updates(els=SE) + sized('p', 't'), [("reads(p)", "reads(p)")], gi=mk(RE), gm=mk(RE))
    js += sweep.sweep('pset-chains', sweep.chain_seeds('pset'), menus.ps_updates(els=sweep.CE), [("reads(p)", "reads(p)")], gi=mk(sweep.RC), gm=mk(sweep.RC), depth=3 if th else 2)
    js += pump.jobs(Space('pset', seeds(), menus.ps_updates(), pr, gi=mk(E1), gm=mk(E1)), rounds=300 if th else 70)
    js += huge.jobs('c04', 'pset', tier)
    return js
