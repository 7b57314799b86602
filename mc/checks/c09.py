"""C09: a tset is a faithful mutable set."""
from ..core import Space, split
from .. import menus, reads, syms, sweep, huge, pump
from .c04 import E1, E2, mk, SE, RE
BOUNDS = {
    'quick': "all histories of <= 4 in-place edits over 5 elements (three distinct with one hash, one equal to another, one with the next hash) from 5 starts; the same over special elements "
             "(NaN-like, None, False/0, -1/-2, huge and negative hashes); length 2 at the sizes 31-33 and 1023-1025; length 2 without merging states; every operation once on collections of 2049, 4097, 32769 and 33800 items",
    'thorough': "as quick with histories of <= 5 edits; huge collections at 17 sizes from 2047 to 65537",
}
ASSUMPTIONS = ["elements are opaque apart from == and hash"]
RULE = "a case of a huge collection is one operation on one representation of one size; distinct by construction"
huge_case = huge.case
def seeds():
    return [[("t = tset()", "t = MSet()")], [("t = tset([A, B, C])", "t = MSet([A, B, C])")], [("t = pset([D, A2, C]).transient()", "t = MSet([D, A2, C])")],
            [("t = tset(pset([C, A, B, D]).discard(A))", "t = MSet([C, B, D])")], [("t = tset([B, A]); t.discard(B); t.add(B)", "t = MSet([A, B])")]]
def jobs(tier):
    th = tier != 'quick'
    pr = [("reads(t)", "reads(t)"), ("type(t).__name__", "'tset'"), ("list(t.persistent())", "list(t)")]
    ops = menus.ts_updates()
    js = split(Space('tset', seeds(), ops, pr, depth=5 if th else 4, mutable=True, gi=mk(E1), gm=mk(E1), limit=80000), 8)
    js += split(Space('tset-unmerged', seeds(), ops, pr, depth=2, mutable=True, dedup=False, gi=mk(E1), gm=mk(E1)), 2)
    sp = []
    for x in ('N', 'N2', 'None', '0', 'False', '-1', '-2', 'BIG', 'NEG', 'M7', "''", 'True', 'Z', 'F0'):
        sp += [(f"t.add({x})", f"t.add({x})"), (f"t.discard({x})", f"t.discard({x})"), (f"t.remove({x})", f"t.remove({x})")]
    sp += [("r = t.pop()", "r = take(t, _r)"), ("t ^= pset([N, None, -1])", "s_ixor(t, [N, None, -1])"), ("t &= {N, 0, -2}", "s_iand(t, [N, 0, -2])")]
    js += split(Space('tset-special', [[("t = tset()", "t = MSet()")], [("t = tset([None, -1, -2, 0, N])", "t = MSet([None, -1, -2, 0, N])")]], sp, pr, depth=4 if th else 3, mutable=True, gi=mk(E2), gm=mk(E2), limit=80000), 8)
    W = [("t.add(A)", "t.add(A)"), ("t.add(B)", "t.add(B)"), ("t.add(7)", "t.add(7)"), ("t.discard(7)", "t.discard(7)"), ("t.discard(0)", "t.discard(0)"), ("t.remove(30)", "t.remove(30)"), ("t.remove(32)", "t.remove(32)"),
         ("r = t.pop()", "r = take(t, _r)"), ("t.update(range(5, 40))", "t.update(range(5, 40))"), ("t -= pset(range(3, 1000))", "s_discardall(t, range(3, 1000))"), ("t &= pset(range(20, 1010))", "s_iand(t, range(20, 1010))"),
         ("t ^= pset(range(10, 50))", "s_ixor(t, range(10, 50))"), ("t = t.copy()", "ok()")]
    for h in ("tset(range(%d))", "pset(range(%d)).transient()"):
        big = [[("t = " + h % n, f"t = MSet(range({n}))")] for n in (30, 31, 32, 33, 1023, 1024, 1025)]
        js += split(Space('tset-large-' + h[:4], big, W, [("reads(t)", "reads(t)")], depth=3 if th else 2, mutable=True, gi=mk(E1), gm=mk(E1)))
    sz = []
    for e in ("ES[:n]", "ES[:n // 2]", "ES[n // 2:n + 3]", "ES[1:n:2]"):
        e = e.replace('n', 'len(t)')
        sz += [(f"t.update({e})", f"t.update({e})"), (f"t.discardall({e})", f"s_discardall(t, {e})"), (f"t.removeall({e})", f"s_removeall_t(t, {e})"), (f"t |= set({e})", f"t.update([x for x in set({e})])" if 0 else f"t.update({e})"), (f"t -= pset({e})", f"s_discardall(t, {e})"),
               (f"t &= set({e})", f"s_iand(t, {e})"), (f"t ^= pset({e})", f"s_ixor(t, {e})"), (f"t ^= frozenset({e})" if 0 else f"t &= tset({e})", f"s_iand(t, {e})"), (f"t.difference_update({e})", f"s_discardall(t, {e})"), (f"t.symmetric_difference_update(tset({e}))", f"s_ixor(t, {e})")]
    sz = [(a, b) for (a, b) in sz if '|= set' not in a]
    js += sweep.sweep('tset-sizes', sweep.set_seeds('tset', sweep.SMALL + (sweep.LARGE if th else sweep.LARGE[:6]), 't'), menus.ts_updates(els=SE) + sz, [("reads(t)", "reads(t)")], gi=mk(RE), gm=mk(RE), mutable=True)
    js += sweep.sweep('tset-chains', sweep.chain_seeds('tset', 't'), menus.ts_updates(els=sweep.CE), [("reads(t)", "reads(t)")], gi=mk(sweep.RC), gm=mk(sweep.RC), mutable=True, depth=3 if th else 2)
    js += pump.jobs(Space('tset', seeds(), ops, pr, mutable=True, gi=mk(E1), gm=mk(E1)), rounds=300 if th else 70)
    js += huge.jobs('c09', 'tset', tier)
    return js
