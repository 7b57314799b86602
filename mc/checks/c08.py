"""C08: a tlist is a faithful mutable list."""
from ..core import Space, split
from .. import menus, syms, sweep, huge, pump
from .c01 import BUILTINS, bseeds
import pcollections as pc
BOUNDS = {
    'quick': "tlist and tllist: all histories of <= 3 in-place edits (lists up to 6 items, two distinct elements and an equal third, lazy values for tllist) from 6 starts "
             "(empty, from a plist with every kind of internal offset, from a list); all histories of 2 edits at the sizes 31-34 and 1023-1025; length 2 without merging; every operation once on collections of 2049, 4097, 32769 and 33800 items",
    'thorough': "as quick with histories of <= 4 edits; huge collections at 17 sizes from 2047 to 65537",
}
ASSUMPTIONS = ["elements are opaque apart from ==, <"]
RULE = "a case of a huge collection is one operation on one representation of one size; distinct by construction"
huge_case = huge.case
def const(x): return x
def L(x): return pc.lazy(const, x)
def gi(): return dict(L=L)
def gm(): return dict(L=lambda x: x)
def seeds(k, lz):
    P = 'llist' if lz else 'plist'
    B = 'L(B)' if lz else 'B'
    return [[(f"t = {k}()", "t = []")],
            [(f"t = {k}([A, {B}])", "t = [A, B]")],
            [(f"t = {P}([{B}]).prepend(A).prepend(A2).transient()", "t = [A2, A, B]")],
            [(f"t = {P}([A2, A, {B}, A]).delete(0).transient()", "t = [A, B, A]")],
            [(f"t = {P}([A]).prepend({B}).delete(-1).transient()", "t = [B]")],
            [(f"t = {k}({P}([{B}, A]).prepend(A))", "t = [A, B, A]")]]
SIDX = ('0', '-1', 'len(t) // 2', '-len(t)', 'len(t)', 'len(t) - 1', '7', '-7', '-len(t) - 1')
def jobs(tier):
    th = tier != 'quick'
    js = []
    for (k, lz) in (('tlist', 0), ('tllist', 1)):
        ops = menus.tl_updates(els=('A', 'L(B)' if lz else 'B', 'A2'))
        pr = [("type(t).__name__", f"'{k}'"), ("len(t)", "len(t)"), ("[t[i] for i in range(len(t))]", "list(t)"), ("list(reversed(t))", "list(reversed(t))"),
              ("list(t.persistent())", "list(t)")]
        js += split(Space(k, seeds(k, lz), ops, pr, depth=4 if th else 3, mutable=True, within='len(t) <= 6', gi=gi, gm=gm, limit=60000 if th else 30000), 8)
        js += split(Space(k + '-unmerged', seeds(k, lz), ops, pr, depth=2, mutable=True, dedup=False, within='len(t) <= 6', gi=gi, gm=gm), 2)
        js += pump.jobs(Space(k, seeds(k, lz)[:4], menus.tl_updates(els=('A', 'L(B)' if lz else 'B'), idx=(0, 1, -1, -2), lite=True), pr, mutable=True, gi=gi, gm=gm), rounds=300 if th else 70)
        big = []
        P = 'llist' if lz else 'plist'
        for n in (31, 32, 33, 34, 1023, 1024, 1025):
            mk = f"[VALS[i % 8] for i in range({n})]"
            big.append([(f"t = {k}({mk})", f"t = {mk}")])
            big.append([(f"t = {P}({mk}[2:]).prepend(v1).prepend(v0).transient()", f"t = {mk}")])
        W = [("t.append(A)", "t.append(A)"), ("t.prepend(A)", "t.insert(0, A)"), ("t.insert(5, A)", "t.insert(5, A)"), ("t.insert(-5, A)", "t.insert(-5, A)"), ("del t[0]", "del t[0]"),
             ("del t[-1]", "del t[-1]"), ("del t[6]", "del t[6]"), ("del t[-6]", "del t[-6]"), ("r = t.pop()", "r = t.pop()"), ("r = t.pop(0)", "r = t.pop(0)"), ("t[0] = B", "t[0] = B"),
             ("t[-1] = B", "t[-1] = B"), ("t[31] = B", "t[31] = B") , ("t.reverse()", "t.reverse()"), ("t.sort()", "t.sort()"), ("t *= 2", "t *= 2"), ("t += t", "t += t"),
             ("t.extend(t)", "t.extend(t)"), ("t.remove(v6)", "t.remove(v6)"), ("t = t.copy()", "t = t.copy()"), ("t.clear()", "t.clear()"), ("t = t + [A]", "t = t + [A]"), ("t = [A, B] + t", "t = [A, B] + t")]
        js += split(Space(k + '-large', big, W, pr[:2], depth=3 if th else 2, mutable=True, within='len(t) < 200 or len(t) < 1030 and False', gi=gi, gm=gm))
        js += split(Space(k + '-1024', big[8:], W, pr[:2], depth=1, mutable=True, gi=gi, gm=gm))
        SW = menus.tl_updates(els=('A', 'L(ES[3])' if lz else 'ES[3]', 'A2'), idx=SIDX, lite=True)
        js += sweep.sweep(k + '-sizes', sweep.list_seeds(k, sweep.SMALL + (sweep.LARGE[:10] if th else ()), 't'), SW, pr, gi=gi, gm=gm, mutable=True)
        for (i, e) in enumerate(BUILTINS):
            js += split(Space(f'{k}-builtins{i}', bseeds(e, k, 't'), menus.tl_updates(els=e, idx=(0, 1, -1), lite=True), pr, depth=3 if th else 2, mutable=True, within='len(t) <= 5'), 2)
    js += huge.jobs('c08', 'tlist', tier)
    js += huge.jobs('c08', 'tllist', tier)
    return js
