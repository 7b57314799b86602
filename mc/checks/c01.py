"""C01: a plist goes through every update history exactly as a list would."""
from ..core import Space, split
from .. import menus, sweep, huge, pump
BOUNDS = {
    'quick': "all update histories of length <= 4 (lists up to 5 items, 3 elements, two of them equal) from 7 starts "
             "(empty, short, negative/zero/straddling/positive internal offset); all of length <= 2 at the sizes 31-34, 1023-1026; "
             "each history also executed without merging states up to length 2; every operation once on collections of 2049, 4097, 32769 and 33800 items",
    'thorough': "as quick with histories of length <= 6 and at boundary sizes <= 3; huge collections at 17 sizes from 2047 to 65537",
}
ASSUMPTIONS = ["elements are opaque to the library apart from ==, <, hash (data independence)",
               "states are merged when everything reachable from the variables (hidden fields included) is equal"]
RULE = "a case of a huge collection is one operation on one representation of one size; distinct by construction"
huge_case = huge.case
KIND = [("type(p).__name__", "'plist'"), ("len(p)", "len(p)"), ("list(p)", "list(p)"), ("[p[i] for i in range(len(p))]", "list(p)"),
        ("bool(p)", "bool(p)")]
def seeds():
    return [
        [("p = plist()", "p = []")],
        [("p = plist([A, B])", "p = [A, B]")],
        [("p = plist([B]).prepend(A).prepend(A2)", "p = [A2, A, B]")],            # negative offset, straddling zero
        [("p = plist([B, B, A, A2]).delete(0).delete(0)", "p = [A, A2]")],        # positive offset
        [("p = plist().prepend(A).prepend(B)", "p = [B, A]")],                    # all below zero
        [("p = plist([A]).prepend(B).delete(-1)", "p = [B]")],
        [("p = plist(tlist([A, B, A2]))", "p = [A, B, A2]")],
    ]
def big_seeds(ns):
    o = []
    for n in ns:
        o.append([(f"p = plist([VALS[i % 8] for i in range({n})])", f"p = [VALS[i % 8] for i in range({n})]")])
    for n in ns:
        k = 5
        o.append([(f"p = plist([VALS[i % 8] for i in range({k}, {n})])\nfor _i in range({k}-1, -1, -1): p = p.prepend(VALS[_i % 8])",
                   f"p = [VALS[i % 8] for i in range({n})]")])
    return o
def big_ops(n):
    o = [(f"p = p.append(A)", "p.append(A)"), ("p = p.prepend(A)", "p.insert(0, A)"), ("p = p.delete()", "del p[-1]"), ("p = p.delete(0)", "del p[0]"),
         ("p = p.delete(7)", "del p[7]"), ("p = p.delete(-7)", "del p[-7]"), ("p = p.insert(7, B)", "p.insert(7, B)"), ("p = p.insert(-7, B)", "p.insert(-7, B)"),
         ("p = p.set(0, B)", "p[0] = B"), ("p = p.set(-1, B)", "p[-1] = B"), ("p = p.set(31, B)", "p[31] = B"), ("p = p.set(32, B)", "p[32] = B"),
         ("p = p[1:]", "p = p[1:]"), ("p = p[::-1]", "p = p[::-1]"), ("p = p[:33]", "p = p[:33]"), ("p = p.reverse()", "p.reverse()"),
         ("(r, p) = p.pop()", "r = p.pop()"), ("(r, p) = p.pop(0)", "r = p.pop(0)"), ("p = p + [A, B]", "p = p + [A, B]"), ("p = [A, B] + p", "p = [A, B] + p"),
         ("p = p + p", "p = p + p"), ("p = p.sort()", "p.sort()"), ("p = p.remove(v5)", "p.remove(v5)"), ("p = p.extend(p.transient())", "p.extend(p)"),
         ("_t = p.transient(); _t.append(A); _t.insert(3, B); p = _t.persistent(); del _t", "p.append(A); p.insert(3, B)"),
         ("p = p.clear()", "p.clear()")]
    return o
SIDX = ('0', '-1', 'len(p) // 2', '-len(p)', 'len(p)', 'len(p) - 1', '7', '-7', '-len(p) - 1')
BUILTINS = [('None', '1', 'True'), ("''", '0', 'False'), ('float("nan")', 'N', '0.0'), ('-1', '-2', '-1.0'), ('()', '[]', '(1, 2)'), ('"ab"', 'b""', 'Ellipsis')]
BUILTINS = [tuple(x.replace('float("nan")', 'N2') for x in e) for e in BUILTINS]
def bseeds(e, k='plist', v='p'):
    return [[(f"{v} = {k}()", f"{v} = []")], [(f"{v} = {k}([{', '.join(e)}])", f"{v} = [{', '.join(e)}]")]]
def jobs(tier):
    th = tier != 'quick'
    ops = menus.pl_updates()
    s = Space('plist', seeds(), ops, KIND, depth=6 if th else 4, within='len(p) <= 5', limit=400000 if th else 60000)
    js = split(s, 8 if th else 4)
    flat = Space('plist-unmerged', seeds(), ops, KIND, depth=3 if th else 2, dedup=False, within='len(p) <= 12')
    js += split(flat, 4)
    small = (30, 31, 32, 33, 34, 63, 64, 65)
    large = (1023, 1024, 1025, 1056) if not th else (1022, 1023, 1024, 1025, 1026, 1055, 1056, 1057, 2047, 2048, 2049)
    js += split(Space('plist-32', big_seeds(small), big_ops(33), KIND[:2], depth=3 if th else 2, within='len(p) < 150'))
    SW = menus.pl_updates(els=('A', 'ES[3]', 'A2'), idx=SIDX, lite=True)
    js += sweep.sweep('plist-sizes', sweep.list_seeds('plist', sweep.SMALL + (sweep.LARGE if th else sweep.LARGE[:7])), SW, KIND)
    for (i, e) in enumerate(BUILTINS):
        js += split(Space(f'plist-builtins{i}', bseeds(e), menus.pl_updates(els=e, idx=(0, 1, -1), lite=True), KIND, depth=3 if th else 2, within='len(p) <= 5'), 2)
    js += split(Space('plist-1024', big_seeds(large), big_ops(1025), KIND[:2], depth=2 if th else 1, within='len(p) < 2100'))
    js += huge.jobs('c01', 'plist', tier)
    js += pump.jobs(Space('plist', seeds(), menus.pl_updates(els=('A', 'B'), idx=(0, 1, -1, -2), lite=True), KIND), rounds=300 if th else 70)
    return js
