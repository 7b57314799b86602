"""C24: mutation syntax on persistent collections is rejected or rebinds."""
from .. import core, menus, syms
from ..core import Space, split
import pcollections as pc
BOUNDS = {
    'quick': "plist, llist, pset, pdict, ldict: all histories of <= 2 statements out of every mutation statement (item, slice and attribute assignment, deletion, augmented assignment with operands of every kind) and the updates of C01/C04/C06, "
             "from 4 starts each with an alias, and of 3 statements when two of them are mutation statements; after each the collection, its alias and every earlier version are compared by identity of contents, and every public method is called with 16 argument tuples to see that it returns something",
    'thorough': "as quick with all histories of <= 3 statements",
}
ASSUMPTIONS = ["attributes are assigned by ordinary syntax or setattr, not by object.__setattr__"]
ARGS = [(), (0,), (-1,), (syms.A,), (syms.D,), (0, syms.B), (syms.A, syms.v1), (syms.D, syms.v1), ([syms.A, syms.B],), ([],), ({syms.A: syms.v1},), ([(syms.D, syms.v2)],), ([syms.A], [syms.v5]), ({syms.D, syms.A},), ({syms.C}, {syms.B}), (7,)]
READS = ('get', 'getlazy')
EXPECT = dict(plist='set delete drop pop append prepend insert remove sort reverse clear extend copy transient count index', pset='add discard remove pop clear addall discardall removeall union intersection difference symmetric_difference copy transient isdisjoint issubset issuperset',
              pdict='set drop delete pop popitem setdefault update setall dropall deleteall clear copy transient keys values items')
EXPECT['llist'] = EXPECT['plist'] + ' ready_all as_plist is_lazy is_ready'; EXPECT['ldict'] = EXPECT['pdict'] + ' ready_all as_pdict is_lazy is_ready'
class Silent(object):
    pass
def public(p):
    "The public methods that answer None, and the documented ones that cannot be called."
    bad = []
    names = [n for n in dir(type(p)) if n[0] != '_' and n != 'empty']
    names += [n for n in ('__add__', '__radd__', '__mul__', '__rmul__', '__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__') if hasattr(p, n)]
    for n in names:
        if n in READS or n == 'index' or n == 'count': continue
        f = getattr(p, n, None)
        if not callable(f): continue
        for a in ARGS:
            core.tick()
            try: r = f(*a)
            except Exception: continue
            if r is None: bad.append(f"{n}{a}")
            elif type(r) is tuple and n in ('pop', 'popitem') and (len(r) != 2 or r[1] is None): bad.append(f"{n}{a} = {r}")
    for n in EXPECT[type(p).__name__].split():
        if not callable(getattr(p, n, None)): bad.append(f"no {n}")
    return bad
ATTRS = ('x', 'empty', '_start', '_phamt', '_els', '_idx', '_top', '_hashcode', 'append', 'set', 'add', '__class__', '__dict__', '__len__')
def const(x): return x
def L(x): return pc.lazy(const, x)
def R(*a): raise TypeError()
def gi(): return dict(L=L, public=public)
def gm(): return dict(L=lambda x: x, public=lambda p: [], R=R)
def rejected(p, keys, slices):
    o = []
    for k in keys: o += [f"{p}[{k}] = A", f"del {p}[{k}]"]
    if slices: o += [f"{p}[{s}] = [A]" for s in (':', '0:1', '1:', '::2', '5:', '::-1')] + [f"del {p}[{s}]" for s in (':', '0:1', '::2', '9:')]
    for a in ATTRS: o += [f"{p}.{a} = A"]
    o += [f"setattr({p}, 'empty', {p})", f"setattr({p}, '_hashcode', 5)", f"{p}.x, {p}.y = A, B"]
    return [(s, "R()") for s in o]
def jobs(tier):
    th = tier != 'quick'
    js = []
    for (k, t, lz) in (('plist', 'tlist', 0), ('llist', 'tllist', 1)):
        b = 'L(B)' if lz else 'B'
        seeds = [[(f"p = {k}([A, {b}])", "p = [A, B]"), ("q = p", "q = list(p)")], [(f"p = {k}()", "p = []"), ("q = p", "q = list(p)")],
                 [(f"p = {k}([{b}]).prepend(A).prepend(A2)", "p = [A2, A, B]"), ("q = p.append(C)", "q = p + [C]")], [(f"p = {k}([C, A, {b}, A2]).delete(0)", "p = [A, B, A2]"), ("q = p; h = hash(p)", "q = list(p)")]]
        mut = rejected('p', ('0', '-1', '1', '99', "'x'", 'A', 'None'), True)
        mut += [("p += [A]", "p = p + [A]"), ("p += []", "ok()"), (f"p += {k}([C, {b}])", "p = p + [C, B]"), ("p += p", "p = p + p"), ("p += q", "p = p + q"), (f"p += {k}()", "ok()"), ("p *= 2", "p = p * 2"), ("p *= 1", "ok()"), ("p *= 0", "p = []"), ("p *= -3", "p = []"),
                ("p += 5", "R()"), ("p += None", "R()"), ("p |= {A}", "R()"), ("p &= {A}", "R()"), ("p -= [A]", "R()"), ("p ^= {A}", "R()"), ("p[0] += 1", "p[0]; R()"), ("p -= q", "R()"), ("p /= 2", "R()"), ("q += [D]", "q = q + [D]"), ("q *= 2", "q = q * 2"), ("(p, q) = (q, p)", "(p, q) = (q, p)"), ("q = p", "q = list(p)")]
        ups = menus.pl_updates(els=('A', b, 'A2'), idx=(0, -1, 1), cls=k, tcls=t, lite=True)
        js += spaces(k, seeds, mut, ups, th, "len(p) <= 6 and len(q) <= 6")
    for (k, t, lz) in (('pdict', 'tdict', 0), ('ldict', 'tldict', 1)):
        v = 'L(v2)' if lz else 'v2'
        seeds = [[(f"p = {k}([(A, v1), (B, {v})])", "p = {A: v1, B: v2}"), ("q = p", "q = dict(p)")], [(f"p = {k}()", "p = {}"), ("q = p", "q = dict(p)")],
                 [(f"p = {k}([(C, v1), (A, {v}), (B, v3), (D, v4)]).drop(A)", "p = {C: v1, B: v3, D: v4}"), ("q = p.set(A2, v5)", "q = dict(p); q[A2] = v5")], [(f"p = {k}(x=v1, y={v})", "p = {'x': v1, 'y': v2}"), ("q = p; h = hash(p)", "q = dict(p)")]]
        mut = rejected('p', ('A', 'B', 'A2', 'D', "'x'", '0', 'None'), True)
        mut += [(f"p {o}= {x}", "R()") for o in ('+', '-', '*', '&', '^', '/') for x in ('p', '2', '{A: v1}')] + [("(p, q) = (q, p)", "(p, q) = (q, p)"), ("q = p", "q = dict(p)")]
        mut += [("p |= 5", "R()"), ("p |= None", "R()"), ("p[A] += 1", "p[A]; R()")]
        js += spaces(k, seeds, mut, menus.pd_updates(vals=('v1', v), cls=k, tcls=t), th, None)
    seeds = [[("p = pset([A, B, C])", "p = MSet([A, B, C])"), ("q = p", "q = p.copy()")], [("p = pset()", "p = MSet()"), ("q = p", "q = p.copy()")],
             [("p = pset([C, A2, B, D]).discard(C)", "p = MSet([A2, B, D])"), ("q = p.add(A)", "q = p.copy(); q.add(A)")], [("p = tset([B, A]).persistent()", "p = MSet([B, A])"), ("q = p.add(D); h = hash(p)", "q = p.copy(); q.add(D)")]]
    mut = rejected('p', ('A', 'B', '0', "'x'", 'None'), True)
    for (i, m) in (('|=', 'p.update({})'), ('&=', 's_iand(p, {})'), ('-=', 's_discardall(p, {})'), ('^=', 's_ixor(p, {})')):
        for (x, y) in (('{A, D}', '[A, D]'), ('frozenset([B])', '[B]'), ('pset([C, A2])', '[C, A2]'), ('tset([D, B])', '[D, B]'), ('set()', '[]'), ('pset()', '[]'), ('p', 'p.copy()'), ('q', 'q.copy()'), ('p.transient()', 'p.copy()'), ('{A: v1}.keys()', '[A]'), ('pdict({B: v1}).keys()', '[B]')):
            if x == '{A, D}': x, y = 'pset([A, D])', '[A, D]'       # (a set has no order to compare with)
            mut.append((f"p {i} {x}", m.format(y)))
        mut += [(f"p {i} [A]", "R()"), (f"p {i} 5", "R()"), (f"q {i} pset([A, Z])", m.format('[A, Z]').replace('p', 'q', 1).replace('q.uqdate', 'q.update') if m[0] == 'p' else m.format('[A, Z]').replace('(p,', '(q,'))]
    mut += [("p += {A}", "R()"), ("p += p", "R()"), ("p *= 2", "R()"), ("(p, q) = (q, p)", "(p, q) = (q, p)"), ("q = p", "q = p.copy()")]
    js += spaces('pset', seeds, mut, menus.ps_updates(), th, None)
    return js
def spaces(k, seeds, mut, ups, th, within):
    pr = [("type(p).__name__", f"'{k}'"), ("type(q).__name__", f"'{k}'"), ("public(p)", "public(p)")]
    n = len(mut)
    js = split(Space(k, seeds, mut + ups, pr, depth=3 if th else 2, within=within, gi=gi, gm=gm, limit=200000), 4)
    if not th: js += split(Space(k + '-mutations', seeds, mut + ups[::5], pr[:2], depth=3, within=within, gi=gi, gm=gm, limit=60000), 2)
    return js
