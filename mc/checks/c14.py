"""C14: updates that change nothing and empty results return the canonical object."""
from .. import core, syms, menus, sweep
from ..core import Space, split
from ..reads import o
import pcollections as pc
BOUNDS = {
    'quick': "plist, llist, pset, pdict, ldict: all update histories of <= 3 (sets 4) steps over elements with equal hashes and equal elements; in every state every listed no-op is executed and must return the same object, "
             "every effective update a different one, and everything built from or converted from something empty the one empty instance; "
             "the same no-ops and effective updates, at every index and for every member, from every representation of every size 0-72 and of 6 sizes up to 129, and for keys with one common hash",
    'thorough': "as quick with one more step",
}
ASSUMPTIONS = []
def const(x): return x
def L(x): return pc.lazy(const, x)
G = {}
class It:
    def __init__(self, l): self.l = l
    def __iter__(self): return iter(self.l)
def empties():
    """Every construction of something empty, and whether it is the canonical instance."""
    out = []
    C = pc
    srcs = [lambda: (), lambda: [], lambda: {}, lambda: set(), lambda: iter(()), lambda: (x for x in ()), lambda: It([]), lambda: '', lambda: C.plist(), lambda: C.tlist(), lambda: C.llist(), lambda: C.tllist(), lambda: C.pset(), lambda: C.tset(),
            lambda: C.pdict(), lambda: C.tdict(), lambda: C.ldict(), lambda: C.tldict(), lambda: frozenset(), lambda: range(0), lambda: C.plist([1]).transient().clear() or C.tlist(), lambda: {}.items(), lambda: C.pdict().items()]
    for cls in (C.plist, C.llist, C.pset, C.pdict, C.ldict):
        e = cls.empty
        n = cls.__name__
        out.append((n + '()', cls() is e)); out.append((n + ' type', type(e) is cls)); out.append((n + ' len', len(e) == 0 and list(e) == []))
        for (i, s) in enumerate(srcs):
            out.append((f'{n} from source {i}', cls(s()) is e))
        out.append((n + ' clear', e.clear() is e)); out.append((n + ' copy', e.copy() is e)); out.append((n + ' round trip', e.transient().persistent() is e))
        t = e.transient()
        if cls in (C.plist, C.llist): t.append(1); t.pop()
        elif cls is C.pset: t.add(1); t.discard(1)
        else: t[1] = 1; del t[1]
        out.append((n + ' emptied transient', t.persistent() is e)); out.append((n + ' of emptied transient', cls(t) is e))
        if cls in (C.plist, C.llist): t.append(1)
        elif cls is C.pset: t.add(1)
        else: t[1] = 1
        t.clear()
        out.append((n + ' cleared transient', t.persistent() is e)); out.append((n + ' transient class empty()', type(t).empty().persistent() is e))
        out.append((n + ' still empty', len(e) == 0 and list(e) == [] and cls() is e))
    return out
def truth(x): return [(a, True) for (a, b) in x]
def noops(p):
    out = []
    def rd(label, fn, want=True): out.append((label, o(fn), want))
    def same(label, fn): rd(label, lambda: fn() is p)
    def diff(label, fn): rd(label, lambda: fn() is not p)
    cls = type(p)
    # an empty result of an update may be another object than the canonical one, which conversions return
    def canon(label, fn): rd(label, lambda: (lambda q: q is p or len(p) == 0 and q is cls.empty)(fn()))
    same('copy()', p.copy); canon('cls(p)', lambda: cls(p)); canon('round trip', lambda: p.transient().persistent())
    canon('round trip after reading', lambda: (lambda t: (len(t), list(t), t == p, t.persistent())[-1])(p.transient()))
    same('clear().. is the empty instance', lambda: p if p.clear() is cls.empty else None)
    if isinstance(p, pc.plist):
        n = len(p)
        raw = pc.holdlazy(p)
        for i in range(-n, n):
            same(f'set({i}, same)', lambda: p.set(i, raw[i])); diff(f'set({i}, other)', lambda: p.set(i, syms.D if raw[i] is not syms.D else syms.G))
            diff(f'set({i}, equal)', lambda: p.set(i, syms.A2 if raw[i] is syms.A else syms.D))
        for i in (n, n + 1, -n - 1, n + 100, -n - 100): same(f'drop({i})', lambda: p.drop(i))
        same('+ []', lambda: p + []); same('[] +', lambda: [] + p); same('+ plist()', lambda: p + pc.plist()); same('+ llist()', lambda: p + pc.llist())
        def aug():
            q = p
            q += []
            return q
        same('+= []', aug)
        diff('append', lambda: p.append(syms.A)); diff('prepend', lambda: p.prepend(syms.A)); diff('extend', lambda: p.extend([syms.A])); diff('insert', lambda: p.insert(1, syms.A))
        if n: diff('delete', lambda: p.delete()); diff('drop', lambda: p.drop())
    elif isinstance(p, pc.pset):
        els = list(p)
        eq = [{id(syms.A): syms.A2, id(syms.A2): syms.A, id(syms.B): syms.B2, id(syms.D): syms.D2}.get(id(x), x) for x in els]
        absent = [x for x in (syms.A, syms.B, syms.C, syms.D, syms.G, syms.Z) if x not in els]
        for x in els + eq: same(f'add({x})', lambda: p.add(x)); diff(f'discard({x})', lambda: p.discard(x)); diff(f'remove({x})', lambda: p.remove(x))
        for x in absent: same(f'discard({x})', lambda: p.discard(x)); diff(f'add({x})', lambda: p.add(x)); diff(f'addall([{x}])', lambda: p.addall([x])); diff('union', lambda: p.union([x]))
        same('addall(present)', lambda: p.addall(els)); same('addall(equal)', lambda: p.addall(iter(eq))); same('addall(())', lambda: p.addall(())); same('addall(self)', lambda: p.addall(p))
        same('discardall(absent)', lambda: p.discardall(absent)); same('discardall(())', lambda: p.discardall(())); same('removeall(())', lambda: p.removeall(()))
        same('union()', lambda: p.union()); same('union(present)', lambda: p.union(els, eq)); same('difference(absent)', lambda: p.difference(absent)); same('difference()', lambda: p.difference())
        same('intersection(self)', lambda: p.intersection(p)); same('intersection(superset)', lambda: p.intersection(set(eq) | set(absent))); same('intersection()', lambda: p.intersection())
        if els:
            for f in ('difference', 'discardall', 'removeall'): diff(f, lambda: getattr(p, f)(els[:1]))
            diff('intersection', lambda: p.intersection(set(els[1:]))); diff('symmetric_difference(one in, one out)', lambda: p.symmetric_difference({els[0], syms.NEG}))
            diff('pop', lambda: p.pop()[1])
    else:
        raw = list(pc.holdlazy(p).items())
        absent = [x for x in (syms.A, syms.B, syms.C, syms.D, syms.G, syms.Z) if x not in p]
        for (k, v) in raw:
            k2 = {id(syms.A): syms.A2, id(syms.A2): syms.A, id(syms.B): syms.B2}.get(id(k), k)
            for kk in (k, k2):
                same(f'set({kk}, same)', lambda: p.set(kk, v)); diff(f'set({kk}, other)', lambda: p.set(kk, syms.v7 if v is not syms.v7 else syms.v6)); same(f'setdefault({kk})', lambda: p.setdefault(kk, syms.v7)); diff(f'drop({kk})', lambda: p.drop(kk))
        for k in absent:
            same(f'drop({k})', lambda: p.drop(k)); same(f'pop({k}, d)', lambda: p.pop(k, 1)[1]); diff(f'set({k})', lambda: p.set(k, syms.v7)); diff(f'setdefault({k})', lambda: p.setdefault(k, syms.v7))
    return out
def want(p): return None
def allnoops(p): return [(a, r) for (a, r, w) in noops(p) if r != ('ok', w)]
def jobs(tier):
    th = tier != 'quick'
    js = []
    g = dict(gi=dict(noops=allnoops, empties=lambda: [a for (a, b) in empties() if not b], L=L), gm=dict(noops=lambda p: [], empties=lambda: [], L=lambda x: x))
    pr = [("noops(p)", "noops(p)")]
    first = [("empties()", "empties()")]
    for (k, lz) in (('plist', 0), ('llist', 1)):
        B = 'L(B)' if lz else 'B'
        ops = menus.pl_updates(els=('A', B, 'A2'), idx=(0, 1, -1), lite=True, cls=k, tcls='tllist' if lz else 'tlist')
        seeds = [[(f"p = {k}()", "p = []")], [(f"p = {k}([A, {B}, A2])", "p = [A, B, A2]")], [(f"p = {k}([{B}]).prepend(A)", "p = [A, B]")]]
        js += split(Space(k, seeds, ops, pr, depth=4 if th else 3, within='len(p) <= 4', limit=30000 if th else 10000, **g), 8)
    for (k, lz) in (('pdict', 0), ('ldict', 1)):
        v = ('v1', 'L(v2)') if lz else ('v1', 'v2')
        ops = [o for o in menus.pd_updates(keys=('A', 'B', 'C', 'A2'), vals=v, cls=k, tcls='tldict' if lz else 'tdict') if 'UH' not in o[0]]
        seeds = [[(f"p = {k}()", "p = {}")], [(f"p = {k}([(C, v1), (A, {v[1]}), (B, v3)])", "p = {C: v1, A: v2, B: v3}")], [(f"p = {k}({{A: v1, D: {v[1]}}})", "p = {A: v1, D: v2}")]]
        js += split(Space(k, seeds, ops, pr, depth=4 if th else 3, within='len(p) <= 4', limit=30000 if th else 15000, **g), 8)
    ops = [o for o in menus.ps_updates() if 'UH' not in o[0]]
    seeds = [[("p = pset()", "p = MSet()")], [("p = pset([A, B, D])", "p = MSet([A, B, D])")], [("p = pset([C, A2])", "p = MSet([C, A2])")]]
    js += split(Space('pset', seeds, ops, pr, depth=5 if th else 4, limit=60000, **g), 8)
    sz = tuple(n for n in sweep.sizes(tier) if n <= (1025 if th else 130))
    for k in ('plist', 'llist'): js += sweep.sweep(k + '-sizes', sweep.list_seeds(k, sz), [], pr, g['gi'], g['gm'], depth=0)
    for k in ('pdict', 'ldict'): js += sweep.sweep(k + '-sizes', sweep.dict_seeds(k, sz) + sweep.chain_seeds(k), [], pr, g['gi'], g['gm'], depth=0)
    js += sweep.sweep('pset-sizes', sweep.set_seeds('pset', sz) + sweep.chain_seeds('pset'), [], pr, g['gi'], g['gm'], depth=0)
    # the empty instances, asked for after every history of a few edits of transients made from them
    ops = []
    for (e, m) in (("plist.empty.transient().append(A)", 0), ("_t = plist().transient(); _t.append(A); p = _t.persistent()", 0), ("_t = llist.empty.transient(); _t.append(A); _t.clear(); _t.append(B)", 0),
                   ("_t = pset.empty.transient(); _t.add(A); p = _t.persistent()", 0), ("_t = tset(pset()); _t.add(A); p = pset(_t)", 0), ("_t = pdict.empty.transient(); _t[A] = v1; p = _t.persistent()", 0),
                   ("_t = tdict(pdict.empty); _t[A] = v1; _t.pop(A)", 0), ("_t = ldict.empty.transient(); _t[A] = L(v1); p = ldict(_t)", 0), ("p = plist.empty.append(A).delete()", 0), ("p = pset.empty.add(A).discard(A)", 0), ("p = pdict.empty.set(A, v1).drop(A)", 0),
                   ("p = llist.empty.append(L(A)).clear()", 0), ("_t = tlist.empty(); _t.append(A)", 0), ("_t = tset.empty(); _t.add(A)", 0), ("_t = tdict.empty(); _t[A] = v1", 0), ("_t = tldict.empty(); _t[A] = v1", 0), ("_t = tllist.empty(); _t.append(A)", 0)):
        ops.append((e + "; p = 0", "p = 0"))
    js += split(Space('empty-instances', [[("p = 0", "p = 0")]], ops, first, depth=3 if th else 2, dedup=False, mutable=True, **g), 8)
    return js
