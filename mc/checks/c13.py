"""C13: equal collections have equal hashes and hashes never change."""
from .. import core, cases, syms, menus, sweep
from ..core import Space, split
from ..cases import attempt
import pcollections as pc, itertools
TECHNIQUE = 'explicit-state exploration of update histories with hash requests interleaved, plus enumeration of all pairs of equal collections'
BOUNDS = {
    'quick': "plist, pset, pdict, llist, ldict: all update histories of <= 3 (sets 4) steps in which asking for the hash is itself a step (so versions are derived from hashed and unhashed parents); in every state the hash "
             "equals that of the same contents built directly, in the other kinds and in another insertion order, is stable, is that of no-op derivations, and the collection is found as a dict key; "
             "the same from every representation of every size 0-72 and of 14 sizes up to 1025 and one hashed update of each, and for lists of elements with different hashes to depth 4; "
             "all pairs among 500 collections with equal but distinct elements, compared for equality and hash",
    'thorough': "as quick with one more step",
}
ASSUMPTIONS = ["elements obey the hash contract (equal elements have equal hashes)"]
RULE = "a case is a pair of collection expressions; distinct by construction"
def const(x): return x
def L(x): return pc.lazy(const, x)
G = core.impl_globals(dict(L=L))
def hashes(p):
    """True if every hash law holds for p."""
    if isinstance(p, (list, dict, core.model.MSet)): return 'ok'
    h = hash(p)
    if type(h) is not int: return f'hash is {h!r}'
    if hash(p) != h: return 'hash differs the second time'
    def chk(q, what):
        if q == p:
            if hash(q) != h: return f'an equal collection ({what}) has another hash'
            if {p: 1}.get(q) != 1 or q not in {p} or p not in {q}: return f'not found in a dict by an equal key ({what})'
        elif p == q: return f'equality is not symmetric ({what})'
        else:
            return f'{what} is not equal'
    if isinstance(p, pc.plist):
        els = list(p)
        alt = [(pc.plist(els), 'plist(list)'), (pc.llist(els), 'llist(list)'), (pc.plist(els[1:]).prepend(els[0]) if els else pc.plist(), 'prepended'), (pc.llist([L(x) for x in els]), 'llist of lazies'),
               (pc.tlist(els).persistent(), 'from tlist'), (pc.plist([ALT.get(id(x), x) for x in els]), 'equal elements'), (p.append(syms.D).delete(), 'append+delete'), (p.transient().persistent(), 'round trip'), (p[:], 'p[:]')]
    elif isinstance(p, pc.pset):
        els = list(p)
        alt = [(pc.pset(els), 'pset(list)'), (pc.pset(els[::-1]), 'other order'), (frozenset(els), 'frozenset'), (pc.pset([syms.G] + els).discard(syms.G), 'add+discard'), (pc.pset([ALT.get(id(x), x) for x in els]), 'equal elements'),
               (p.transient().persistent(), 'round trip'), (pc.tset(p), 'tset'), (p | p, 'p | p')]
    else:
        els = list(p.items())
        alt = [(pc.pdict(els), 'pdict(list)'), (pc.pdict(els[::-1]), 'other order'), (pc.ldict(els), 'ldict'), (pc.ldict([(k, L(v)) for (k, v) in els]), 'ldict of lazies'), (pc.pdict([(syms.G, 1)] + els).drop(syms.G), 'set+drop'),
               (pc.pdict([(ALT.get(id(k), k), ALT.get(id(v), v)) for (k, v) in els]), 'equal items'), (p.transient().persistent(), 'round trip')]
    for (q, what) in alt:
        e = chk(q, what)
        if e: return e
    if hash(p) != h: return 'hash changed after comparisons and derivations'
    return 'ok'
ALT = {id(syms.A): syms.A2, id(syms.A2): syms.A, id(syms.B): syms.B2, id(syms.D): syms.D2}
def case(xs, ys):
    p, q = cases.ev(xs, G), cases.ev(ys, G)
    a, b = attempt(lambda: p == q), attempt(lambda: q == p)
    if a[0] == 'exc' or b[0] == 'exc': return f"{xs} == {ys} raised {a if a[0] == 'exc' else b}"
    if a[1] != b[1]: return f"{xs} == {ys} is {a[1]} but reversed {b[1]}"
    if a[1]:
        ha, hb = attempt(lambda: hash(p)), attempt(lambda: hash(q))
        if ha != hb: return f"{xs} == {ys} but the hashes differ: {ha[1]} {hb[1]}"
        if ha[0] == 'ok' and (q not in {p: 1} or p not in {q: 1}): return f"{xs} and {ys}: equal but not found as dict keys"
    return None
def universe():
    els = ('A', 'A2', 'B', '1', 'True', 'v2')
    u = []
    for n in range(3):
        for s in itertools.product(els, repeat=n):
            e = ', '.join(s)
            u += [f"plist([{e}])", f"llist([{', '.join('L(%s)' % x for x in s)}])"]
            if n < 2 or s[0] != s[1]: u += [f"pset([{e}])", f"frozenset([{e}])"]
            if n < 2: u += [f"tset([{e}])"]
    for n in range(3):
        for ks in itertools.permutations(('A', 'A2', 'B', '1'), n):
            for vs in itertools.product(('v1', '1', 'True') if n < 2 else ('v1', '1'), repeat=n):
                u += [f"pdict([{', '.join(f'({k}, {v})' for (k, v) in zip(ks, vs))}])", f"ldict([{', '.join(f'({k}, L({v}))' for (k, v) in zip(ks, vs))}])"]
    u += ['plist([plist([A])])', 'plist([llist([L(A2)])])', 'pset([plist([A])])', 'pset([llist([A2])])', 'pset([pset([A, B])])', 'pset([frozenset([B, A2])])', 'pdict({plist([A]): pset([B])})', 'ldict({llist([L(A)]): L(frozenset([B]))})',
          'pset([pdict({A: v1})])', 'pset([ldict({A2: L(v1)})])']
    return u
SLICES = [(f"p[{x}]", f"p = p[{x}]") for x in ("::-1", "1:", ":-1", "::2", "1:-1", ":0")]
def jobs(tier):
    th = tier != 'quick'
    js = []
    pr = [("hashes(p)", "hashes(p)")]
    H = [("r = hash(p); p.transient()", "r = _r"), ("r = {p: 1}[p]", "r = 1"), ("r = repr(p) and hash(p)", "r = _r")]
    g = dict(gi=dict(hashes=hashes, L=L), gm=dict(hashes=hashes, L=lambda x: x))
    for (k, lz) in (('plist', 0), ('llist', 1)):
        B = 'L(B)' if lz else 'B'
        ops = menus.pl_updates(els=('A', B, 'A2'), idx=(0, 1, -1), lite=True, cls=k, tcls='tllist' if lz else 'tlist') + H
        seeds = [[(f"p = {k}()", "p = []")], [(f"p = {k}([A, {B}, A2])", "p = [A, B, A2]")], [(f"p = {k}([{B}]).prepend(A); hash(p)", "p = [A, B]")]]
        js += split(Space(k, seeds, ops, pr, depth=4 if th else 3, within='len(p) <= 4', limit=30000 if th else 15000, **g), 8)
    for (k, lz) in (('pdict', 0), ('ldict', 1)):
        v = ('v1', 'L(v2)') if lz else ('v1', 'v2')
        ops = [o for o in menus.pd_updates(keys=('A', 'B', 'C', 'A2'), vals=v, cls=k, tcls='tldict' if lz else 'tdict') if 'UH' not in o[0]] + H
        seeds = [[(f"p = {k}()", "p = {}")], [(f"p = {k}([(C, v1), (A, {v[1]}), (B, v3)])", "p = {C: v1, A: v2, B: v3}")], [(f"p = {k}({{A: v1, D: {v[1]}}}); hash(p)", "p = {A: v1, D: v2}")]]
        js += split(Space(k, seeds, ops, pr, depth=4 if th else 3, within='len(p) <= 4', limit=30000 if th else 15000, **g), 8)
    ops = [o for o in menus.ps_updates() if 'UH' not in o[0]] + H
    seeds = [[("p = pset()", "p = MSet()")], [("p = pset([A, B, D])", "p = MSet([A, B, D])")], [("p = pset([C, A2]); hash(p)", "p = MSet([C, A2])")]]
    js += split(Space('pset', seeds, ops, pr, depth=5 if th else 4, limit=60000, **g), 8)
    gi, gm = g['gi'], g['gm']
    H1 = [(f"hash(p); p = {x}", "ok()") for x in ("p.copy()", "p.transient().persistent()")]
    for (k, lz) in (('plist', 0), ('llist', 1)):
        B = 'L(B)' if lz else 'B'
        o = H1 + [(f"hash(p); p = p.append({B})", "p.append(B)"), ("hash(p); p = p.set(-1, D)", "p[-1] = D"), (f"hash(p); p = p.prepend({B})", "p.insert(0, B)"), ("hash(p); p = p.delete(0)", "p.pop(0)")]
        o += [(f"hash(p); p = {x}", y) for (x, y) in SLICES]
        o += [("hash(p); p = p.reverse()", "p.reverse()"), ("hash(p); p = p.insert(len(p) // 2, D)", "p.insert(len(p) // 2, D)"), ("hash(p); p = p.extend([A, D])", "p.extend([A, D])"), ("hash(p); p = p.delete()", "p.pop()"), ("hash(p); p = p.clear()", "p.clear()"),
              ("hash(p); p = p + [D]", "p.append(D)"), ("hash(p); p = [D] + p", "p.insert(0, D)"), ("hash(p); p = p * 2", "p *= 2"), ("hash(p); p = p + p", "p += list(p)")]
        js += sweep.sweep(k + '-sizes', sweep.list_seeds(k, sweep.sizes(tier)), o, pr, gi, gm)
    for (k, lz) in (('pdict', 0), ('ldict', 1)):
        o = H1 + [("hash(p); p = p.set(A, v1)", "p[A] = v1"), ("hash(p); p = p.set(ES[1], v1)", "p[ES[1]] = v1"), ("hash(p); p = p.drop(ES[0])", "p.pop(ES[0], None)"), ("hash(p); p = p.update([(ES[1], v1), (A, v2)])", "p.update([(ES[1], v1), (A, v2)])")]
        js += sweep.sweep(k + '-sizes', sweep.dict_seeds(k, sweep.sizes(tier)) + sweep.chain_seeds(k), o, pr, gi, gm)
    o = H1 + [("hash(p); p = p.add(A)", "p.add(A)"), ("hash(p); p = p.discard(ES[0])", "p.discard(ES[0])"), ("hash(p); p = p | {A}", "p.add(A)"), ("hash(p); p = p - {ES[1]}", "p.discard(ES[1])")]
    js += sweep.sweep('pset-sizes', sweep.set_seeds('pset', sweep.sizes(tier)) + sweep.chain_seeds('pset'), o, pr, gi, gm)
    # items whose order shows in the hash: different hashes, several positions
    for (k, lz) in (('plist', 0), ('llist', 1)):
        B = 'L(B)' if lz else 'B'
        ops = [o for x in ('v1', 'D', 'L(v3)' if lz else 'v3') for y in [x.replace('L(', '(')] for o in ((f"p = p.append({x})", f"p.append({y})"), (f"p = p.prepend({x})", f"p.insert(0, {y})"), (f"p = p.insert(1, {x})", f"p.insert(1, {y})"))]
        ops += [(f"p = {x}", y) for (x, y) in SLICES]
        ops += [("p = p.reverse()", "p.reverse()"), ("p = p.delete(0)", "p.pop(0)"), ("p = p.delete()", "p.pop()")] + H
        js += split(Space(k + '-order', [[(f"p = {k}([A, {B}])", "p = [A, B]")], [(f"p = {k}([D, v2]).prepend(A)", "p = [A, D, v2]")]], ops, pr, depth=5 if th else 4, within='len(p) <= 5', **g), 8)
    u = universe()
    js += cases.chunks('pairs', 'c13', case, [(a, b) for a in u for b in u], 32)
    return js
