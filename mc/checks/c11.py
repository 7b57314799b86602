"""C11: transients and the persistents they come from or yield are isolated."""
from ..core import Space, split, register
from .. import syms, sweep
import pcollections as pc
BOUNDS = {
    'quick': "a heap of two persistent and two transient handles of one kind (plus a raw view for the lazy kinds), for plist/tlist, llist/tllist, pset/tset, pdict/tdict, ldict/tldict: all histories of <= 3 "
             "single edits of either transient, updates of the persistents and conversions between any of the handles (method and constructor, copies, raw views), from an empty, a small, a prepended and a 33-element start; "
             "after every step every handle is compared to its own independent model object and its kind is checked; "
             "the same for one step from every representation of every size 0-72 and of 4 sizes up to 1025, and with up to 33 keys of one common hash",
    'thorough': "as quick with histories of <= 4 steps",
}
ASSUMPTIONS = ["elements are opaque apart from == and hash"]
def const(x): return x
L1 = register(pc.lazy(const, syms.v2), 'L1')
def raw(x): return L1 if x is syms.v2 else x
G = dict(L1=L1)
def s_or(a, b):
    c = a.copy(); c.update(b); return c
def s_sub(a, b):
    c = a.copy()
    for x in list(b): c.discard(x)
    return c
def l_without(l, i):
    l = list(l)
    del l[i]
    return l
def l_with(l, i, x):
    l = list(l)
    l[i] = x
    return l
GM = dict(L1=syms.v2, raw=raw, s_or=s_or, s_sub=s_sub, l_without=l_without, l_with=l_with)
def conv(P, T, c, lz):
    """Conversions between p, q, t, u; c copies the model object."""
    o = []
    for (p, t) in (('p', 't'), ('q', 't'), ('p', 'u'), ('q', 'u')):
        o += [(f"{t} = {p}.transient()", f"{t} = {c}({p})"), (f"{p} = {t}.persistent()", f"{p} = {c}({t})")]
    for (p, t) in (('p', 't'), ('q', 'u')):
        o += [(f"{t} = {T}({p})", f"{t} = {c}({p})"), (f"{p} = {P}({t})", f"{p} = {c}({t})")]
    o += [("u = t.copy()", f"u = {c}(t)"), (f"u = {T}(t)", f"u = {c}(t)"), ("t = u.copy()", f"t = {c}(u)"), ("q = p.copy()", f"q = {c}(p)"), (f"p = {P}(q)", f"p = {c}(q)")]
    if not lz: o.append(("u = copy.copy(t)", f"u = {c}(t)"))     # (of a lazy transient: reads the values)
    return o
def kinds(ks):
    (P, T) = ks
    return [(f"[type(x).__name__ for x in (p, q, t, u)]", f"['{P}', '{P}', '{T}', '{T}']"), ("[x == y for (x, y) in ((p, t), (q, u), (p, q), (t, u), (t, p))]", "[x == y for (x, y) in ((p, t), (q, u), (p, q), (t, u), (t, p))]"),
            ("[len(p), len(q), len(t), len(u)]", "[len(p), len(q), len(t), len(u)]"), ("[hash(p) == hash(q) or p != q, hash(p) == hash(t.persistent()) or p != t]", "[True, True]")]
def list_ops(lz):
    B = 'L1' if lz else 'v2'
    o = []
    for (t, x, y) in (('t', 'A', B), ('u', B, 'C')):
        o += [(f"{t}.append({x})", f"{t}.append({x})"), (f"{t}.prepend({y})", f"{t}.insert(0, {y})"), (f"{t}[0] = {y}", f"{t}[0] = {y}"), (f"{t}[-1] = {x}", f"{t}[-1] = {x}"), (f"del {t}[0]", f"del {t}[0]"),
              (f"{t}.clear()", f"{t}.clear()"), (f"r = {t}.pop()", f"r = {t}.pop()"), (f"{t}.insert(1, {x})", f"{t}.insert(1, {x})")]
    # (these read the items, lazy values included)
    if not lz: o += [("t.extend(u)", "t.extend(u)"), ("u += p", "u += p"), ("t.reverse()", "t.reverse()"), ("t *= 2", "t *= 2"), ("t.sort()", "t.sort()"), ("u = u + [A]", "u = u + [A]")]
    o += [("t[0] = A2", "t[0] = A2"), ("u[-1] = B2", "u[-1] = B2"), ("t.append(A2)", "t.append(A2)")]    # equal to what is there, another object
    o += [("p = p.append(C)", "p = p + [C]"), (f"q = q.set(0, {B})", f"q = l_with(q, 0, {B})"), ("q = p.delete(0)", "q = l_without(p, 0)"), ("t = u[:]", "t = list(u)"), ("q = p[:-1]", "q = p[:-1]")]
    return o
def set_ops():
    o = []
    for (t, x, y) in (('t', 'A', 'B'), ('u', 'D', 'B')):
        o += [(f"{t}.add({x})", f"{t}.add({x})"), (f"{t}.add({y})", f"{t}.add({y})"), (f"{t}.discard({y})", f"{t}.discard({y})"), (f"{t}.discard(A)", f"{t}.discard(A)"), (f"{t}.clear()", f"{t}.clear()"), (f"r = {t}.pop()", f"r = take({t}, _r)")]
    o += [("t.add(A2)", "t.add(A2)"), ("t.discard(A2)", "t.discard(A2)")]
    o += [("t |= u", "t.update(u)"), ("t ^= p", "s_ixor(t, p)"), ("u -= t", "u = s_sub(u, t)"), ("u &= q", "s_iand(u, q)"), ("t = t | u", "t = s_or(t, u)"), ("t.update(q)", "t.update(q)"),
          ("p = p.add(B)", "p = s_or(p, MSet([B]))"), ("q = q.discard(A)", "q = s_sub(q, MSet([A]))"), ("q = p | t", "q = s_or(p, t)"), ("p = q - u", "p = s_sub(q, u)")]
    return o
def map_ops(lz):
    B = 'L1' if lz else 'v2'
    o = []
    for (t, x, y) in (('t', 'v1', B), ('u', B, 'v3')):
        o += [(f"{t}[A] = {x}", f"{t}[A] = {x}"), (f"{t}[B] = {y}", f"{t}[B] = {y}"), (f"{t}[A2] = {y}", f"{t}[A2] = {y}"), (f"del {t}[A]", f"del {t}[A]"), (f"r = {t}.pop(B, None)", f"r = {t}.pop(B, None)"),
              (f"{t}.clear()", f"{t}.clear()")]
    if not lz: o += [("t.update(u)", "t.update(u)"), ("u.update(p)", "u.update(p)"), ("p = p.update(t)", "p = {**p, **t}")]
    o += [("t[A] = v1b", "t[A] = v1b"), ("t[B] = v1", "t[B] = v1"), ("u[B] = B2", "u[B] = B2"), ("u[B] = B", "u[B] = B")]     # equal to what may be there, another object
    o += [("r = t.popitem()", "r = takeitem(t, _r)"), (f"u.setdefault(C, {B})", f"u.setdefault(C, {B})"),
          ("p = p.set(C, v1)", "p = {**p, C: v1}"), (f"q = q.set(A, {B})", f"q = {{**q, A: {B}}}"), ("q = p.drop(A)", "q = dict(p); q.pop(A, None)")]
    return o
def jobs(tier):
    th = tier != 'quick'
    d = 5 if th else 4
    js = []
    cap = 400000 if th else 40000
    for lz in (0, 1):
        (P, T) = (('plist', 'tlist'), ('llist', 'tllist'))[lz]
        B = 'L1' if lz else 'v2'
        ops = list_ops(lz) + conv(P, T, 'list', lz)
        pr = kinds((P, T))
        if lz:
            ops += [("w = p.as_plist()", "w = [raw(x) for x in p]"), ("w = holdlazy(q)", "w = [raw(x) for x in q]"), ("w = t.persistent().as_plist()", "w = [raw(x) for x in t]"), ("t = tllist(w)", "t = [v2 if x is L1_ else x for x in w]"),
                    ("p = llist(w)", "p = [v2 if x is L1_ else x for x in w]"), ("w = w.append(A)", "w = w + [A]"), ("w = w.set(0, L1)", "w = [L1_] + w[1:] if w else w[0]")]
            pr = pr + [("type(w).__name__", "'plist'"), ("list(w)", "w"), ("[t.getlazy(i) for i in range(len(t))]", "[raw(x) for x in t]"), ("[p.getlazy(i) for i in range(len(p))]", "[raw(x) for x in p]")]
        seeds = []
        for (a, b) in ((f"{P}()", "[]"), (f"{P}([A, {B}])", "[A, v2]"), (f"{P}([{B}]).prepend(A).prepend(C)", "[C, A, v2]"), (f"{P}([A] * 32 + [{B}])", "[A] * 32 + [v2]")):
            s = [(f"p = {a}", f"p = {b}"), ("q = p; t = p.transient(); u = p.transient()", "q = p; t = list(p); u = list(p)")]
            if lz: s.append(("w = p.as_plist()", "w = [raw(x) for x in p]"))
            seeds.append(s)
        js += split(Space(P, seeds, ops, pr, depth=d - 1, mutable=True, within='len(t) <= 5 and len(u) <= 5 and len(p) <= 5 and len(q) <= 5' if 0 else 'max(map(len, (p, q, t, u))) <= 6 or min(map(len, (p, q, t, u))) >= 28', gi=G, gm=dict(GM, L1_=L1), limit=cap), 8)
    seeds = [[(f"p = {a}", f"p = {b}"), ("q = p; t = p.transient(); u = tset(p)", "q = p; t = p.copy(); u = p.copy()")] for (a, b) in
             (("pset()", "MSet()"), ("pset([A, B])", "MSet([A, B])"), ("pset([C, A, D]).discard(C)", "MSet([A, D])"), ("pset([A] + list(range(32)))", "MSet([A] + list(range(32)))"))]
    js += split(Space('pset', seeds, set_ops() + conv('pset', 'tset', 'MSet', 0), kinds(('pset', 'tset')), depth=d - 1, mutable=True, gi=G, gm=GM, limit=cap), 8)
    for lz in (0, 1):
        (P, T) = (('pdict', 'tdict'), ('ldict', 'tldict'))[lz]
        B = 'L1' if lz else 'v2'
        ops = map_ops(lz) + conv(P, T, 'dict', lz)
        pr = kinds((P, T))
        if lz:
            ops += [("w = t.as_tdict()", "w = {k: raw(v) for (k, v) in t.items()}"), ("w = holdlazy(u)", "w = {k: raw(v) for (k, v) in u.items()}"), ("w = p.as_pdict().transient()", "w = {k: raw(v) for (k, v) in p.items()}"), ("w = tdict(holdlazy(q))", "w = {k: raw(v) for (k, v) in q.items()}"),
                    ("w[A] = v5", "w[A] = v5"), ("w[D] = L1", "w[D] = L1_"), ("del w[B]", "del w[B]"), ("w.clear()", "w.clear()"), ("t = tldict(w)", "t = {k: v2 if x is L1_ else x for (k, x) in w.items()}"), ("p = ldict(w)", "p = {k: v2 if x is L1_ else x for (k, x) in w.items()}"),
                    ("u = tldict(w.persistent())", "u = {k: v2 if x is L1_ else x for (k, x) in w.items()}")]
            pr = pr + [("type(w).__name__", "'tdict'"), ("list(w.items())", "list(w.items())"), ("[t.getlazy(k) for k in t]", "[raw(x) for x in t.values()]")]
        seeds = []
        for (a, b) in ((f"{P}()", "{}"), (f"{P}({{A: v1, B: {B}}})", "{A: v1, B: v2}"), (f"{P}([(C, v1), (A, {B}), (D, v3)]).drop(C)", "{A: v2, D: v3}"), (f"{P}([(i, v1) for i in range(32)]).set(A, {B})", "{**{i: v1 for i in range(32)}, A: v2}")):
            s = [(f"p = {a}", f"p = {b}"), (f"q = p; t = p.transient(); u = {T}(p)", "q = p; t = dict(p); u = dict(p)")]
            if lz: s.append(("w = t.as_tdict()", "w = {k: raw(v) for (k, v) in t.items()}"))
            seeds.append(s)
        js += split(Space(P, seeds, ops, pr, depth=d - 1, mutable=True, gi=G, gm=dict(GM, L1_=L1), limit=cap), 8)
    # one step from every representation of every size
    def two(sds, T, c):
        return [x + [(f"q = p; t = p.transient(); u = {T}(p)", f"q = p; t = {c}(p); u = {c}(p)")] for x in sds]
    sz = sweep.sizes(tier) if th else sweep.SMALL + (100, 129, 257, 1025)
    for lz in (0, 1):
        (P, T) = (('plist', 'tlist'), ('llist', 'tllist'))[lz]
        ops = list_ops(lz) + conv(P, T, 'list', lz)
        if not lz: ops += [("t[len(t) // 2] = A", "t[len(t) // 2] = A"), ("t.insert(len(t) // 2, A)", "t.insert(len(t) // 2, A)")]
        js += sweep.sweep(P + '-sizes', two(sweep.list_seeds(P, sz), T, 'list'), ops, kinds((P, T)), G, GM, mutable=True)
        (P, T) = (('pdict', 'tdict'), ('ldict', 'tldict'))[lz]
        ops = map_ops(lz) + conv(P, T, 'dict', lz) + [(f"{t}[ES[{i}]] = v3", f"{t}[ES[{i}]] = v3") for t in 'tu' for i in (0, 1)] + [(f"r = {t}.pop(ES[{i}], None) is None", f"r = {t}.pop(ES[{i}], None) is None") for t in 'tu' for i in (0, 1)]
        ops += [("p = p.drop(ES[0])", "p = dict(p); p.pop(ES[0], None)"), ("q = q.set(ES[1], v5)", "q = {**q, ES[1]: v5}")]
        js += sweep.sweep(P + '-sizes', two(sweep.dict_seeds(P, sz) + sweep.chain_seeds(P), T, 'dict'), ops, kinds((P, T)), G, GM, mutable=True)
    ops = set_ops() + conv('pset', 'tset', 'MSet', 0) + [(f"{t}.{f}({x})", f"{t}.{f}({x})") for t in 'tu' for f in ('add', 'discard') for x in ('ES[0]', 'ES[1]', 'CH[2]')] + [("p = p.discard(ES[0])", "p = s_sub(p, MSet([ES[0]]))")]
    js += sweep.sweep('pset-sizes', two(sweep.set_seeds('pset', sz) + sweep.chain_seeds('pset'), 'tset', 'MSet'), ops, kinds(('pset', 'tset')), G, GM, mutable=True)
    return js
