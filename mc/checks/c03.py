"""C03: a persistent collection never changes once it has been created."""
from ..core import Space, split, SpaceJob
from .. import menus, syms, sweep, pump
import pcollections as pc, re
BOUNDS = {
    'quick': "version trees of plist, pset, pdict, llist and ldict: every tree obtained by applying all updates (including failing ones, edits "
             "of derived transients, live iterators and views) to every version up to depth 3 from 3 starts per kind; all versions of a tree are kept and contents, "
             "order, length, hash, repr, str and equality of each are compared to what they were at creation, after every derivation and at the end; "
             "depth 2 at the sizes 31-33 and 1023-1025, depth 1 from every representation (appended, prepended, straddling, shrunk, after discards; keys with one common hash) of every size 0-72 and of 14 sizes up to 1025; "
             "in every state of llist and ldict the printed forms are compared while the items are evaluated one by one in both orders",
    'thorough': "as quick with depth 4 (5 for the sets)",
}
ASSUMPTIONS = ["collections are inspected through the public interface"]
def const(x): return x
def L(x): return pc.lazy(const, x)
def gi(): return dict(L=L, prints=prints)
def gm(): return dict(L=lambda x: x, prints=lambda p: 'ok')
COMMON = [("r = hash(p)", "r = _r"), ("r = repr(p)", "r = _r"), ("_i = iter(p); next(_i, None)", "ok()"),
          ("p.nothing = 1", "raise TypeError()")]
def edits_list(lz):
    B = 'L(B)' if lz else 'B'
    k = 'llist' if lz else 'plist'
    return menus.pl_updates(els=('A', B, 'A2') if not lz else ('A', 'L(B)', 'A2'), idx=(0, 1, -1, 2, 7), lite=True, cls=k, tcls='t' + k[-5:] if lz else 'tlist') + COMMON + [
        ("p[0] = A", "raise TypeError()"), ("del p[0]", "raise TypeError()"), ("p.append()", "raise TypeError()"),
        # edits of transients and of versions derived from them, with iterators of the original alive
        ("_i = iter(p); next(_i, None); _t = p.transient(); _t.append(A); _t.insert(0, B); _t[0] = A2; _t.pop(); _t.reverse(); _t.sort(); _q = _t.persistent(); _t.clear(); list(_i)", "ok()"),
        ("_t = p.transient(); _t *= 2; _u = _t.copy(); _u.append(D); del _u[0]; _u.prepend(A); _q = _t.persistent(); _q = _q.append(C); _t.extend(_q); _u.extend(_t)", "ok()"),
        ("_t = p.transient(); _t.append(A); p = _t.persistent(); _t.append(B); _t.prepend(B); _t[0] = D; del _t[-1]", "p.append(A)"),
        ("_t = type(p.transient())(p); _t.append(A); p = type(p)(_t); _t[0] = D; _t.clear()", "p.append(A)"),
        ("_t = p.transient(); _q = _t.persistent(); _t.append(A); _t.remove(v7)", "p.remove(v7)"),
        ("_l = list(p); p = type(p)(_l); _l.append(A)", "ok()"),
    ]
def edits_set():
    return menus.ps_updates(els=('A', 'B', 'C', 'A2')) + COMMON + [
        ("_i = iter(p); next(_i, None); _t = p.transient(); _t.add(D); _t.discard(A); _t.add(B); _q = _t.persistent(); _t.clear(); list(_i)", "ok()"),
        ("_t = p.transient(); _t |= {D, A}; _t ^= pset([A, B]); _t -= {C}; _u = _t.copy(); _u.pop(); _q = _t.persistent(); _q.add(Z)", "ok()"),
        ("_t = p.transient(); _t.add(B); p = _t.persistent(); _t.discard(B); _t.discard(A); _t.add(D)", "p.add(B)"),
        ("_t = tset(p); _t.add(C); p = pset(_t); _t.discard(C); _t.clear()", "p.add(C)"),
        ("_s = set(p); _s.add(D); _q = pset(_s); _s.clear()", "ok()"),
        ("_t = p.transient(); _t.remove(v7)", "p.remove(v7)"),
        ("p = p | {A, D}", "p.update(_r if False else {A, D})"), ("p = p & {A, B}", "s_iand(p, [A, B])"), ("p = p - pset([A])", "s_discardall(p, [A])"),
        ("p |= pset([B])", "p.add(B)"), ("p ^= pset([B, D])", "s_ixor(p, [B, D])"),
    ]
def edits_map(lz):
    k = 'ldict' if lz else 'pdict'
    v = ('v1', 'L(v2)') if lz else ('v1', 'v2')
    return menus.pd_updates(keys=('A', 'B', 'C', 'A2'), vals=v, cls=k, tcls='tldict' if lz else 'tdict') + COMMON + [
        ("_i = iter(p.items()); next(_i, None); _t = p.transient(); _t[D] = v1; _t.pop(A, 0); _t[B] = v5; _q = _t.persistent(); _t.clear(); list(_i)", "ok()"),
        ("_t = p.transient(); _t.update({D: v1, A: v6}); _u = _t.copy(); _u.popitem(); _u[Z] = v1; _q = _t.persistent(); _q.set(D, v0)", "ok()"),
        ("_t = p.transient(); _t[B] = v3; p = _t.persistent(); _t[B] = v4; _t[A] = v4; _t.pop(B); _t[D] = v4", "p[B] = v3"),
        ("_t = type(p.transient())(p); _t[C] = v3; p = type(p)(_t); _t[C] = v4; _t.clear()", "p[C] = v3"),
        ("_s = dict(p); _q = type(p)(_s); _s[A] = v0; _s.clear()", "ok()"),
        ("_t = p.transient(); _t[A] = v0; del _t[v7]", "del p[v7]"),
        ("p[A] = v0", "raise TypeError()"), ("del p[A]", "raise TypeError()"),
        ("_k = p.keys(); _v = p.values(); _t = p.transient(); _t[A] = v0; _t[D] = v0; list(_k); list(_v)", "ok()"),
    ]
def pr(q):
    return (str(q), re.sub(r'lazy\(<\d+>: \w+\)', '<lazy>', repr(q)))     # (repr shows the states of lazy items)
def prints(p):
    """Whether printed forms stay the same while lazy items are evaluated one after the other."""
    if isinstance(p, (list, dict)): return 'ok'
    T = type(p)
    if isinstance(p, pc.llist): mk, n, rd, last = (lambda: T([L(x) for x in p])), len(p), (lambda q, i: q[i]), (lambda q: (q.append(L(syms.A)), q.transient().persistent(), q[::-1]))
    else: mk, n, rd, last = (lambda: T([(k, L(v)) for (k, v) in p.items()])), len(p), (lambda q, i: q[list(q)[i]]), (lambda q: (q.set(syms.D, L(syms.v1)), q.transient().persistent(), q.drop(syms.A)))
    for order in (range(n), range(n - 1, -1, -1)):
        q = mk()
        a = pr(q)
        for i in order:
            rd(q, i)
            if pr(q) != a: return f'printed {a} at first, {pr(q)} after item {i} was read'
        qs = last(q)
        if pr(q) != a: return f'printed {a} at first, {pr(q)} after updates'
        b = [pr(x) for x in qs]
        for x in (q,) + qs: hash(x); x == q; list(x)
        if [pr(x) for x in qs] != b or pr(q) != a: return f'printed {a} {b} at first, otherwise after the hashes were taken'
        if q.ready_all() is not q or pr(q) != a: return f'printed {a} at first, otherwise after ready_all'
    return 'ok'
SN = ["repr(p)", "str(p)", "hash(p)", "len(p)", "p == p.copy()", "hash(p) == hash(type(p)(p.transient()))", "p == p.transient()"]
def jobs(tier):
    th = tier != 'quick'
    js = []
    for lz in (0, 1):
        k = 'llist' if lz else 'plist'
        B = 'L(B)' if lz else 'B'
        sd = [[(f"p = {k}()", "p = []")], [(f"p = {k}([A, {B}, A2])", "p = [A, B, A2]")], [(f"p = {k}([{B}]).prepend(A).prepend(A2)", "p = [A2, A, B]")]]
        js += pump.jobs(Space(k, sd, edits_list(lz), [], snaps=SN[:4], gi=gi, gm=gm), 100 if th else 35, keep=True, cap=60)
        js += split(Space(k, sd, edits_list(lz), [("prints(p)", "prints(p)")] if lz else [], depth=4 if th else 3, within='len(p) <= 4', snaps=SN, gi=gi, gm=gm), 16)
        W = [("p = p.append(A)", "p.append(A)"), ("p = p.prepend(A)", "p.insert(0, A)"), ("p = p.delete(3)", "del p[3]"), ("p = p.set(-1, B)", "p[-1] = B"), ("p = p.delete(-1)", "del p[-1]"),
             ("p = p.insert(2, B)", "p.insert(2, B)"), ("_t = p.transient(); _t.append(A); _t[5] = B; del _t[3]; _q = _t.persistent(); _t[0] = D", "ok()"),
             ("_t = p.transient(); _t[1] = B; p = _t.persistent(); _t[1] = A; _t[2] = D; _t.append(D)", "p[1] = B")]
        big = [[(f"p = {k}([VALS[i % 8] for i in range({n})])", f"p = [VALS[i % 8] for i in range({n})]")] for n in (31, 32, 33, 1023, 1024, 1025)]
        js += split(Space(k + '-large', big, W, depth=3 if th else 2, snaps=SN[:4], gi=gi, gm=gm))
        k = 'ldict' if lz else 'pdict'
        v = 'L(v2)' if lz else 'v2'
        sd = [[(f"p = {k}()", "p = {}")], [(f"p = {k}({{A: v1, D: {v}}})", "p = {A: v1, D: v2}")], [(f"p = {k}([(C, v1), (A, {v}), (B, v3)])", "p = {C: v1, A: v2, B: v3}")]]
        js += pump.jobs(Space(k, sd, edits_map(lz), [], snaps=SN[:4], gi=gi, gm=gm), 100 if th else 35, keep=True, cap=60)
        js += split(Space(k, sd, edits_map(lz), [("prints(p)", "prints(p)")] if lz else [], depth=4 if th else 3, within='len(p) <= 4', snaps=SN, gi=gi, gm=gm), 16)
        W = [("p = p.set(A, v1)", "p[A] = v1"), ("p = p.drop(3)", "d_drop(p, 3)"), ("p = p.set(5, v1)", "p[5] = v1"), ("(r, p) = p.pop(1)", "r = p.pop(1)"), ("(r, p) = p.popitem()", "r = takeitem(p, _r)"),
             ("_t = p.transient(); _t[5] = v3; _t[6] = v3; _t.pop(7); _q = _t.persistent(); _t[8] = v3", "ok()"),
             ("_t = p.transient(); _t[8] = v5; p = _t.persistent(); _t[8] = v6; _t[9] = v6; _t[B] = v6", "p[8] = v5")]
        big = [[(f"p = {k}([(i, VALS[i % 8]) for i in range({n})])", f"p = dict([(i, VALS[i % 8]) for i in range({n})])")] for n in (31, 32, 33, 1023, 1024, 1025)]
        js += split(Space(k + '-large', big, W, depth=3 if th else 2, snaps=SN[:4], gi=gi, gm=gm))
    for lz in (0, 1):
        k, B = ('llist', 'L(B)') if lz else ('plist', 'B')
        ops = [(f"p = p.append({B})", "p.append(B)"), (f"p = p.prepend({B})", "p.insert(0, B)"), ("p = p.delete(-1)", "del p[-1]"), ("p = p.delete(0)", "del p[0]"), (f"p = p.set(len(p) // 2, {B})", "p[len(p) // 2] = B"), ("p = p.set(-1, A)", "p[-1] = A"),
               ("_q = p.insert(len(p) // 2, A); _q = p.delete(len(p) // 2); p = p.extend([A, D])", "p.insert(0, p.pop(0)); p += [A, D]"), ("_q = p + p; _q = p * 2; _q = p[::-1]; _q = p[1:]; p = p.reverse()", "p.reverse()"),
               ("_t = p.transient(); _t.append(A); _t.append(B); _t[0] = D; _t[-2] = D; del _t[len(_t) // 2]; _q = _t.persistent(); _t.prepend(A); _t.clear()", "ok()"),
               (f"_t = p.transient(); _t.append({B}); p = _t.persistent(); _t[0] = A; _t[-1] = D; _t.pop(); _t.insert(0, D); _t.reverse()", "p.append(B)")]
        js += sweep.sweep(k + '-sizes', sweep.list_seeds(k, sweep.sizes(tier)), ops, [], gi, gm, snaps=SN[:4])
        k, v = ('ldict', 'L(v2)') if lz else ('pdict', 'v2')
        ops = [(f"p = p.set(A, {v})", "p[A] = v2"), ("p = p.drop(next(iter(p), 0))", "d_drop(p, next(iter(p), 0))"), (f"p = p.set(ES[1], {v})", "p[ES[1]] = v2"), (f"p = p.set(ES[0], {v}).drop(ES[0])", "p.pop(ES[0], None)"), ("(r, p) = p.popitem()", "r = takeitem(p, _r)"),
               ("p = p.update([(A, v1), (ES[2], v3), (B, v2)])", "p.update([(A, v1), (ES[2], v3), (B, v2)])"), ("p = p.dropall([ES[0], ES[3], A])", "[p.pop(x, None) for x in (ES[0], ES[3], A)]"),
               ("_t = p.transient(); _t[ES[1]] = v3; _t[A] = v3; _t.pop(ES[0], None); _q = _t.persistent(); _t[ES[2]] = v3; _t.clear()", "ok()"),
               ("_t = p.transient(); _t[ES[1]] = v5; p = _t.persistent(); _t[ES[1]] = v6; _t[B] = v6; _t.pop(ES[1]); _t.popitem()", "p[ES[1]] = v5")]
        js += sweep.sweep(k + '-sizes', sweep.dict_seeds(k, sweep.sizes(tier)) + sweep.chain_seeds(k), ops, [], gi, gm, snaps=SN[:4])
    ops = [("p = p.add(A)", "p.add(A)"), ("p = p.discard(ES[0])", "p.discard(ES[0])"), ("p = p.discard(ES[3])", "p.discard(ES[3])"), ("p = p.add(CH[3])", "p.add(CH[3])"), ("p = p.discard(CH[1])", "p.discard(CH[1])"), ("(r, p) = p.pop()", "r = take(p, _r)"), ("p = p | {A, B, ES[0], ES[70]}", "p.update([x for x in {A, B, ES[0], ES[70]} if x not in p])" if 0 else "ok()"),
           ("p = p - ES[:5]" if 0 else "p = p.difference(ES[:5])", "s_discardall(p, ES[:5])"), ("_q = p.intersection(frozenset(ES[:5])); _q = p ^ {A, ES[0]}", "ok()"),
           ("_t = p.transient(); _t.discard(ES[0]); _t.add(A); _t.add(ES[71]); _q = _t.persistent(); _t.discard(ES[1]); _t.clear()", "ok()"),
           ("_t = p.transient(); _t.add(A); p = _t.persistent(); _t.discard(A); _t.discard(ES[0]); _t.discard(ES[1]); _t.add(B); _t.discard(CH[1])", "p.add(A)")]
    js += sweep.sweep('pset-sizes', sweep.set_seeds('pset', sweep.sizes(tier)) + sweep.chain_seeds('pset'), [o for o in ops if '|' not in o[0]], [], gi, gm, snaps=SN[:4])
    sd = [[("p = pset()", "p = MSet()")], [("p = pset([A, D])", "p = MSet([A, D])")], [("p = pset([C, A, B])", "p = MSet([C, A, B])")]]
    js += pump.jobs(Space('pset', sd, edits_set(), [], snaps=SN[:4], gi=gi, gm=gm), 100 if th else 35, keep=True, cap=60)
    js += split(Space('pset', sd, edits_set(), depth=5 if th else 4, within='len(p) <= 4', snaps=SN, gi=gi, gm=gm), 16)
    W = [("p = p.add(A)", "p.add(A)"), ("p = p.discard(3)", "p.discard(3)"), ("p = p.add(B)", "p.add(B)"), ("(r, p) = p.pop()", "r = take(p, _r)"),
         ("_t = p.transient(); _t.discard(5); _t.add(A); _q = _t.persistent(); _t.discard(8)", "ok()"),
         ("_t = p.transient(); _t.discard(8); p = _t.persistent(); _t.add(8); _t.discard(9); _t.add(B)", "p.discard(8)")]
    big = [[(f"p = pset(range({n}))", f"p = MSet(range({n}))")] for n in (31, 32, 33, 1023, 1024, 1025)]
    js += split(Space('pset-large', big, W, depth=3 if th else 2, snaps=SN[:4]))
    return js
