"""Every operation once on collections of thousands of items (around the powers of the trie's fan-out), against list, set, dict."""
from . import core, cases
import pcollections as pc
from pcollections import lazy
QUICK = (2049, 4097, 32769, 33800)
THOROUGH = (2047, 2048, 2049, 3000, 4095, 4096, 4097, 8193, 16385, 32767, 32768, 32769, 33791, 33792, 33793, 40000, 65537)
SPREAD = 0x9E3779B97F4A7C15
def spread(i): return (i * SPREAD) % ((1 << 61) - 1)
class Key:
    "Keys whose hashes are shared by eight of them each."
    __slots__ = ('i',)
    def __init__(self, i): self.i = i
    def __hash__(self): return self.i >> 3
    def __eq__(self, o): return type(o) is Key and o.i == self.i
    def __repr__(self): return f'Key({self.i})'
    def __lt__(self, o): return self.i < o.i
def const(x): return x
def items(kind, rep, n):
    if 'list' in kind: return [i * 7 for i in range(n)]
    if rep == 'spread': return [spread(i) for i in range(n)]
    if rep == 'chains': return [Key(i) for i in range(n)]
    return list(range(n))
def P_(kind): return {'tlist': 'plist', 'tllist': 'llist', 'tset': 'pset', 'tdict': 'pdict', 'tldict': 'ldict'}.get(kind, kind)
REPS = {'l': ('new', 'pre', 'strad', 'off'), 's': ('new', 'spread', 'chains', 'holes')}
_cache = {}
def build(kind, rep, n):
    "(persistent collection, contents)"
    key = (P_(kind), rep, n)
    if key in _cache: return _cache[key]
    _cache.clear()
    K = getattr(pc, P_(kind))
    xs = items(kind, rep, n)
    lz = 'll' in kind or 'ld' in kind
    def w(i, x): return lazy(const, x) if lz and i % 5 == 1 else x
    if 'list' in kind:
        if rep == 'new': p = K([w(i, x) for (i, x) in enumerate(xs)])
        elif rep == 'off':
            p = K([0] * 40 + [w(i, x) for (i, x) in enumerate(xs)])
            for _ in range(40): p = p.delete(0)
        else:
            h = n if rep == 'pre' else n // 2
            t = K([w(i, x) for (i, x) in enumerate(xs[h:], h)]).transient()
            for i in range(h - 1, -1, -1): t.prepend(w(i, xs[i]))
            p = t.persistent()
        m = xs
    elif 'set' in kind:
        t = K(xs).transient()
        m = dict.fromkeys(xs)
        if rep == 'holes':
            for x in xs[3::4] + xs[:50]: t.discard(x); m.pop(x, None)
        p = t.persistent()
    else:
        t = K([(x, w(i, i * 3)) for (i, x) in enumerate(xs)]).transient()
        m = {x: i * 3 for (i, x) in enumerate(xs)}
        if rep == 'holes':
            for x in xs[3::4] + xs[:50]: t.pop(x, None); m.pop(x, None)
        p = t.persistent()
    _cache[key] = (p, m)
    return p, m
# operations: name -> (on the library's collection, on the built-in one); each gets a private copy of a transient or built-in
def seq_ops(tr):
    o = {}
    def two(n, f, g=None): o[n] = (f, g or f)
    if tr:
        def mut(n, f, g=None): o[n] = (lambda t: (f(t), t)[1], lambda l: ((g or f)(l), l)[1])
        mut('append', lambda t: t.append(5)); mut('prepend', lambda t: t.prepend(5), lambda l: l.insert(0, 5))
        for (nm, ix) in (('0', lambda n: 0), ('1', lambda n: 1), ('mid', lambda n: n // 2), ('n-1', lambda n: n - 1), ('-1', lambda n: -1), ('third', lambda n: n // 3), ('-third', lambda n: -(n // 3)), ('1024', lambda n: 1024), ('-1024', lambda n: -1024)):
            mut(f'insert {nm}', lambda t, ix=ix: t.insert(ix(len(t)), 5)); mut(f'del {nm}', lambda t, ix=ix: t.__delitem__(ix(len(t)))); mut(f'set {nm}', lambda t, ix=ix: t.__setitem__(ix(len(t)), 5))
            two(f'pop {nm}', lambda t, ix=ix: [t.pop(ix(len(t)))] + list(t))
        mut('extend', lambda t: t.extend(range(40))); mut('sort', lambda t: t.sort(key=lambda x: (x * 7919) % 10007)); mut('reverse', lambda t: t.reverse()); mut('clear', lambda t: t.clear()); mut('remove', lambda t: t.remove(7 * (len(t) * 2 // 3)))
        mut('shrink', lambda t: [t.pop() for _ in range(len(t) - 3)]); mut('shrink front', lambda t: [t.pop(0) for _ in range(len(t) - 3)], lambda l: l.__delitem__(slice(0, len(l) - 3)))
        mut('+=', lambda t: t.__iadd__([1, 2])); two('copy', lambda t: t.copy())
    else:
        def upd(n, f, g): o[n] = (f, lambda l: (g(l), l)[1])
        upd('append', lambda p: p.append(5), lambda l: l.append(5)); upd('prepend', lambda p: p.prepend(5), lambda l: l.insert(0, 5))
        for (nm, ix) in (('0', lambda n: 0), ('1', lambda n: 1), ('mid', lambda n: n // 2), ('n-1', lambda n: n - 1), ('-1', lambda n: -1), ('third', lambda n: n // 3), ('-third', lambda n: -(n // 3)), ('1024', lambda n: 1024), ('-1024', lambda n: -1024)):
            upd(f'insert {nm}', lambda p, ix=ix: p.insert(ix(len(p)), 5), lambda l, ix=ix: l.insert(ix(len(l)), 5)); upd(f'delete {nm}', lambda p, ix=ix: p.delete(ix(len(p))), lambda l, ix=ix: l.__delitem__(ix(len(l))))
            upd(f'set {nm}', lambda p, ix=ix: p.set(ix(len(p)), 5), lambda l, ix=ix: l.__setitem__(ix(len(l)), 5)); o[f'pop {nm}'] = (lambda p, ix=ix: (lambda r: [r[0]] + list(r[1]))(p.pop(ix(len(p)))), lambda l, ix=ix: [l.pop(ix(len(l)))] + l)
            upd(f'drop {nm}', lambda p, ix=ix: p.drop(ix(len(p))), lambda l, ix=ix: l.__delitem__(ix(len(l))))
        upd('extend', lambda p: p.extend(range(40)), lambda l: l.extend(range(40))); upd('sort', lambda p: p.sort(key=lambda x: (x * 7919) % 10007), lambda l: l.sort(key=lambda x: (x * 7919) % 10007)); upd('reverse', lambda p: p.reverse(), lambda l: l.reverse())
        upd('clear', lambda p: p.clear(), lambda l: l.clear()); upd('remove', lambda p: p.remove(7 * (len(p) * 2 // 3)), lambda l: l.remove(7 * (len(l) * 2 // 3))); two('+', lambda p: p + [1, 2]); two('r+', lambda p: [1, 2] + p)
        upd('transient edits', lambda p: (lambda t: (t.append(1), t.prepend(2), t.insert(len(t) // 2, 3), t.__delitem__(len(t) // 3), t.persistent())[-1])(p.transient()), lambda l: (l.append(1), l.insert(0, 2), l.insert(len(l) // 2, 3), l.__delitem__(len(l) // 3)))
        def drain(p):
            for _ in range(len(p) - 3): p = p.delete()
            return p
        def drain0(p):
            for _ in range(len(p) - 3): p = p.delete(0)
            return p
        upd('shrink', drain, lambda l: l.__delitem__(slice(3, None))); upd('shrink front', drain0, lambda l: l.__delitem__(slice(0, len(l) - 3)))
        two('*1', lambda p: p * 1); two('*2', lambda p: p * 2)
    for (a, b, c) in ((None, None, -1), (1, None, None), (None, -1, None), (5, -5, 3), (None, None, 2), (-1, 3, -7), (1000, 1100, None), (-1100, -1000, None), (0, 1024, None)): two(f'[{a}:{b}:{c}]', lambda p, s=slice(a, b, c): p[s])
    two('reads', lambda p: [p[i] for i in range(-len(p), len(p), 97)] + [p[0], p[-1], p[len(p) // 2], len(p)])
    two('reversed', lambda p: list(reversed(p))); two('index', lambda p: [p.index(7 * (len(p) - 1)), p.index(7 * (len(p) - 1), len(p) // 2), p.index(7 * 40, 3, 1030), p.count(7 * 1000), 7 * 1025 in p, -1 in p])
    two('two iterators', lambda p: [x for ab in zip(p, p) for x in ab]); two('partial iterator', lambda p: (lambda it: [next(it) for _ in range(1030)] + list(it))(iter(p)))
    return o
def set_ops(tr):
    o = {}
    el = (('first', lambda m: next(iter(m))), ('mid', lambda m: list(m)[len(m) // 2]), ('last', lambda m: list(m)[-1]), ('1024th', lambda m: list(m)[1024]), ('absent', lambda m: -5), ('absent chain', lambda m: Key(10**6)))
    half = lambda m: list(m)[::2]
    def upd(n, f, g): o[n] = (f, g)
    def dd(m, ks): return {k: v for (k, v) in m.items() if k not in ks}
    if tr:
        for (nm, e) in el:
            upd(f'add {nm}', lambda t, e=e: (t.add(e(t)), t)[1], lambda m, e=e: {**m, **({} if e(m) in m else {e(m): None})}); upd(f'discard {nm}', lambda t, e=e: (t.discard(e(t)), t)[1], lambda m, e=e: dd(m, {e(m)}))
        upd('discardall', lambda t: (t.discardall(half(t)), t)[1], lambda m: dd(m, set(half(m)))); upd('&=', lambda t: t.__iand__(set(half(t))), lambda m: dict.fromkeys(half(m))); upd('-=', lambda t: t.__isub__(set(half(t))), lambda m: dd(m, set(half(m))))
        upd('^=', lambda t: t.__ixor__(set(half(t)) | {-1}), lambda m: {**dd(m, set(half(m))), -1: None}); upd('|=', lambda t: t.__ior__({-1}), lambda m: {**m, -1: None}); upd('clear', lambda t: (t.clear(), t)[1], lambda m: {}); upd('copy', lambda t: t.copy(), lambda m: m)
        upd('pop 20', lambda t: ([t.pop() for _ in range(20)], t)[1], lambda m: dict.fromkeys(list(m)[20:]))
        upd('empty and refill', lambda t: (t.discardall(list(t)), t.addall([3, 1, 2]), t)[-1], lambda m: {3: None, 1: None, 2: None})
    else:
        for (nm, e) in el:
            upd(f'add {nm}', lambda t, e=e: t.add(e(t)), lambda m, e=e: {**m, **({} if e(m) in m else {e(m): None})}); upd(f'discard {nm}', lambda t, e=e: t.discard(e(t)), lambda m, e=e: dd(m, {e(m)}))
        upd('discardall', lambda p: p.discardall(half(p)), lambda m: dd(m, set(half(m)))); upd('&', lambda p: p & set(half(p)), lambda m: dict.fromkeys(half(m))); upd('-', lambda p: p - set(half(p)), lambda m: dd(m, set(half(m)))); upd('^', lambda p: p ^ (set(half(p)) | {-1}), lambda m: {**dd(m, set(half(m))), -1: None})
        upd('|', lambda p: p | {-1}, lambda m: {**m, -1: None}); upd('clear', lambda p: p.clear(), lambda m: {}); upd('pop', lambda p: (lambda r: [r[0]] + list(r[1]))(p.pop()), lambda m: list(m)); upd('addall', lambda p: p.addall(range(-40, 0)), lambda m: {**m, **dict.fromkeys(range(-40, 0))})
        upd('transient edits', lambda p: (lambda t: (t.discardall(half(p)), t.add(-1), t.addall(half(p)), t.persistent())[-1])(p.transient()), lambda m: dict.fromkeys(list(m)[1::2] + [-1] + half(m)))
    upd('members', lambda p: [x in p for x in list(p)[::101]] + [-1 in p, Key(-1) in p, len(p)], lambda m: [True] * len(list(m)[::101]) + [False, False, len(m)])
    upd('comparisons', lambda p: [p == set(p), p <= set(p), p < set(p), p.isdisjoint([-1]), p.issuperset(half(p)), p != set(half(p))], lambda m: [True, True, False, True, True, True])
    upd('two iterators', lambda p: [x for ab in zip(p, p) for x in ab], lambda m: [x for ab in zip(m, m) for x in ab])
    return o
def map_ops(tr):
    o = {}
    el = (('first', lambda m: next(iter(m))), ('mid', lambda m: list(m)[len(m) // 2]), ('last', lambda m: list(m)[-1]), ('1024th', lambda m: list(m)[1024]), ('absent', lambda m: -5), ('absent chain', lambda m: Key(10**6)))
    half = lambda m: list(m)[::2]
    def upd(n, f, g): o[n] = (f, g)
    def dd(m, ks): return {k: v for (k, v) in m.items() if k not in ks}
    def it(p): return list(p.items())
    if tr:
        for (nm, e) in el:
            upd(f'[{nm}] =', lambda t, e=e: (t.__setitem__(e(t), 'x'), t)[1], lambda m, e=e: (m.__setitem__(e(m), 'x'), m)[1]); upd(f'pop {nm}', lambda t, e=e: [t.pop(e(t), 'none')] + it(t), lambda m, e=e: [m.pop(e(m), 'none')] + it(m))
            upd(f'setdefault {nm}', lambda t, e=e: [t.setdefault(e(t), 4)] + it(t), lambda m, e=e: [m.setdefault(e(m), 4)] + it(m)); upd(f'del {nm}', lambda t, e=e: (t.__delitem__(e(t)), t)[1], lambda m, e=e: (m.__delitem__(e(m)), m)[1])
        upd('update', lambda t: (t.update({k: 'y' for k in half(t)}), t)[1], lambda m: (m.update({k: 'y' for k in half(m)}), m)[1]); upd('pop half', lambda t: [t.pop(k) for k in half(t)] + it(t), lambda m: [m.pop(k) for k in half(m)] + it(m))
        upd('popitem 20', lambda t: ([t.popitem() for _ in range(20)], t)[1], lambda m: dict(it(m)[20:])); upd('clear', lambda t: (t.clear(), t)[1], lambda m: {}); upd('copy', lambda t: t.copy(), lambda m: m)
        upd('empty and refill', lambda t: ([t.pop(k) for k in list(t)], t.update({3: 1, 1: 2}), t)[-1], lambda m: {3: 1, 1: 2})
    else:
        for (nm, e) in el:
            upd(f'set {nm}', lambda p, e=e: p.set(e(p), 'x'), lambda m, e=e: (m.__setitem__(e(m), 'x'), m)[1]); upd(f'pop {nm}', lambda p, e=e: (lambda r: [r[0]] + it(r[1]))(p.pop(e(p), 'none')), lambda m, e=e: [m.pop(e(m), 'none')] + it(m))
            upd(f'setdefault {nm}', lambda p, e=e: p.setdefault(e(p), 4), lambda m, e=e: (m.setdefault(e(m), 4), m)[1]); upd(f'drop {nm}', lambda p, e=e: p.drop(e(p)), lambda m, e=e: dd(m, {e(m)})); upd(f'delete {nm}', lambda p, e=e: p.delete(e(p)), lambda m, e=e: (m.__delitem__(e(m)), m)[1])
        upd('update', lambda p: p.update({k: 'y' for k in half(p)}), lambda m: (m.update({k: 'y' for k in half(m)}), m)[1]); upd('dropall', lambda p: p.dropall(half(p)), lambda m: dd(m, set(half(m)))); upd('popitem', lambda p: (lambda r: [r[0]] + it(r[1]))(p.popitem()), lambda m: it(m)); upd('clear', lambda p: p.clear(), lambda m: {})
        upd('setall', lambda p: p.setall(half(p), range(10**9)), lambda m: (m.update(zip(half(m), range(10**9))), m)[1])
        upd('transient edits', lambda p: (lambda t: ([t.pop(k) for k in half(p)], t.update({-1: 1}), t.update({k: 'z' for k in half(p)}), t.persistent())[-1])(p.transient()), lambda m: {**dd(m, set(half(m))), -1: 1, **{k: 'z' for k in half(m)}})
    upd('lookups', lambda p: [p[k] for k in list(p)[::101]] + [-1 in p, p.get(Key(-1), 7), len(p)], lambda m: [m[k] for k in list(m)[::101]] + [False, 7, len(m)])
    upd('views', lambda p: list(p.keys()) + list(p.values()) + it(p) + list(reversed(p)) + [len(p.keys()), len(p.values()), len(p.items())], lambda m: list(m.keys()) + list(m.values()) + it(m) + list(reversed(m)) + [len(m)] * 3)
    upd('view answers', lambda p: [k in p.keys() for k in list(p)[::301]] + [(k, p[k]) in p.items() for k in list(p)[::301]] + [p[list(p)[-1]] in p.values(), p == dict(p.items())], lambda m: [True] * (2 * len(list(m)[::301]) + 2))
    return o
def ops(kind):
    tr = kind[0] == 't'
    return seq_ops(tr) if 'list' in kind else set_ops(tr) if 'set' in kind else map_ops(tr)
def view(x):
    "Contents, in order."
    if isinstance(x, (pc.abc.PersistentMapping, pc.abc.TransientMapping, dict)): return list(x.items())
    if isinstance(x, (pc.abc.PersistentSet, pc.abc.TransientSet)): return list(x)
    return list(x)
def case(kind, rep, n, op):
    (p, m) = build(kind, rep, n)
    (f, g) = ops(kind)[op]
    tr = kind[0] == 't'
    mm = m.copy()
    def run():
        r = f(p.transient() if tr else p)
        core.tick()
        return view(r), len(r), type(r).__name__
    a = cases.attempt(run)
    b = cases.attempt(lambda: (lambda r: (list(r.items()) if isinstance(r, dict) and 'dict' in kind else list(r), len(r), kind if type(r) is type(m) and a[0] == 'ok' and a[1][2] != 'list' else 'list'))(g(mm)))
    what = f"{op} on a {kind} ({rep}) of {len(m)} items"
    if a[0] != b[0] or a[0] == 'exc' and a[1] != b[1]: return f"{what}: {a if a[0] == 'exc' else 'succeeds'}; specified: {b if b[0] == 'exc' else 'success'}"
    if a[0] == 'exc': return None
    (x, nx, tx), (y, ny, ty) = a[1], b[1]
    if x != y:
        i = next((i for (i, (u, v)) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
        return f"{what}: {len(x)} items, specified {len(y)}; they differ at {i}: {x[i:i + 1]} specified {y[i:i + 1]}"
    if nx != ny: return f"{what}: len is {nx}, specified {ny}"
    if tx != ty: return f"{what}: the result is a {tx}, specified a {ty}"
    core.tick()
    if len(p) != len(m) or view(p) != (list(m.items()) if 'dict' in kind else list(m)): return f"{what} changed the collection"
    return None
def jobs(mod, kind, tier, k=8):
    sz = QUICK if tier == "quick" else THOROUGH
    cs = [(kind, r, n, o) for n in sz for r in REPS["l" if "list" in kind else "s"][:2 if tier == 'quick' and n > 5000 else 4] for o in ops(kind)]
    return cases.chunks(f'{kind}-huge', mod + ':huge_case', case, cs, k)
