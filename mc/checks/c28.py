"""C28: collections keep alive exactly what they contain."""
import gc, weakref, tracemalloc, itertools
from .. import core, syms, menus, cases, sweep
from ..core import FuncJob, run_stmt
import pcollections as pc
TECHNIQUE = 'exhaustive exploration of operation histories on the real code, observing which objects are alive afterwards'
BOUNDS = {
    'quick': "the ten kinds, 3-4 starts each (chains of equal hashes, offsets, removed members, waiting and computed lazy objects, edited transients): all histories of <= 2 updates, edits, conversions, reads, failing operations and abandoned iterators, "
             "and of 3 out of half of them; after each history everything except one collection is let go and exactly the keys, values, elements and lazy functions it contains must still be alive; every operation and read of every kind, and every kind of "
             "failing request of a lazy value, repeated 40 times must not keep more memory than repeated 20 times; clearing and shrinking by every means from the sizes 33, 65, 1025",
    'thorough': "as quick with all histories of <= 3 operations from each start",
}
ASSUMPTIONS = ["a waiting lazy object may keep what its function, arguments and creator hold", "garbage in reference cycles counts as released (gc.collect())"]
RULE = "a case is one history (or one operation repeated) from one start; all are distinct, and non-trivial in that at least one object has to be released or kept"
class Fn:
    "The function of a lazy value; fails its first `bad` calls."
    def __init__(self, x, bad=0): self.x, self.bad = x, bad
    def __call__(self, *a):
        if self.bad:
            self.bad -= 1
            raise ValueError('not yet')
        return self.x
NAMES_ = ['A', 'B', 'C', 'D', 'A2', 'v1', 'v2', 'v3', 'v4', 'v5', 'v6', 'v7', 'v1b']
class World:
    "The objects of one run: fresh, and watched."
    def __init__(self):
        self.refs, self.label, self.lz = {}, {}, {}
        g = dict(BASE)
        for n in NAMES_:
            s = syms.sym(n)
            x = type(s)(n, s.eqc, s.h)
            g[n] = x
            self.watch(x, n)
        g.update(L=self.L, LB=self.LB)
        self.g = g
    def watch(self, x, label):
        self.refs[id(x)] = weakref.ref(x)
        self.label[id(x)] = label
    def L(self, x): return self.mk(Fn(x))
    def LB(self, x): return self.mk(Fn(x, 1))
    def mk(self, f):
        self.watch(f, 'the function of lazy ' + repr(f.x))
        l = pc.lazy(f)
        self.lz[id(l)] = id(f)
        return l
def boom(it, k):
    "An iterator that fails after k items."
    for (i, x) in enumerate(it):
        if i == k: raise ValueError('iterator')
        yield x
    raise ValueError('iterator')
def badkey(x): raise ValueError('key')
def badeq(n):
    c = [n]
    def hook(kind):
        if kind == 'eq':
            c[0] -= 1
            if c[0] < 0: raise ValueError('eq')
    syms.HOOK = hook
BASE = core.impl_globals(dict(boom=boom, badkey=badkey, badeq=badeq, hook=syms))
for _n in NAMES_: BASE.pop(_n)
for _n in [k for (k, v) in BASE.items() if isinstance(v, (syms.Sym, list)) or k in ('VALS', 'ES', 'CH')]: BASE.pop(_n)
UH = BASE['UH'] = syms.UH
# --- what a collection contains: ids of the watched objects
def contained(w, c):
    out = set()
    def item(x):
        if isinstance(x, pc.lazy):
            if x.is_ready(): item(x())
            else:
                f = w.lz[id(x)]
                out.add(f)
                out.add(id(w.refs[f]().x))
        elif isinstance(x, (pc.plist, pc.pset, pc.tlist, pc.tset, pc.pdict, pc.tdict, tuple, list)): out.update(contained(w, x))
        else: out.add(id(x))
    if isinstance(c, pc.tllist):
        for i in range(len(c)): item(c.getlazy(i))
    else:
        if isinstance(c, (pc.llist, pc.ldict, pc.tldict)): c = pc.holdlazy(c)
        if isinstance(c, (pc.pdict, pc.tdict)):
            for (k, v) in c.items(): item(k); item(v)
        else:
            for x in c: item(x)
    return out
def stray(w, c):
    "What is alive although it is not in c."
    if c is None: keep = ()
    else: keep = contained(w, c)
    for a in (0, 1):
        bad = [i for (i, r) in w.refs.items() if i not in keep and r() is not None]
        if not bad: return None
        if a == 0: gc.collect()
    return sorted(w.label[i] for i in bad)
def history(seed, ops, keep):
    """Runs a history, lets go of everything but the variable `keep`; None or what is still alive."""
    w = World()
    ns = {}
    for s in itertools.chain(seed, ops):
        try: run_stmt(s, w.g, ns)
        except Exception: pass
        syms.HOOK = None
    c = ns.get(keep)
    ns.clear(); w.g.clear()
    x = stray(w, c)
    if x: return f"{'; '.join(itertools.chain(seed, ops))}: {', '.join(x)} still alive, but not in {keep} = {core.show(c)}"
    c = None
    x = stray(w, None)
    if x: return f"{'; '.join(itertools.chain(seed, ops))}: {', '.join(x)} still alive after the last collection is gone"
    return None
def case(seed, ops, keep): return history(seed, ops, keep)
def explore(rep, seed, ops, depth, first, keep):
    """All histories of <= depth operations of which the first is in `first`; no two are merged."""
    for d in range(1, depth + 1):
        for f in first:
            for rest in itertools.product(ops, repeat=d - 1):
                h = (f,) + rest
                core.tick()
                rep.current = cases.script('c28', tuple(seed), h, keep)
                e = history(seed, h, keep)
                rep.case(sample='; '.join(h))
                rep.extra['states'] += len(h) + 1; rep.extra['transitions'] += len(h); rep.extra['leaves'] += 1
                if e: rep.violation(e, rep.current, key='alive')
# --- repetition
def growth(seed, op, var, n=20):
    """Bytes that n more repetitions of an operation keep."""
    w = World()
    ns = {}
    for s in seed: run_stmt(s, w.g, ns)
    p = ns[var]
    src = compile(op, '<op>', 'exec')
    g = w.g
    tr = not hasattr(p, 'transient')
    def once():
        loc = dict(ns)
        if tr: loc[var] = p.copy()
        try: exec(src, g, loc)
        except Exception: pass
        syms.HOOK = None
    def watchless():
        w.refs.clear(); w.label.clear(); w.lz.clear()
    tracemalloc.start()
    try:
        best = None
        for attempt in range(3):
            for _ in range(n): once()
            watchless(); gc.collect()
            a = tracemalloc.get_traced_memory()[0]
            for _ in range(n): once()
            watchless(); gc.collect()
            b = tracemalloc.get_traced_memory()[0]
            best = b - a if best is None else min(best, b - a)
            if best < n * 16: break
    finally:
        tracemalloc.stop()
    return best
def grow_case(seed, op, var):
    b = growth(seed, op, var)
    return f"{op} from {'; '.join(seed)}: 20 repetitions keep {b} bytes" if b >= 20 * 16 else None
RINGS = {'itself': lambda p: p, 'iterator': iter, 'transient': lambda p: p.transient() if hasattr(p, 'transient') else p.persistent(), 'view': lambda p: (p.keys(), p.items(), p.values()) if hasattr(p, 'values') else reversed(p) if hasattr(p, '__reversed__') else p,
         'method': lambda p: p.__len__, 'advanced iterator': lambda p: (lambda i: (next(i, None), i))(iter(p))}
def ring_case(seed, op, var, how):
    """What a collection contains refers back to the collection (or to something made of it): all of it goes when nothing else refers to it."""
    w = World()
    ns = {}
    for s in (*seed, op):
        try: run_stmt(s, w.g, ns)
        except Exception: pass
        syms.HOOK = None
    c = ns.get(var)
    if c is None: return None
    there = contained(w, c)
    try: back = RINGS[how](c)
    except Exception: back = c
    n = 0
    for i in there:
        x = w.refs[i]() if i in w.refs else None
        if x is None: continue
        if isinstance(x, syms.Sym): x.name = back
        else: x.x = back      # a function of a lazy value
        del x
    ns.clear(); w.g.clear()
    del c, back
    x = stray(w, None)
    if x: return f"{'; '.join(seed)}; {op}; its contents refer to {how}: {', '.join(x)} still alive after the last reference from outside is gone"
    return None
# --- menus
ELS = ('A', 'B', 'C', 'D', 'A2')
def READS(p, kind):
    o = [f"hash({p})", f"repr({p})", f"str({p})", f"list({p})", f"{p} == {p}.copy()", f"_i = iter({p}); next(_i); del _i", f"_i = iter({p}); _j = list(_i); del _j, _i", f"A in {p}", f"C in {p}", f"{p} == 5", f"r = copy.copy({p})", f"r = copy.deepcopy({p})"]
    if kind in ('plist', 'llist', 'tlist', 'tllist'): o += [f"{p}.index(B)", f"{p}.count(A2)", f"_i = reversed({p}); next(_i); del _i", f"{p}[9]", f"{p} < [B, A]", f"r = {p}[0]", f"r = {p}[1:]"]
    elif kind in ('pset', 'tset'): o += [f"{p} <= {{A, B}}", f"r = {p} | {{A, v7}}", f"r = {p} & {{A2, v7}}", f"r = {p} ^ {{A2, v7}}", f"r = {p} - {{A2, v7}}", f"{p} | 5", f"{p}.isdisjoint([v5])"]
    else: o += [f"_i = iter({p}.items()); next(_i); del _i", f"_i = reversed({p}.values()); next(_i); del _i", f"_v = {p}.keys(); len(_v); del _v", f"v1 in {p}.values()", f"(A, v1b) in {p}.items()", f"r = {p}.get(A2)", f"{p}[C]", f"r = {p}.get(v7, v6)"]
    if kind in ('llist', 'ldict', 'tldict'): o += [f"{p}.ready_all()", f"r = holdlazy({p})"]
    return o
def FAILS(p, kind):
    if kind in ('plist', 'llist'): return [f"{p} = {p}.extend(boom([C, D, v5], 2))", f"{p} = {p}.sort(key=badkey)", f"{p} = {p} + 5", f"badeq(0); {p} = {p}.remove(v7)", f"{p} = {p}.append(D).delete(77)"]
    if kind in ('tlist', 'tllist'): return [f"{p}.extend(boom([C, D, v5], 2))", f"{p}.sort(key=badkey)", f"{p} += 5", f"badeq(1); {p}.remove(v7)", f"{p}[77] = v7", f"_q = {p}.persistent(); {p}.append(v6); del _q", f"_q = {p}.copy(); _q.append(v6); del _q"]
    if kind == 'pset': return [f"{p} = {p}.addall(boom([C, D, v5], 2))", f"{p} = {p}.union(boom([C, v5], 1))", f"badeq(0); {p} = {p}.add(C)", f"badeq(1); {p} = {p}.discard(C)", f"{p} = {p}.removeall([v6, D])", f"_q = tset({p}); _q.add(v6); del _q"]
    if kind == 'tset': return [f"{p}.addall(boom([C, D, v5], 2))", f"{p}.update([v6], boom([C, v5], 1))", f"badeq(0); {p}.add(C)", f"badeq(1); {p}.discard(C)", f"{p}.removeall([v6, D])", f"_q = {p}.persistent(); {p}.add(v6); del _q", f"_q = {p}.copy(); _q.add(v6); del _q"]
    if kind in ('pdict', 'ldict'): return [f"{p} = {p}.update(boom([(C, v5), (D, v6), (A, v7)], 2))", f"badeq(0); {p} = {p}.set(C, v6)", f"badeq(1); {p} = {p}.drop(C)", f"{p} = {p}.setall(boom([C, v5], 1), [v6, v7])", f"{p} = {p}.deleteall([A, v6])", f"_q = {p}.transient(); _q[v6] = v7; del _q"]
    return [f"{p}.update(boom([(C, v5), (D, v6), (A, v7)], 2))", f"badeq(0); {p}[C] = v6", f"badeq(1); del {p}[C]", f"_q = {p}.persistent(); {p}[v6] = v7; del _q", f"_q = {p}.copy(); _q[v6] = v7; del _q"]
def imp(m): return [i for (i, _) in m if 'x for x in _t.items()' not in i]
KINDS = {}
_l3 = ('A', 'B', 'A2')
KINDS['plist'] = ('p', [("p = plist([A, B, A2])",), ("p = plist([B]).prepend(A).append(C).prepend(D)",), ("p = plist([D, D, A, B]).delete(0).delete(0)",)], imp(menus.pl_updates(els=_l3, idx=(-4, -2, 0, 1, 2), lite=True)))
KINDS['llist'] = ('p', [("p = llist([A, L(B), L(C)]); p[1]",), ("p = llist([L(B)]).prepend(A).append(L(C)).prepend(LB(D))",), ("p = llist([LB(A), B])",)], imp(menus.pl_updates(els=('A', 'L(B)', 'LB(A2)'), idx=(-4, -2, 0, 1, 2), cls='llist', tcls='tllist', lite=True)))
KINDS['pset'] = ('p', [("p = pset([A, B, C])",), ("p = pset([D, A, B]).discard(D)",), ("p = pset()",)], imp(menus.ps_updates()))
KINDS['pdict'] = ('p', [("p = pdict([(A, v1), (B, v2), (C, v3)])",), ("p = pdict([(D, v1), (A, v2), (B, v2)]).drop(D)",), ("p = pdict()",)], imp(menus.pd_updates()))
KINDS['ldict'] = ('p', [("p = ldict([(A, L(v1)), (B, v2), (C, L(v3))]); p[A]",), ("p = ldict([(D, LB(v1)), (A, LB(v2)), (B, v2)]).drop(D)",)], imp(menus.pd_updates(vals=('L(v1)', 'LB(v2)', 'v3'), cls='ldict', tcls='tldict')))
KINDS['tlist'] = ('t', [("t = plist([A, B, A2]).transient()",), ("t = tlist([B, C]); t.prepend(A)",), ("t = tlist([D, A, B]); del t[0]",)], imp(menus.tl_updates(els=_l3, idx=(-4, -2, 0, 1, 2), lite=True)))
KINDS['tllist'] = ('t', [("t = llist([A, L(B), LB(C)]).transient()",), ("t = tllist([L(B), C]); t.prepend(A); t[1]",)], imp(menus.tl_updates(els=('A', 'L(B)', 'LB(A2)'), idx=(-4, -2, 0, 1, 2), lite=True)))
KINDS['tset'] = ('t', [("t = pset([A, B, C]).transient()",), ("t = tset([D, A, B]); t.discard(D)",), ("t = tset()",)], imp(menus.ts_updates()))
KINDS['tdict'] = ('t', [("t = pdict([(A, v1), (B, v2), (C, v3)]).transient()",), ("t = tdict([(D, v1), (A, v2), (B, v2)]); del t[D]",), ("t = tdict()",)], imp(menus.td_updates()))
KINDS['tldict'] = ('t', [("t = ldict([(A, L(v1)), (B, v2), (C, L(v3))]).transient(); t[A]",), ("t = tldict([(D, LB(v1)), (A, LB(v2)), (B, v2)]); del t[D]",)], imp(menus.td_updates(vals=('L(v1)', 'LB(v2)', 'v3'))))
def conversions(v, kind):
    o = []
    if kind[0] == 't' and kind != 'tset' or kind == 'tset': o.append(f"{v} = {v}.persistent(); {v} = {v}.transient()")
    else: o.append(f"_t = {v}.transient(); {v} = type({v})(_t); del _t")
    for k in ('plist', 'tlist', 'llist', 'tllist') if 'list' in kind else ('pset', 'tset') if 'set' in kind else ('pdict', 'tdict', 'ldict', 'tldict'):
        if k != kind: o.append(f"{v} = type({v})({k}({v}))")
    return o
# --- shrinking large collections
def shrink_case(kind, n, how):
    """After shrinking from n distinct elements only the remaining ones are alive."""
    xs = [syms.Sym('x%d' % i, 'x%d' % i, 7 + i * 33 if how != 'chain' else 7) for i in range(n)]
    refs = [weakref.ref(x) for x in xs]
    K = getattr(pc, kind)
    m = 'dict' in kind
    p = K([(x, x) for x in xs]) if m else K(xs)
    x = None
    T = not hasattr(p, 'transient')
    if how == 'half':
        for i in range(0, n, 2):
            if 'list' in kind: j = i // 2; p = p.delete(j) if not T else (p.__delitem__(j), p)[1]
            elif m: p = p.drop(xs[i]) if not T else (p.__delitem__(xs[i]), p)[1]
            else: p = p.discard(xs[i]) if not T else (p.discard(xs[i]), p)[1]
    elif how == 'front' or how == 'chain':
        for i in range(n - 3):
            if 'list' in kind: p = p.delete(0) if not T else (p.__delitem__(0), p)[1]
            elif m: p = p.drop(xs[i]) if not T else (p.__delitem__(xs[i]), p)[1]
            else: p = p.discard(xs[i]) if not T else (p.discard(xs[i]), p)[1]
    elif how == 'back':
        for i in range(n - 1, 2, -1):
            if 'list' in kind: p = p.delete() if not T else (p.pop(), p)[1]
            elif m: p = p.drop(xs[i]) if not T else (p.pop(xs[i]), p)[1]
            else: p = p.discard(xs[i]) if not T else (p.remove(xs[i]), p)[1]
    elif how == 'pop':
        for i in range(n - 2):
            if T: p.popitem() if m else p.pop()
            elif m: p = p.popitem()[1]
            else: p = p.pop()[1]
    elif how == 'clear':
        p = p.clear() if not T else (p.clear(), p)[1]
    elif how == 'slice': p = p[n // 2:n // 2 + 5]
    elif how == 'batch':
        if 'list' in kind: return None
        if m: p = p.dropall(xs[3:]) if not T else p
        else: p = p.discardall(xs[3:]) if not T else (p.discardall(xs[3:]), p)[1]
    left = {id(x) for x in p}
    ids = [id(x) for x in xs]
    x = None
    xs = None
    alive = [i for (i, r) in enumerate(refs) if r() is not None and ids[i] not in left]
    if alive:
        gc.collect()
        alive = [i for (i, r) in enumerate(refs) if r() is not None and ids[i] not in left]
    if alive: return f"{kind} of {n}, {how}: {len(alive)} removed elements are still alive although the collection has {len(p)}"
    return None
def lazy_case(what):
    "Memory of repeated failing requests."
    class E(Exception): pass
    def f(*a, **k):
        if what == 'nested': return bad()
        if what == 'base': raise KeyboardInterrupt()
        if what == 'self':
            depth[0] += 1
            if depth[0] > 3: raise E()
            return x()
        raise E(a)
    depth = [0]
    def g(): raise E()
    bad = pc.lazy(g)
    x = pc.lazy(f, 1, k=2)
    c = pc.llist([x]) if what == 'llist' else pc.ldict(k=x) if what == 'ldict' else None
    def once():
        depth[0] = 0
        try:
            if what == 'llist': c[0]
            elif what == 'ldict': c['k']
            else: x()
        except (Exception, KeyboardInterrupt): pass
    class Big: pass
    refs = []
    def holder():
        b = Big()
        refs.append(weakref.ref(b))
        once2(b)
    def once2(b): once()
    tracemalloc.start()
    try:
        for _ in range(30): once()
        gc.collect(); a = tracemalloc.get_traced_memory()[0]
        for _ in range(30): once()
        gc.collect(); b = tracemalloc.get_traced_memory()[0]
    finally: tracemalloc.stop()
    if b - a >= 30 * 16: return f"30 failing requests ({what}) keep {b - a} bytes"
    for _ in range(3): holder()
    gc.collect()
    if any(r() is not None for r in refs): return f"a failing request ({what}) keeps its requester's local variables alive"
    return None
def jobs(tier):
    th = tier != 'quick'
    js = []
    for (kind, (v, seeds, ops)) in KINDS.items():
        ops = list(dict.fromkeys(ops + READS(v, kind) + FAILS(v, kind) + conversions(v, kind)))
        for (i, s) in enumerate(seeds):
            k = 6 if not th else 24
            for j in range(k): js.append(FuncJob(f"{kind}/seed{i}/{j}", explore, s, ops, 3 if th else 2, ops[j::k], v))
            if not th:
                third = ops[i % 2::2]
                for j in range(4): js.append(FuncJob(f"{kind}/seed{i}/deep{j}", explore, s, third, 3, third[j::4], v))
            js.append(FuncJob(f"{kind}/seed{i}/growth", cases.enumerate_cases, 'c28:grow_case', grow_case, [(s, o, v) for o in ops]))
            js.append(FuncJob(f"{kind}/seed{i}/rings", cases.enumerate_cases, 'c28:ring_case', ring_case, [(s, o, v, h) for o in ops for h in RINGS]))
    js += cases.chunks('shrink', 'c28:shrink_case', shrink_case, [(k, n, h) for k in KINDS for n in (3, 33, 65, 1025) for h in ('half', 'front', 'back', 'pop', 'clear', 'batch', 'chain', 'slice') if not (h == 'slice' and 'list' not in k) and not (h == 'chain' and (n > 65 or 'list' in k))], 8)
    js.append(FuncJob('lazy', cases.enumerate_cases, 'c28:lazy_case', lazy_case, [(w,) for w in ('plain', 'nested', 'base', 'self', 'llist', 'ldict')]))
    return js
