"""C25: conversions are constant-time and updates touch only a logarithmic part."""
import sys, time, itertools, tracemalloc
from .. import core, syms, cases
from ..core import FuncJob
import pcollections as pc
TECHNIQUE = 'exhaustive enumeration of sizes and of short operation histories on the real code, with the work of every operation counted (bytecodes executed, bytes allocated, CPU time of C code)'
BOUNDS = {
    'quick': "the ten kinds, each built in 2-4 ways (constructor, grown at either end, shrunk at the front, keys with sparse 64-bit hashes): every size 0-199, 250-261, 508-517, 1020-1061 and the sizes around the powers of two up to 2^17; "
             "18-30 operations at each; and every sequence of 3 conversions and single edits at the sizes 1030 and 40000, every operation being measured",
    'thorough': "as quick with every size up to 4200, powers of two up to 2^18 and sequences of 4 operations",
}
ASSUMPTIONS = ["the work at sizes above 64 may exceed three times the most seen at sizes up to 64 by a fixed allowance (300 bytecodes, 16 KiB); linear work in C without allocation is seen only above 1 ms of CPU time (sizes from 2^16)"]
RULE = "a case is one operation at one size in one representation (or one operation at the end of one history); all are distinct, and the operation's work is measured each time"
SLACK_OPS, SLACK_BYTES, CPU = 300, 16384, 1e-3
class TooMuch(BaseException): pass
class Counter_:
    def __init__(self, limit): self.n, self.limit = 0, limit
    def tracer(self, frame, event, arg):
        if event == 'call':
            frame.f_trace_opcodes = True; frame.f_trace_lines = False
        elif event == 'opcode':
            self.n += 1
            if self.n > self.limit: raise TooMuch()
        return self.tracer
def count_ops(fn, limit=1 << 30):
    c = Counter_(limit)
    sys.settrace(c.tracer)
    try: fn()
    except TooMuch: pass
    except Exception: pass
    finally: sys.settrace(None)
    return c.n
def count_bytes(fn):
    b = tracemalloc.get_traced_memory()[0]
    tracemalloc.reset_peak()
    try: r = fn()
    except Exception: r = None
    return tracemalloc.get_traced_memory()[1] - b
def cpu(fn, n=5):
    best = 9.0
    for _ in range(n):
        t = time.thread_time()
        try: fn()
        except Exception: pass
        best = min(best, time.thread_time() - t)
        if best < CPU: break
    return best
SPREAD = 0x9E3779B97F4A7C15
def spread(i): return (i * SPREAD) % ((1 << 61) - 1)
def const(x): return x
LZ = pc.lazy(const, 5)
# --- operations: name -> function of (p, t) where t is a fresh transient of p
def ops_list(k):
    P, T = getattr(pc, k), {'plist': pc.tlist, 'llist': pc.tllist}[k]
    o = {
        'p.transient()': lambda p: p.transient(), f'{T.__name__}(p)': lambda p: T(p), f'{k}(p)': lambda p: P(p), 'p.copy()': lambda p: p.copy(),
        'p.transient().persistent()': lambda p: p.transient().persistent(), f'{k}(p.transient())': lambda p: P(p.transient()), 'p.transient().copy()': lambda p: p.transient().copy(),
        'p.append(x)': lambda p: p.append(7), 'p.prepend(x)': lambda p: p.prepend(7), 'p.set(0, x)': lambda p: p.set(0, 'x'), 'p.set(-1, x)': lambda p: p.set(-1, 'x'), 'p.set(mid, x)': lambda p: p.set(len(p) // 2, 'x'), 'p.set(mid, same)': lambda p: p.set(len(p) // 2, p[len(p) // 2]),
        'p.delete()': lambda p: p.delete(), 'p.delete(0)': lambda p: p.delete(0), 'p.drop()': lambda p: p.drop(), 'p.pop()': lambda p: p.pop(), 'p.pop(0)': lambda p: p.pop(0), 'p.insert(0, x)': lambda p: p.insert(0, 'x'), 'p.insert(n, x)': lambda p: p.insert(len(p), 'x'), 'p.clear()': lambda p: p.clear(),
        'len(p)': len, 'p[0]': lambda p: p[0], 'p[mid]': lambda p: p[len(p) // 2], 'p[-1]': lambda p: p[-1], 'p + [x]': lambda p: p + ['x'], '[x] + p': lambda p: ['x'] + p, 'p + []': lambda p: p + [], 'p.extend([x])': lambda p: p.extend(['x']), 'p * 1': lambda p: p * 1,
        'p is compared to itself': lambda p: p == p, 'next(iter(p))': lambda p: next(iter(p)),
    }
    def edit(f):
        def g(p):
            t = p.transient(); f(t); return t.persistent()
        return g
    for (n, f) in {'t.append(x)': lambda t: t.append('x'), 't.prepend(x)': lambda t: t.prepend('x'), 't[0] = x': lambda t: t.__setitem__(0, 'x'), 't[mid] = x': lambda t: t.__setitem__(len(t) // 2, 'x'), 'del t[-1]': lambda t: t.__delitem__(-1), 'del t[0]': lambda t: t.__delitem__(0), 't.pop()': lambda t: t.pop(), 't.pop(0)': lambda t: t.pop(0), 't.insert(0, x)': lambda t: t.insert(0, 'x'), 't.clear()': lambda t: t.clear(), 't[mid]': lambda t: t[len(t) // 2]}.items(): o[f'one edit between conversions: {n}'] = edit(f)
    if k == 'llist': o.update({'p.as_plist()': lambda p: p.as_plist(), 'p.getlazy(0)': lambda p: p.getlazy(0), 'p.is_lazy(0)': lambda p: p.is_lazy(0), 'p.append(lazy)': lambda p: p.append(LZ), 'llist(p.as_plist())': lambda p: pc.llist(p.as_plist())})
    return o
def some(p, k): return next(iter(p), None)
def ops_set():
    o = {
        'p.transient()': lambda p: p.transient(), 'tset(p)': lambda p: pc.tset(p), 'pset(p)': lambda p: pc.pset(p), 'p.copy()': lambda p: p.copy(), 'p.transient().persistent()': lambda p: p.transient().persistent(), 'pset(p.transient())': lambda p: pc.pset(p.transient()), 'p.transient().copy()': lambda p: p.transient().copy(),
        'p.add(new)': lambda p: p.add('new'), 'p.add(old)': lambda p: p.add(MID), 'p.discard(new)': lambda p: p.discard('new'), 'p.discard(old)': lambda p: p.discard(MID), 'p.remove(old)': lambda p: p.remove(MID), 'p.pop()': lambda p: p.pop(), 'p.clear()': lambda p: p.clear(), 'len(p)': len, 'old in p': lambda p: MID in p, 'new in p': lambda p: 'new' in p,
        'p.addall([x])': lambda p: p.addall(['new']), 'p.discardall([x])': lambda p: p.discardall([MID]), 'p | {x}': lambda p: p | {'new'}, 'p - {x}': lambda p: p - {MID}, 'p.union([x])': lambda p: p.union(['new']), 'p.difference([x])': lambda p: p.difference([MID]), 'next(iter(p))': lambda p: next(iter(p)),
    }
    def edit(f):
        def g(p):
            t = p.transient(); f(t); return t.persistent()
        return g
    for (n, f) in {'t.add(new)': lambda t: t.add('new'), 't.add(old)': lambda t: t.add(MID), 't.discard(old)': lambda t: t.discard(MID), 't.remove(old)': lambda t: t.remove(MID), 't.pop()': lambda t: t.pop(), 't.clear()': lambda t: t.clear(), 't |= {new}': lambda t: t.__ior__({'new'}), 't -= {old}': lambda t: t.__isub__({MID})}.items(): o[f'one edit between conversions: {n}'] = edit(f)
    return o
def ops_map(k):
    P, T = getattr(pc, k), {'pdict': pc.tdict, 'ldict': pc.tldict}[k]
    o = {
        'p.transient()': lambda p: p.transient(), f'{T.__name__}(p)': lambda p: T(p), f'{k}(p)': lambda p: P(p), 'p.copy()': lambda p: p.copy(), 'p.transient().persistent()': lambda p: p.transient().persistent(), f'{k}(p.transient())': lambda p: P(p.transient()), 'p.transient().copy()': lambda p: p.transient().copy(), f'{T.__name__}(p.transient())': lambda p: T(p.transient()),
        'p.set(new, x)': lambda p: p.set('new', 1), 'p.set(old, x)': lambda p: p.set(MID, 'x'), 'p.set(old, same)': lambda p: p.set(MID, p.get(MID)), 'p.drop(old)': lambda p: p.drop(MID), 'p.drop(new)': lambda p: p.drop('new'), 'p.delete(old)': lambda p: p.delete(MID), 'p.pop(old)': lambda p: p.pop(MID), 'p.pop(new, x)': lambda p: p.pop('new', 0), 'p.popitem()': lambda p: p.popitem(),
        'p.setdefault(old, x)': lambda p: p.setdefault(MID, 0), 'p.setdefault(new, x)': lambda p: p.setdefault('new', 0), 'p.clear()': lambda p: p.clear(), 'len(p)': len, 'p[old]': lambda p: p[MID], 'p.get(new)': lambda p: p.get('new'), 'old in p': lambda p: MID in p, 'p.keys()': lambda p: p.keys(), 'p.items()': lambda p: p.items(), 'p.values()': lambda p: p.values(), 'len(p.items())': lambda p: len(p.items()), 'old in p.keys()': lambda p: MID in p.keys(),
        '(old, x) in p.items()': lambda p: (MID, 'x') in p.items(), 'p.update({new: x})': lambda p: p.update({'new': 1}), 'p.update(new=x)': lambda p: p.update(new=1), 'p.dropall([old])': lambda p: p.dropall([MID]), 'p.setall([new], [x])': lambda p: p.setall(['new'], [1]), 'next(iter(p))': lambda p: next(iter(p)), 'next(iter(p.items()))': lambda p: next(iter(p.items())),
    }
    def edit(f):
        def g(p):
            t = p.transient(); f(t); return t.persistent()
        return g
    for (n, f) in {'t[new] = x': lambda t: t.__setitem__('new', 1), 't[old] = x': lambda t: t.__setitem__(MID, 'x'), 'del t[old]': lambda t: t.__delitem__(MID), 't.pop(old)': lambda t: t.pop(MID), 't.popitem()': lambda t: t.popitem(), 't.setdefault(new, x)': lambda t: t.setdefault('new', 1), 't.update({new: x})': lambda t: t.update({'new': 1}), 't.clear()': lambda t: t.clear(), 't.get(old)': lambda t: t.get(MID), 'next(iter(t))': lambda t: next(iter(t)), 'len(t.keys())': lambda t: len(t.keys())}.items(): o[f'one edit between conversions: {n}'] = edit(f)
    if k == 'ldict': o.update({'p.as_pdict()': lambda p: p.as_pdict(), 'p.getlazy(old)': lambda p: p.getlazy(MID), 'p.is_lazy(old)': lambda p: p.is_lazy(MID), 'p.set(new, lazy)': lambda p: p.set('new', LZ), 'ldict(p.as_pdict())': lambda p: pc.ldict(p.as_pdict()), 'p.transient().as_tdict()': lambda p: p.transient().as_tdict()})
    return o
MID = 1
def opsof(k): return ops_set() if k == 'pset' else ops_list(k) if k in ('plist', 'llist') else ops_map(k)
def hollow(P, n, pairs, mid=0):
    "n items left of about three times as many."
    mk = (lambda r: P([(i, i) for i in r])) if pairs else P
    t = mk(list(range(2)) + list(range(n, 3 * n + 18)) + list(range(2, n))).transient()
    for i in range(max(n, 2), 3 * n + 18): t.discard(i) if not pairs else t.__delitem__(i)
    if n < 2:
        for i in range(n, 2): (t.discard(i) if not pairs else t.pop(i, None))
    return t.persistent()
def hollow_list(P, n):
    t = P(range(3 * n + 18)).transient()
    for i in range(n + 9): del t[0]
    while len(t) > n: t.pop()
    return t.persistent()
# --- representations: name -> (start for size 0, grow by one), used for the exhaustive range; and a direct builder
def front(P, n):
    t = P(range(n)).transient()
    for i in range(3): t.prepend(i)
    t = t.persistent().transient()
    for i in range(3): del t[0]
    return t.persistent()
REPS = {
    'plist': {'constructor': lambda n: pc.plist(range(n)), 'offset': lambda n: pc.plist(range(n // 2, n)).__radd__(list(range(n // 2))), 'shrunk': lambda n: pc.plist(range(n + 3)).delete(0).delete(0).delete(0), 'hollow': lambda n: hollow_list(pc.plist, n)},
    'llist': {'constructor': lambda n: pc.llist([LZ] + list(range(1, n)) if n else []), 'offset': lambda n: pc.llist(range(n // 2, n)).__radd__(list(range(n // 2)))},
    'pset': {'constructor': lambda n: pc.pset(range(n)), 'sparse': lambda n: pc.pset([1] + [spread(i) for i in range(1, n)] if n else []), 'shrunk': lambda n: pc.pset(range(n + 3)).discard(n).discard(n + 1).discard(n + 2), 'hollow': lambda n: hollow(pc.pset, n, 0)},
    'pdict': {'constructor': lambda n: pc.pdict([(i, i) for i in range(n)]), 'sparse': lambda n: pc.pdict([(1, 1)] + [(spread(i), i) for i in range(1, n)] if n else []), 'shrunk': lambda n: pc.pdict([(i, i) for i in range(n + 2)]).drop(n).drop(n + 1), 'hollow': lambda n: hollow(pc.pdict, n, 1)},
    'ldict': {'constructor': lambda n: pc.ldict([(i, LZ if i == 1 else i) for i in range(n)]), 'sparse': lambda n: pc.ldict([(1, LZ)] + [(spread(i), i) for i in range(1, n)] if n else []), 'hollow': lambda n: hollow(pc.ldict, n, 1)},
}
def measure(op, p, limit=1 << 30):
    f = lambda: op(p)
    return count_ops(f, limit), count_bytes(f)
def build(k, rep, n):
    "The collection (built without accounting)."
    on = tracemalloc.is_tracing()
    if on: tracemalloc.stop()
    core.tick()
    p = REPS[k][rep](n)
    core.tick()
    if on: tracemalloc.start()
    return p
_base = {}
def base(k, rep, name, op):
    b = _base.get((k, name))
    if b is None:
        b = (0, 0)
        for r in REPS[k]:
            for n in list(range(0, 9)) + [15, 16, 17, 31, 32, 33, 34, 48, 63, 64]:
                p = REPS[k][r](n)
                hash(p)
                measure(op, p)                  # (first runs create code caches)
                m = measure(op, p)
                b = (max(b[0], m[0]), max(b[1], m[1]))
        _base[k, name] = b
    return b
def one(k, rep, n, name, p=None):
    "None or what is wrong with the cost of the operation at size n."
    if not tracemalloc.is_tracing(): tracemalloc.start()
    op = opsof(k)[name]
    (bo, bb) = base(k, rep, name, op)
    if p is None: p = build(k, rep, n)
    lo, lb = 3 * bo + SLACK_OPS, 3 * bb + SLACK_BYTES
    (o, b) = measure(op, p, lo + 1)
    what = f"{name} on a {k} ({rep}) of {n} items"
    if o > lo: return f"{what} executes more than {lo} bytecodes (at most {bo} at sizes up to 64)"
    if b > lb: return f"{what} allocates {b} bytes (at most {bb} at sizes up to 64)"
    if n >= 60000:
        tracemalloc.stop()
        c = cpu(lambda: op(p))
        tracemalloc.start()
        if c >= CPU: return f"{what} takes {c * 1000:.1f} ms of CPU time, every time"
    return None
def sizes(rep_, k, rep, ns):
    tracemalloc.start()
    ops = opsof(k)
    mo = mb = 0
    for n in ns:
        p = build(k, rep, n)
        for name in ops:
            core.tick()
            rep_.current = cases.script('c25:one', k, rep, n, name)
            e = one(k, rep, n, name, p)
            rep_.case(key=(k, rep, n, name), sample=f"{k}/{rep} n={n}: {name}")
            if e: rep_.violation(e, rep_.current, key=f"{k}|{name}")
        rep_.extra['sizes'] += 1
# --- histories
HOPS = {
    'plist': ["t = p.transient()", "t = tlist(p)", "p = t.persistent()", "p = plist(t)", "t.append(7)", "t[5] = 'x'", "t[-1] = 'y'", "del t[-1]", "del t[0]", "t.prepend(8)", "p = p.append(1)", "p = p.prepend(1)", "p = p.set(-1, 2)", "p = p.set(700, 3)", "p = p.delete()", "p = p.delete(0)", "t = t.copy()", "r = p[701]", "r = t[701]"],
    'llist': ["t = p.transient()", "t = tllist(p)", "p = t.persistent()", "p = llist(t)", "t.append(LZ)", "t[5] = LZ", "del t[-1]", "del t[0]", "t.prepend(8)", "p = p.append(LZ)", "p = p.prepend(1)", "p = p.set(700, LZ)", "p = p.delete(0)", "t = t.copy()", "r = p.as_plist()"],
    'pset': ["t = p.transient()", "t = tset(p)", "p = t.persistent()", "p = pset(t)", "t.add('a')", "t.discard(5)", "t.add(6)", "t.remove(700)", "p = p.add('b')", "p = p.discard(3)", "p = p.discard('zz')", "r = t.pop()", "t = t.copy()", "r = 701 in t", "t |= {'c'}"],
    'pdict': ["t = p.transient()", "t = tdict(p)", "p = t.persistent()", "p = pdict(t)", "t['a'] = 1", "t[5] = 'x'", "del t[700]", "r = t.pop(3, None)", "r = t.popitem()", "p = p.set('b', 1)", "p = p.set(9, 2)", "p = p.drop(4)", "p = p.drop('zz')", "t = t.copy()", "r = t.get(701)", "t = tdict(t)", "r = t.keys()"],
    'ldict': ["t = p.transient()", "t = tldict(p)", "p = t.persistent()", "p = ldict(t)", "t['a'] = LZ", "t[5] = LZ", "del t[700]", "r = t.pop(3, None)", "p = p.set('b', LZ)", "p = p.drop(4)", "t = t.copy()", "r = t.as_tdict()", "r = p.as_pdict()", "t = tldict(t)"],
}
GLOB = core.impl_globals(dict(LZ=LZ))
_hbase = {}
def hist(k, seq, n, small=True):
    "Runs the history at size n, measuring every operation; compares with the same history at size 64+n0."
    if not tracemalloc.is_tracing(): tracemalloc.start()
    def run(m, limits=None):
        p = BUILT[k, m] if (k, m) in BUILT else BUILT.setdefault((k, m), build(k, 'constructor', m))
        ns = {'p': p, 't': p.transient()}
        out = []
        for (i, s) in enumerate(seq):
            snap = ns.get('t')
            # the operation is executed twice from equal states: once counting bytecodes, once bytes
            c = Counter_(limits[i][0] + 1 if limits else 1 << 30)
            code = COMPILED.get(s) or COMPILED.setdefault(s, compile(s, '<op>', 'exec'))
            b0 = tracemalloc.get_traced_memory()[0]; tracemalloc.reset_peak()
            try: exec(code, GLOB, ns)
            except Exception: pass
            b = tracemalloc.get_traced_memory()[1] - b0
            out.append(b)
        ns = {'p': p, 't': p.transient()}
        res = []
        for (i, s) in enumerate(seq):
            c = Counter_(limits[i][0] + 1 if limits else 1 << 30)
            sys.settrace(c.tracer)
            try: exec(COMPILED[s], GLOB, ns)
            except TooMuch: pass
            except Exception: pass
            finally: sys.settrace(None)
            res.append((c.n, out[i]))
            if limits and c.n > limits[i][0]: break
        return res
    run(40)
    lo = [(3 * a + SLACK_OPS, 3 * b + SLACK_BYTES) for (a, b) in run(60)]
    for (i, (o, b)) in enumerate(run(n, lo)):
        if o > lo[i][0]: return f"{seq[i]} after {'; '.join(seq[:i])} on a {k} of {n} items executes more than {lo[i][0]} bytecodes (a third of that or less at 60 items)"
        if b > lo[i][1]: return f"{seq[i]} after {'; '.join(seq[:i])} on a {k} of {n} items allocates {b} bytes ({(lo[i][1] - SLACK_BYTES) // 3} at 60 items)"
    return None
BUILT, COMPILED = {}, {}
def hists(rep, k, depth, n, first):
    tracemalloc.start()
    for rest in itertools.product(HOPS[k], repeat=depth - 1):
        seq = (first,) + rest
        core.tick()
        rep.current = cases.script('c25:hist', k, seq, n)
        e = hist(k, seq, n)
        rep.case(key=(k, seq, n), sample=f"{k} of {n}: {'; '.join(seq)}")
        if e: rep.violation(e, rep.current, key=f"{k}|{seq[-1]}")
def jobs(tier):
    th = tier != 'quick'
    core.HANG_TICKS = 60          # (building the large collections takes seconds)
    js = []
    ns = list(range(4201)) if th else list(range(200)) + list(range(250, 262)) + list(range(508, 518)) + list(range(1020, 1062))
    pw = [m for e in range(11, (19 if th else 18)) for m in (2 ** e - 1, 2 ** e, 2 ** e + 1)]
    for k in REPS:
        for r in REPS[k]:
            step_ = 24 if th else 4
            for a in range(step_): js.append(FuncJob(f'sizes/{k}/{r}/{a}', sizes, k, r, ns[a::step_]))
            for c in (0, 1): js.append(FuncJob(f'sizes/{k}/{r}/powers{c}', sizes, k, r, pw[c::2]))
        for f in HOPS[k]:
            for n in (1030, 40000): js.append(FuncJob(f'histories/{k}/{n}/{f}', hists, k, 4 if th and n == 1030 else 3, n, f))
    return js
