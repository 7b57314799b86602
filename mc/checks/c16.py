"""C16: concurrent requests for a lazy value compute it exactly once."""
from .. import core, sched, syms
from ..core import FuncJob
from pcollections import lazy, llist, ldict, tllist, tldict, plist, pdict, pset, holdlazy
from pcollections._lazy import LazyError, unlazy
TECHNIQUE = 'exhaustive exploration of thread schedules of the real code (all interleavings up to a preemption bound, by depth-first search with replay)'
BOUNDS = {
    'quick': "30 scenarios of two and three threads requesting shared lazy objects directly and through shared llist, ldict, tllist and tldict collections, with functions that succeed, fail the first times, fail always, request other lazy objects or themselves, wait for something another thread does with a different lazy object, or are stopped by a "
             "BaseException: all schedules at opcode granularity with <= 3 preemptions (two threads requesting directly or by item) or <= 2 (the others)",
    'thorough': "as quick with <= 5 (direct requests), 4 (items) and 3 preemptions",
}
ASSUMPTIONS = ["threads switch between, not inside, the opcodes of the interpreter and the operations of the C extension phamt", "functions of lazy values do not request one another in a cycle from different threads",
               "blocking happens on locks of the threading module"]
RULE = "one evaluation is one schedule of one scenario; all differ; distinct_nontrivial counts the scenario shares explored"
PIN = True
class Boom(Exception): pass
class Base(BaseException): pass
class F:
    "The function of a lazy value: counts calls; `plan` says what each call does."
    def __init__(self, ex, plan=(), inner=None):
        self.ex, self.plan, self.inner, self.calls, self.ok, self.failed = ex, plan, inner, 0, 0, []
        self.values = []
    def __call__(self):
        k = self.calls
        self.calls += 1
        self.ex.point()
        a = self.plan[k] if k < len(self.plan) else 'ret'
        if a == 'raise':
            self.failed.append(self.ex.current_key()); raise Boom()
        if a == 'base':
            self.failed.append(self.ex.current_key()); raise Base()
        if a == 'req': v = ('got', self.inner())
        elif a == 'self':
            self.inner(); v = None
        v = [k]
        self.values.append(v)
        self.ok += 1
        self.ex.point()
        return v
def once(f, rs, get=lambda x: x):
    """Every thread got the one value, except those whose call failed, which got LazyError."""
    if f.ok != (1 if len(f.failed) < len(rs) else 0): return f"the function ran to completion {f.ok} times ({f.calls} calls)"
    for (t, r) in enumerate(rs):
        if r[0] == 'ok':
            g = get(r[1])
            for v in (g if type(g) is tuple else (g,)):
                if v is not f.values[0] if f.values else True: return f"thread {t} obtained {v!r}; the value is {f.values}"
        elif t not in f.failed: return f"thread {t} got {r[1]!r}, but no computation failed in it"
        elif not isinstance(r[1], (LazyError, Base)): return f"thread {t} got {r[1]!r}"
    for t in f.failed:
        if rs[t][0] == 'ok': return f"a computation failed in thread {t}, which obtained {rs[t][1]!r}"
    return None
def direct(n, plan):
    def sc(ex):
        f = F(ex, plan)
        x = lazy(f)
        return [x] * n, lambda rs: once(f, rs) or (None if x.is_ready() is (f.ok > 0) else f"is_ready() is {x.is_ready()} after {f.ok} successful computations")
    return sc
def poll(ex):
    "One thread requests; the other asks is_ready() and then takes the value."
    f = F(ex); x = lazy(f)
    def b():
        r = []
        for _ in range(2):
            ready = x.is_ready()
            if ready:
                c = f.calls
                if not f.ok: raise AssertionError("is_ready() before the function finished")
                r.append(x())
                if f.calls != c: raise AssertionError("computed again when ready")
        return tuple(r)
    def check(rs):
        if rs[1][0] != 'ok': return f"{rs[1][1]}"
        return once(f, rs)
    return [x, b], check
def poll_coll(ex):
    f = F(ex); x = lazy(f); ll = llist([x]); ld = ldict({1: x})
    def b():
        r = []
        if ll.is_ready(0):
            if not f.ok: raise AssertionError("is_ready() before the function finished")
            r.append(ll[0])
        if ld.is_ready(1):
            if not f.ok: raise AssertionError("is_ready() before the function finished")
            r.append(ld[1])
        return tuple(r)
    def check(rs):
        if rs[1][0] != 'ok': return f"{rs[1][1]}"
        return once(f, rs)
    return [lambda: ll[0], b], check
def coll(mk, *reads):
    def sc(ex):
        f = F(ex); x = lazy(f)
        c = mk(x)
        return [lambda r=r: r(c) for r in reads], lambda rs: once(f, rs)
    return sc
def coll_fail(mk, *reads):
    def sc(ex):
        f = F(ex, ('raise',)); x = lazy(f)
        c = mk(x)
        return [lambda r=r: r(c) for r in reads], lambda rs: once(f, rs)
    return sc
def nested(plan):
    "x's function requests y; one thread requests x, another y."
    def sc(ex):
        g = F(ex, plan); y = lazy(g)
        f = F(ex, ('req', 'req', 'req'), y); x = lazy(f)
        def check(rs):
            e = once(g, rs[1:2])
            if e and 'raise' not in plan: return 'inner: ' + e
            if g.ok > 1 or f.ok > 1: return f"ran to completion {f.ok} and {g.ok} times"
            if 'raise' in plan:
                for (t, r) in enumerate(rs):
                    if r[0] != 'ok' and t not in g.failed: return f"thread {t} got {r[1]!r}, but no computation failed in it"
                    if r[0] == 'ok' and r[1] is not (f if t == 0 else g).values[0]: return f"thread {t} obtained {r[1]!r}"
                return None
            return once(f, rs[:1])
        return [x, y], check
    return sc
def nested2(ex):
    "x and z both request y; one thread requests x, another z."
    g = F(ex); y = lazy(g)
    f = F(ex, ('req',), y); x = lazy(f)
    h = F(ex, ('req',), y); z = lazy(h)
    def check(rs):
        return once(f, rs[:1]) or once(h, rs[1:]) or (None if g.ok == 1 else f"the shared inner function ran {g.ok} times")
    return [x, z], check
def selfreq(ex):
    "The function's first call requests the object itself."
    f = F(ex, ('self',)); x = lazy(f); f.inner = x
    def check(rs):
        vs = []
        for (t, r) in enumerate(rs):
            if r[0] != 'ok': return f"thread {t} got {r[1]!r}"
            vs.append(r[1])
        if f.calls != 2: return f"{f.calls} calls instead of one and the one it makes itself"
        if vs[0] is not vs[1] or vs[0] is not x(): return f"threads obtained different objects {vs}"
        return None
    return [x, x], check
def two_objects(ex):
    "Two threads request two independent objects in opposite orders."
    f = F(ex); x = lazy(f); g = F(ex); y = lazy(g)
    def check(rs):
        return once(f, [r if r[0] != 'ok' else ('ok', r[1][0]) for r in rs]) or once(g, [r if r[0] != 'ok' else ('ok', r[1][1]) for r in rs])
    return [lambda: (x(), y()), lambda: (lambda b: (x(), b))(y())], check
class Event:
    "Something a function waits for and another thread does (threading.Event under the scheduler)."
    def __init__(self, ex): self.ex, self.flag = ex, False
    def __call__(self):
        while not self.flag: self.ex.block(self)
    def set(self):
        self.flag = True
        self.ex.unblock(self)
def waits(get, plan=(), then=False):
    """x's function waits for something the other thread does after (a request of) a different lazy value y."""
    def sc(ex):
        ev = Event(ex)
        f = F(ex, ('req',) * 2, ev); x = lazy(f)
        g = F(ex, plan); y = lazy(g)
        (a, b) = get(x, y)
        def other():
            try: return b()
            finally: ev.set()
        return [a, other], lambda rs: once(f, rs[:1]) or (once(g, [None, rs[1]][1:]) if not plan else None if g.failed == [1] and isinstance(rs[1][1], LazyError) else f"thread 1 got {rs[1][1]!r}") or (None if x.is_ready() and y.is_ready() is (not plan) else "is_ready() is wrong")
    return sc
S = {}
S['waits'] = (2, waits(lambda x, y: (x, y)))
S['waits-fail'] = (2, waits(lambda x, y: (x, y), ('raise',)))
S['waits-llist'] = (2, waits(lambda x, y: (lambda c: (lambda: c[0], lambda: c[1]))(llist([x, y]))))
S['waits-ldict'] = (2, waits(lambda x, y: (lambda c: (lambda: c[1], lambda: c.get(2)))(ldict({1: x, 2: y}))))
S['waits-tllist'] = (2, waits(lambda x, y: (lambda c: (lambda: c.transient()[0], lambda: list(c[1:].transient())[0]))(llist([x, y]))))
S['waits-ldict-views'] = (2, waits(lambda x, y: (lambda c: (lambda: next(iter(c.values())), lambda: c.transient().pop(2)))(ldict({1: x, 2: y}))))
S['two'] = (2, direct(2, ()))
S['two-fail1'] = (2, direct(2, ('raise',)))
S['two-fail2'] = (2, direct(2, ('raise', 'raise')))
S['two-base'] = (2, direct(2, ('base',)))
S['poll'] = (2, poll)
S['poll-coll'] = (2, poll_coll)
S['llist'] = (2, coll(lambda x: llist([x]), lambda c: c[0], lambda c: list(c)[0]))
S['llist-hash'] = (2, coll(lambda x: llist([lazy(lambda: 1), x]), lambda c: (hash(c) if 0 else c.ready_all(), c[1])[1], lambda c: c[-1]))
S['llist-versions'] = (2, coll(lambda x: llist([x]), lambda c: c.append(5)[0], lambda c: c.prepend(6)[1]))
S['llist-ready'] = (2, coll(lambda x: llist([x]), lambda c: c.ready_all()[0], lambda c: c.ready_all()[0]))
S['tllist'] = (2, coll(lambda x: llist([x]), lambda c: c.transient()[0], lambda c: tllist(c).pop()))
S['ldict'] = (2, coll(lambda x: ldict({1: x}), lambda c: c[1], lambda c: c.get(1)))
S['ldict-views'] = (2, coll(lambda x: ldict({1: x}), lambda c: list(c.values())[0], lambda c: list(c.items())[0][1]))
S['ldict-pop'] = (2, coll(lambda x: ldict({1: x}), lambda c: c.pop(1)[0], lambda c: c.popitem()[0][1]))
S['ldict-ready'] = (2, coll(lambda x: ldict({1: x}), lambda c: c.ready_all()[1], lambda c: c.set(2, 3)[1]))
S['tldict'] = (2, coll(lambda x: ldict({1: x}), lambda c: c.transient()[1], lambda c: c.transient().pop(1)))
S['ldict-fail'] = (2, coll_fail(lambda x: ldict({1: x}), lambda c: c[1], lambda c: c.get(1)))
S['llist-fail'] = (2, coll_fail(lambda x: llist([x]), lambda c: c[0], lambda c: list(c)[0]))
S['mixed'] = (2, lambda ex: (lambda f: (lambda x: (lambda a, b: ([lambda: a[0], lambda: b['k']], lambda rs: once(f, rs)))(llist([x]), ldict(k=x)))(lazy(f)))(F(ex)))
S['nested'] = (2, nested(()))
S['nested-fail'] = (2, nested(('raise',)))
S['nested-shared'] = (2, nested2)
S['self'] = (2, selfreq)
S['two-objects'] = (2, two_objects)
S['three'] = (3, direct(3, ()))
S['three-fail1'] = (3, direct(3, ('raise',)))
S['three-fail2'] = (3, direct(3, ('raise', 'raise')))
def script(name):
    return lambda c: f"from mc.checks import c16\nfrom mc import sched\n(ex, e) = sched.execute(c16.S[{name!r}][1], {c!r})\nprint('REPRODUCED: ' + e if e else 'not reproduced')\nsys.exit(1 if e else 0)\n"
def one(rep, name, bound, part):
    rep.current = None
    sched.explore(rep, name, S[name][1], bound, script(name), part=part)
def jobs(tier):
    th = tier != 'quick'
    js = []
    for (name, (n, _)) in S.items():
        b = 2
        if name in ('two', 'two-fail1', 'two-fail2', 'two-base', 'self', 'poll', 'llist', 'ldict', 'tldict', 'nested', 'mixed', 'two-objects', 'ldict-fail'): b = 3
        if th: b += 1
        if th and name in ('two', 'two-fail1', 'two-base', 'self', 'poll'): b = 5
        k = (16 if b > 2 else 4) if not th else 32
        for i in range(k): js.append(FuncJob(f"{name}/{i}", one, name, b, (i, k)))
    return js
