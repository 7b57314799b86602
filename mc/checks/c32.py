"""C32: a lazy value and the persistent collections survive requests and operations that are interrupted."""
import sys, threading, queue, itertools
from .. import core, cases, env, locks
from ..core import FuncJob
import pcollections as pc
from pcollections import lazy, llist, ldict, tllist, tldict, plist, pdict, holdlazy
from pcollections._lazy import LazyError
TECHNIQUE = 'exhaustive enumeration of the points at which the interpreter can deliver an asynchronous exception (after every call of C code, at the start of every function, at every backward jump of the library), on the real code'
LEVEL = 'fault_enumeration'
BOUNDS = {
    'quick': "36 ways of requesting (directly, by item, iteration, view, hash, ==, ready_all, conversion, pickling, through transients; values that need one another or themselves, fail the first times, are requested inside the function of another), on lists and dicts of one to three lazy values: interrupted at every point of the library at which the "
             "interpreter can deliver an exception raised by a signal, and interrupted again at every point of a second request; then requested by another thread, and by this one",
    'thorough': "as quick with three interrupted requests one after the other",
}
ASSUMPTIONS = ["CPython 3.12 delivers exceptions of signal handlers after calls of C functions, at the start of Python functions and at backward jumps only; the statement `with lock` is one step up to the start of its body",
               "an interrupt inside the function of the lazy value is an exception of that function (C15, C16)"]
RULE = "a case is one way of requesting with one or two interrupted requests; all are distinct and counted only when the interrupts were delivered"
class Async(BaseException): pass
class Boom(Exception): pass
MON, TOOL = sys.monitoring, 4
EV = MON.events.C_RETURN | MON.events.PY_START | MON.events.JUMP | MON.events.CALL | MON.events.C_RAISE
class State: n = at = 0; fired = False
S = State
def _event(kind):
    def f(code, *a):
        if not code.co_filename.startswith(env.LIBDIR): return
        if kind == 'jump' and a[1] > a[0]: return
        S.n += 1
        if S.n == S.at:
            S.fired = True
            raise Async()
    return f
_on = [False]
def monitor():
    if _on[0]: return
    _on[0] = True
    MON.use_tool_id(TOOL, 'interrupts')
    MON.register_callback(TOOL, MON.events.C_RETURN, _event('ret'))
    MON.register_callback(TOOL, MON.events.PY_START, _event('start'))
    MON.register_callback(TOOL, MON.events.JUMP, _event('jump'))
def interrupted(f, at):
    "Runs f with an exception at the at-th point; (number of points, was it raised, the outcome)."
    monitor()
    S.n, S.at, S.fired = 0, at, False
    MON.set_events(TOOL, EV)
    try:
        r = ('ok', f())
    except (Exception, Async) as e:
        r = ('exc', e)
    finally:
        MON.set_events(TOOL, 0)
    return S.n, S.fired, r
# --- functions of lazy values: each counts the runs that end
class F:
    def __init__(self, plan=(), inner=()): self.plan, self.inner, self.calls, self.values = plan, inner, 0, []
    def __call__(self):
        k = self.calls
        self.calls += 1
        if k < len(self.plan):
            if self.plan[k] == 'raise': raise Boom()
            if self.plan[k] == 'self': self.x()
        for x in self.inner: x()
        v = Val(self)
        self.values.append(v)
        return v
class Val:
    "A result: hashable and comparable by identity, picklable."
    def __init__(self, f): self.f = f
    def __reduce__(self): return (int, (7,))
def mk(plan=(), inner=()):
    f = F(plan, inner)
    x = f.x = lazy(f)
    return x, f
def one(get, plan=(), n=1):
    "Values x1..xn; `get(xs)` makes the requests: a list of functions."
    def sc():
        xfs = [mk(plan if i == 0 else ()) for i in range(n)]
        return xfs, get([x for (x, _) in xfs])
    return sc
def chain(get, plan=(), deep=2):
    "x requests y (which requests z)."
    def sc():
        xfs = [mk(plan)]
        for _ in range(deep - 1): xfs.insert(0, mk((), (xfs[0][0],)))
        return xfs, get([x for (x, _) in xfs])
    return sc
W = {}
def way(name, n=1, plan=(), deep=0):
    def d(get): W[name] = chain(get, plan, deep) if deep else one(get, plan, n)
    return d
way('x()')(lambda xs: xs[0])
way('x(), fails first', plan=('raise',))(lambda xs: xs[0])
way('x(), fails twice', plan=('raise', 'raise'))(lambda xs: xs[0])
way('x() requests itself', plan=('self',))(lambda xs: xs[0])
way('x() requests y', deep=2)(lambda xs: xs[0])
way('x() requests y requests z', deep=3)(lambda xs: xs[0])
way('x() requests y, which fails', plan=('raise',), deep=2)(lambda xs: xs[0])
way('x() requests y, both then', deep=2)(lambda xs: lambda: (xs[0](), xs[1]()))
def seqway(name, f, n=2, **k):
    way(f"llist: {name}", n, **k)(lambda xs: (lambda c: lambda: f(c))(llist(xs)))
    way(f"tllist: {name}", n, **k)(lambda xs: (lambda c: lambda: f(c))(llist([0, *xs]).delete(0).transient()))
def mapway(name, f, n=2, **k):
    way(f"ldict: {name}", n, **k)(lambda xs: (lambda c: lambda: f(c))(ldict(enumerate(xs))))
    way(f"tldict: {name}", n, **k)(lambda xs: (lambda c: lambda: f(c))(ldict([(9, 0), *enumerate(xs)]).drop(9).transient()))
seqway('p[0]', lambda c: c[0])
seqway('p[-1], fails first', lambda c: c[-1], n=1, plan=('raise',))
seqway('list(p)', list)
seqway('p == p2', lambda c: c == [1, 2])
seqway('5 in p', lambda c: 5 in c)
seqway('reversed(p)', lambda c: list(reversed(c)), n=3)
way('llist: hash', 2)(lambda xs: (lambda c: lambda: hash(c))(llist(xs)))
way('llist: ready_all', 3)(lambda xs: (lambda c: lambda: c.ready_all())(llist(xs)))
way('llist: plist(p)', 2)(lambda xs: (lambda c: lambda: plist(c))(llist(xs)))
way('llist: p[1:]', 2)(lambda xs: (lambda c: lambda: list(c[0:]))(llist(xs)))
mapway('p[0]', lambda c: c[0])
mapway('p.get(1), fails first', lambda c: c.get(0), n=1, plan=('raise',))
mapway('values', lambda c: list(c.values()))
mapway('items', lambda c: list(c.items()))
mapway('==', lambda c: c == {0: 1, 1: 2})
mapway('in values', lambda c: 5 in c.values())
way('ldict: pop', 1)(lambda xs: (lambda c: lambda: c.pop(0))(ldict(enumerate(xs))))
way('ldict: ready_all', 3)(lambda xs: (lambda c: lambda: c.ready_all())(ldict(enumerate(xs))))
way('ldict: hash', 2)(lambda xs: (lambda c: lambda: hash(c))(ldict(enumerate(xs))))
way('ldict: pdict(p)', 2)(lambda xs: (lambda c: lambda: pdict(c))(ldict(enumerate(xs))))
# --- another thread
class Helper:
    "A thread that runs functions; a new one is made when one never returned."
    def __init__(self):
        self.q, self.out = queue.SimpleQueue(), queue.SimpleQueue()
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while True:
            f = self.q.get()
            try: r = ('ok', f())
            except BaseException as e: r = ('exc', e)
            self.out.put(r)
    def run(self, f):
        self.q.put(f)
        for _ in range(40):
            try: return self.out.get(timeout=0.5)
            except queue.Empty: core.tick()
        return None
_helper = [None]
def elsewhere(f):
    if _helper[0] is None: _helper[0] = Helper()
    r = _helper[0].run(f)
    if r is None: _helper[0] = None
    return r
def request(x, run):
    "Requests until it does not fail (the functions fail twice at most); gives the outcome."
    for _ in range(4):
        r = run(x)
        if r is None or r[0] == 'ok' or not isinstance(r[1], LazyError): break
    return r
def here(f):
    try: return ('ok', f())
    except BaseException as e: return ('exc', e)
def case(name, ats):
    """Requests interrupted at points `ats` in turn; (number of points in the last, all raised?, what is wrong)."""
    xfs, req = W[name]()
    what = f"{name}, interrupted at point {' and then '.join(map(str, ats))}"
    for at in ats:
        ready = [(f, x()) for (x, f) in xfs if x.is_ready()]
        runs = [len(f.values) for (f, _) in ready]
        (n, fired, r) = interrupted(req, at)
        if at is not None and not fired: return n, False, None
        if [len(f.values) for (f, _) in ready] != runs: return n, True, f"{what}: a value that was ready was computed again"
    for (i, (x, f)) in enumerate(reversed(xfs)):
        ready, runs = x.is_ready(), len(f.values)
        r = request(x, elsewhere)
        if r is None: return n, True, f"{what}: another thread's request of value {i} never returns"
        if r[0] != 'ok': return n, True, f"{what}: another thread's request of value {i} gives {r[1]!r}"
        v = r[1]
        if v not in f.values: return n, True, f"{what}: value {i} is {v!r}, which its function did not return"
        if ready and len(f.values) != runs: return n, True, f"{what}: value {i} was ready and was computed again"
        if len(f.values) > runs + 1 + ('self' in f.plan): return n, True, f"{what}: the function of value {i} ran {len(f.values) - runs} times for one request"
        if not x.is_ready(): return n, True, f"{what}: value {i} is not ready after a request"
        runs = len(f.values)
        r = here(x)
        if r != ('ok', v): return n, True, f"{what}: value {i} was {v!r} for another thread; a request here gives {r[1]!r}"
        r = elsewhere(x)
        if r != ('ok', v) or len(f.values) != runs: return n, True, f"{what}: value {i} is computed again or lost"
    r = here(req)
    if r[0] != 'ok': return n, True, f"{what}: when every value is ready, {name} gives {r[1]!r}"
    return n, True, None
def points(name, ats):
    return case(name, [*ats, None])[0]
def main(name, ats):
    "For replay files."
    return case(name, ats)[2]
def run(rep, name, depth, part):
    sys.unraisablehook = lambda a: None      # an iterator that is closed by an interrupt is reported there by Python
    def go(ats):
        n = points(name, ats)
        for at in range(1, n + 1):
            if not ats and at % part[1] != part[0]: continue
            core.tick()
            here_ = [*ats, at]
            rep.current = cases.script('c32:main', name, here_)
            (_, fired, e) = case(name, here_)
            if not fired: continue
            rep.case(sample=f"{name}: interrupted at {here_}")
            rep.extra['states'] += 1; rep.extra['transitions'] += len(here_) + 1; rep.extra['leaves'] += 1
            if e: rep.violation(e, rep.current, key=f"{name}|{here_}")
            elif len(here_) < depth: go(here_)
    go([])
def jobs(tier):
    th = tier != 'quick'
    js = []
    for name in W:
        k = 1 if not th else 4
        for i in range(k): js.append(FuncJob(f"{name}/{i}", run, name, 3 if th else 2, (i, k)))
    return js
