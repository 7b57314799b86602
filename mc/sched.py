"""Controlled scheduling of real threads: one runs at a time, and every switch is a decision of the explorer.

Threads are traced opcode by opcode inside the library (sys.settrace with f_trace_opcodes).  A switch
is possible before every opcode that can read or write state shared between threads or call out
(attribute, item and closure accesses, calls, iteration steps, comparisons and operators, which may
call methods), at every lock operation and wherever the harness calls point(); opcodes that touch only
the frame's own locals and stack commute with everything and get no switch point.  Locks made by the
library are replaced (mc/locks.py), so blocking is seen by the scheduler, and a state in which every
unfinished thread is blocked is a deadlock.

explore() enumerates all schedules with at most `bound` preemptions (a switch away from a thread that
could have continued) by depth-first search with replay.
"""
import sys, threading, dis
from . import env, locks, core
REAL_LOCK = locks.REAL_LOCK
VISIBLE = set()
for _n in ('LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'LOAD_METHOD', 'LOAD_SUPER_ATTR', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'BINARY_SLICE', 'STORE_SLICE',
           'LOAD_DEREF', 'STORE_DEREF', 'DELETE_DEREF', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'BINARY_OP', 'COMPARE_OP', 'CONTAINS_OP', 'CALL', 'CALL_FUNCTION_EX', 'CALL_KW', 'CALL_INTRINSIC_1',
           'FOR_ITER', 'GET_ITER', 'UNPACK_SEQUENCE', 'UNPACK_EX', 'LIST_EXTEND', 'SET_UPDATE', 'DICT_UPDATE', 'DICT_MERGE', 'FORMAT_VALUE', 'BEFORE_WITH', 'GET_LEN'):
    if _n in dis.opmap: VISIBLE.add(dis.opmap[_n])
class Abort(BaseException):
    "Unwinds the threads of an execution that has been decided."
class Deadlock(Exception): pass
_points = {}
def points_of(code):
    s = _points.get(code)
    if s is None:
        s = _points[code] = frozenset(i.offset for i in dis.get_instructions(code) if dis.opmap.get(i.opname, -1) in VISIBLE)
    return s
class Worker:
    "A thread that runs the bodies it is given."
    def __init__(self, key):
        self.key = key
        self.sem = REAL_LOCK(); self.sem.acquire()
        self.body = None
        (a, locks.ACTIVE) = (locks.ACTIVE, None)          # (threading's own locks must be genuine)
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()
        locks.ACTIVE = a
    def loop(self):
        self.ident = threading.get_ident()
        while True:
            self.sem.acquire()
            ex = self.ex
            if not ex.aborting:
                sys.settrace(ex.tracer)
                try:
                    r = ('ok', self.body())
                except Abort:
                    r = ('abort',)
                except BaseException as e:
                    r = ('exc', e)
                finally:
                    sys.settrace(None)
            else: r = ('abort',)
            ex.finished(self.key, r)
_workers = []
def workers(n):
    while len(_workers) < n: _workers.append(Worker(len(_workers)))
    return _workers[:n]
MAX_SOLO = 20000          # steps after which a thread that keeps running alone is made to let others run
MAX_STEPS = 120000        # steps of an execution: more is a livelock
class Execution:
    """One execution under a schedule: `choices` maps a point number to the thread to switch to."""
    def __init__(self, choices=()):
        self.choices = dict(choices)
        self.locks = []
        self.n = 0                   # points passed so far
        self.solo = 0
        self.trace = []              # (point number, running thread, enabled others, forced?)
        self.blocked = {}
        self.done = {}
        self.aborting = False
        self.deadlock = None
        self.ident = {}
        self.running = None
        self.main = REAL_LOCK(); self.main.acquire()
        self.libdir = env.LIBDIR
    # -- called by worker threads
    def current_key(self):
        return self.ident.get(threading.get_ident())
    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.libdir):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            pts = points_of(frame.f_code)
            point = self.point
            def local(frame, event, arg):
                if event == 'opcode' and frame.f_lasti in pts: point()
                return local
            return local
        return None
    def point(self, kind=None):
        if self.aborting: raise Abort()
        me = self.ident.get(threading.get_ident())
        if me is None: return
        self.n += 1
        if self.n > MAX_STEPS: self.stop('no thread makes progress (livelock)')
        k = self.choices.get(self.n)
        others = [t for t in self.order if t != me and t not in self.done and t not in self.blocked]
        if k is None:
            self.solo += 1
            if self.solo > MAX_SOLO and others:
                self.switch(me, others[0])
            elif others:
                self.trace.append((self.n, tuple(others), False))
        elif k in others:
            self.switch(me, k)
        elif k != me:
            raise RuntimeError('schedule does not replay')
    def pause(self):
        "Lets any other thread run (not counted as a preemption)."
        me = self.ident[threading.get_ident()]
        others = [t for t in self.order if t != me and t not in self.done and t not in self.blocked]
        if others: self.switch(me, others[0])
        if self.aborting: raise Abort()
    def switch(self, me, to):
        self.solo = 0
        self.running = to
        self.order.remove(to); self.order.append(to)      # longest-waiting first
        w = self.ws
        w[to].sem.release()
        w[me].sem.acquire()
        if self.aborting: raise Abort()
    def block(self, lock):
        "The running thread cannot continue until `lock` is released."
        if self.aborting: raise Abort()
        me = self.ident[threading.get_ident()]
        self.blocked[me] = lock
        self.next(me)
        self.ws[me].sem.acquire()
        if self.aborting: raise Abort()
    def timed(self):
        "The running thread waits for a while: True to try again, False if its time is up (any moment may be that of the time-out; counts like a preemption)."
        if self.aborting: raise Abort()
        me = self.ident[threading.get_ident()]
        others = [t for t in self.order if t != me and t not in self.done and t not in self.blocked]
        if not others: return False
        self.n += 1
        if self.n > MAX_STEPS: self.stop('no thread makes progress (livelock)')
        k = self.choices.get(self.n)
        if k is None:
            k = others[0]
            if len(others) > 1: self.trace.append((self.n, tuple(others[1:]), True))
            self.trace.append((self.n, (me,), False))
        if k == me: return False
        self.switch(me, k if k in others else others[0])
        return True
    def unblock(self, lock):
        for t in [t for (t, l) in self.blocked.items() if l is lock]: del self.blocked[t]
    def next(self, me):
        "Chooses the thread that runs when `me` cannot (a free choice, not a preemption)."
        en = [t for t in self.order if t != me and t not in self.done and t not in self.blocked]
        if not en:
            if len(self.done) < len(self.ws):
                self.deadlock = f"no thread can continue: threads {sorted(self.blocked)} wait for locks for ever"
            self.main.release()
            return
        self.n += 1
        k = self.choices.get(self.n)
        if k is None:
            k = en[0]
            if len(en) > 1: self.trace.append((self.n, tuple(en[1:]), True))
        elif k not in en: k = en[0]
        self.solo = 0
        self.running = k
        self.order.remove(k); self.order.append(k)
        self.ws[k].sem.release()
    def stop(self, why):
        self.deadlock = why
        self.aborting = True
        raise Abort()
    def finished(self, key, r):
        self.done[key] = r
        self.blocked.pop(key, None)
        if self.aborting:
            # unwind the others one by one
            self.abort_next()
        else:
            self.next(key)
    def abort_next(self):
        rest = [t for t in range(len(self.ws)) if t not in self.done]
        if rest: self.ws[rest[0]].sem.release()
        else: self.main.release()
    # -- called by the main thread
    def run(self, bodies):
        self.ws = workers(len(bodies))
        for (w, b) in zip(self.ws, bodies):
            w.body, w.ex = b, self
            while not hasattr(w, 'ident'): pass
            self.ident[w.ident] = w.key
        self.order = list(range(len(bodies)))
        self.running = 0
        # the first thread to run is a free choice too
        self.n = 1
        k = self.choices.get(1)
        if k is None:
            k = 0
            if len(bodies) > 1: self.trace.append((1, tuple(range(1, len(bodies))), True))
        self.order.remove(k); self.order.append(k)
        self.ws[k].sem.release()
        self.main.acquire()
        if self.deadlock and not self.aborting:
            # blocked for ever: the threads are left behind (unwinding a traced thread from outside is unsafe)
            _workers.clear()
            return None
        if len(self.done) < len(bodies):       # stopped: unwind
            self.aborting = True
            self.abort_next()
            self.main.acquire()
        return [self.done[i] for i in range(len(bodies))]
def execute(scenario, choices):
    """Runs one schedule. scenario() -> (bodies, check); check(results) -> None or what is wrong."""
    ex = Execution(choices)
    locks.ACTIVE = ex
    core.tick()
    try:
        (bodies, check) = scenario(ex)
        rs = ex.run(bodies)
        if ex.deadlock: return ex, ex.deadlock
        for r in rs:
            if r[0] == 'exc' and isinstance(r[1], core.Hang): return ex, 'an operation did not return'
        return ex, check(rs)
    finally:
        locks.ACTIVE = None
def explore(rep, name, scenario, bound, script, limit=None, part=(0, 1)):
    """All schedules with at most `bound` preemptions; `part` = (i, k): the i-th of k shares of them."""
    (pi, pk) = part
    rep.MAXV = 1
    stack = [((), 0)]
    runs = steps = share = 0
    while stack:
        (choices, last) = stack.pop()
        used = sum(1 for (_, _, f) in choices if not f)
        (ex, err) = execute(scenario, [(n, t) for (n, t, _) in choices])
        # the executions without preemptions are made by every share, the others divided among them
        if used or pi == 0:
            runs += 1
            steps += ex.n
        if err:
            c = [(n, t) for (n, t, _) in choices]
            rep.violation(f"{name}: {err} (schedule: switch to thread t at point n for (n, t) in {c})", script(c))
            if ex.deadlock:
                rep.capped = True
                break
        for (n, ts, free) in ex.trace:
            if n <= last or not free and used >= bound: continue
            for t in ts:
                if not free and not used:
                    share += 1
                    if share % pk != pi: continue
                stack.append((choices + ((n, t, free),), n))
        if limit and runs >= limit:
            rep.capped = True
            break
    rep.evals += runs
    rep.distinct.add((name, runs))
    rep.extra['states'] += steps; rep.extra['transitions'] += steps; rep.extra['leaves'] += runs; rep.extra['schedules'] += runs
    rep.extra['preemption_bound_%d_schedules' % bound] += runs
    rep.samples.append(f"{name}: {runs} schedules with <= {bound} preemptions, e.g. {[(n, t) for (n, t, _) in choices]}")
