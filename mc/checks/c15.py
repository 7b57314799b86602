"""C15: a lazy value is computed at most once and failures are not cached."""
import itertools
from .. import core, syms
from ..core import FuncJob, Stop
from pcollections import lazy, llist, ldict, tllist, tldict, plist, pdict, holdlazy
from pcollections._lazy import LazyError, unlazy
import copy
from functools import partial
BOUNDS = {
    'quick': "two lazy objects whose functions do, at their first and second call (and nested calls inside them), any of 14 things (return an object / a falsy object, raise one of several kinds of exception before or after requesting, request themselves or the other object and "
             "propagate or swallow its error): all 196 x 196 programs, under all sequences of <= 3 requests (either object, directly, through shared llists and ldicts, by hashing and iterating these); every call, its arguments, its order, the readiness seen inside it, every result and readiness are compared "
             "to a reference interpreter; plus chains of three objects with 6 actions each",
    'thorough': "as quick with sequences of <= 4 requests and three objects with 9 actions each",
}
ASSUMPTIONS = ["functions of lazy values are deterministic given the number of calls made to them so far"]
RULE = "one evaluation is one program run under one sequence of requests; all differ"
class Boom(Exception): pass
class Base(BaseException): pass
class World:
    "Runs the same program against a lazy implementation: mk(world, i) gives the object i, req(i) requests it."
    def __init__(self, prog):
        self.prog, self.log, self.calls = prog, [], [0] * len(prog)
        self.most = 40 + max(map(len, prog))
        self.results = {}
    def fn(self, i, *args, **kw):
        if self.depth_guard(): raise self.will(Boom('too deep'))
        k = self.calls[i]
        self.calls[i] += 1
        acts = self.prog[i]
        a = acts[k] if k < len(acts) else 'ret'
        self.log.append(('call', i, k, a, tuple(self.ready(j) for j in range(len(self.prog)))))
        if not self.args_ok(i, args, kw): self.log.append(('bad arguments', args, kw))
        try:
            if a == 'raise': raise self.will(Boom())
            if a == 'key': raise self.will(KeyError(1))
            if a == 'stop': raise self.will(StopIteration())
            if a == 'attr': raise self.will(AttributeError('x'))
            if a == 'base': raise Base()
            (b, _, rest) = a.partition(':')
            if b in ('req', 'catch', 'reqraise'):
                j = {'self': i, 'next': (i + 1) % len(self.prog)}[rest]
                try:
                    v = self.request(j)
                    self.log.append(('got', i, j, self.name(v)))
                except Exception as e:
                    self.log.append(('err', i, j, core.family(e)))
                    if b != 'catch': raise
                if b == 'reqraise': raise self.will(Boom())
            v = {'none': None, 'zero': 0}.get(a, ...)
            if v is ...: v = ('value', i, k)
            # the same object for the library and the model
            v = VAL.setdefault((i, k, a in ('none', 'zero')), v) if v is not None and v != 0 else v
            return v
        finally:
            self.log.append(('end', i, k))
    raised, last = (), None
    def will(self, e):
        self.raised = (*self.raised, e)
        return e
    def depth_guard(self): return sum(self.calls) > self.most
    def name(self, v): return v
VAL = {}
AX, AK = object(), object()
class Impl(World):
    def __init__(self, prog):
        World.__init__(self, prog)
        self.l = [lazy(self.fn, i, AX, k=AK) for i in range(len(prog))]
        n = len(prog)
        self.ll = llist(self.l); self.tl = self.ll.transient()
        self.ld = ldict([(j, self.l[j]) for j in range(n)]); self.td = self.ld.transient()
    def args_ok(self, i, args, kw): return len(args) == 1 and args[0] is AX and list(kw) == ['k'] and kw['k'] is AK
    def ready(self, j): return self.l[j].is_ready()
    def request(self, j): return self.l[j]()
    def do(self, op):
        (how, j) = op
        if how == 'call': return self.l[j]()
        if how == 'unlazy': return unlazy(self.l[j])
        if how == 'llist': return self.ll[j]
        if how == 'tllist': return self.tl[j]
        if how == 'ldict': return self.ld[j]
        if how == 'get': return self.ld.get(j)
        if how == 'tldict': return self.td[j]
        if how == 'iter': return list(self.ll)
        if how == 'values': return list(self.ld.values())
        if how == 'hash': hash(self.ll); return None
        if how == 'ready_all': self.ll.ready_all(); return None
class Model(World):
    def __init__(self, prog):
        World.__init__(self, prog)
        self.val = [None] * len(prog)
        self.hashed = False
    def args_ok(self, i, args, kw): return True
    def ready(self, j): return self.val[j] is not None
    def request(self, j):
        if self.val[j] is not None: return self.val[j][0]
        try: v = self.fn(j)
        except Exception: raise LazyError((None, (), {}))
        if self.val[j] is None: self.val[j] = (v,)
        return self.val[j][0]
    def do(self, op):
        (how, j) = op
        if how in ('iter', 'values'): return [self.request(i) for i in range(len(self.prog))]
        if how in ('hash', 'ready_all'):
            for i in range(len(self.prog)): self.request(i)
            return None
        return self.request(j)
def run1(w, op):
    try: r = ('ok', w.do(op))
    except LazyError as e:
        r = ('LazyError',)
        w.last = e
    except Base: r = ('Base',)
    except core.Hang: r = ('HANG',)
    except Exception as e: r = ('exc', core.family(e))
    return r
def shows(e, raised):
    "Is one of these exceptions printed with e?"
    seen = []
    while e is not None and not any(e is x for x in seen):
        if any(e is x for x in raised): return True
        seen.append(e)
        e = e.__cause__ if e.__cause__ is not None or e.__suppress_context__ else e.__context__
    return False
def case(prog, seq):
    """None, or what differs from the reference interpreter."""
    (a, b) = (Impl(prog), Model(prog))
    n = len(prog)
    for (s, op) in enumerate(seq):
        core.tick()
        a.raised = ()
        (ra, rb) = (run1(a, op), run1(b, op))
        if ra != rb or ra[0] == 'ok' and not eqid(ra[1], rb[1]): return f"request {op}: {ra}; specified: {rb}"
        if ra[0] == 'LazyError' and not shows(a.last, a.raised): return f"request {op}: the traceback of the LazyError does not show the exception of the function"
        if a.log != b.log:
            d = next((i for (i, (x, y)) in enumerate(itertools.zip_longest(a.log, b.log)) if x != y))
            return f"request {op}: computations {a.log[d:d+2]}; specified: {b.log[d:d+2]}"
        for j in range(n):
            if a.ready(j) is not b.ready(j): return f"after request {op}: is_ready() of object {j} is {a.ready(j)}; specified: {b.ready(j)}"
            if a.ll.is_ready(j) is not b.ready(j) or a.ld.is_ready(j) is not b.ready(j) or a.td.is_ready(j) is not b.ready(j): return f"after request {op}: is_ready({j}) of a collection; specified: {b.ready(j)}"
    return None
def eqid(x, y):
    if type(x) is list: return len(x) == len(y) and all(map(eqid, x, y))
    return x is y
ACTS = ('ret', 'none', 'zero', 'raise', 'key', 'stop', 'attr', 'base', 'req:self', 'req:next', 'catch:self', 'catch:next', 'reqraise:self', 'reqraise:next')
ACTS3 = ('ret', 'raise', 'req:self', 'req:next', 'catch:next', 'reqraise:next')
OPS = [('call', 0), ('call', 1), ('llist', 0), ('get', 1), ('values', 0), ('hash', 0)]
OPS1 = [('unlazy', 0), ('tllist', 1), ('ldict', 0), ('tldict', 1), ('iter', 0), ('ready_all', 0)]
def script(prog, seq):
    return f"from mc import core\nfrom mc.checks import c15\ncore.start_guard()\ne = c15.case({prog!r}, {seq!r})\nprint('REPRODUCED: ' + e if e else 'not reproduced')\nsys.exit(1 if e else 0)\n"
def explore(rep, progs, seqs):
    for prog in progs:
        for seq in seqs:
            e = case(prog, seq)
            rep.evals += 1
            rep.extra['states'] += len(seq); rep.extra['transitions'] += len(seq); rep.extra['leaves'] += 1
            if e: rep.violation(e, script(prog, seq))
        rep.distinct.add(prog)
    rep.samples.append(str((prog, seq)))
def misc(rep):
    for bad in (5, None, 'x', [], llist()):
        rep.case(key=repr(bad))
        try:
            lazy(bad)
            rep.violation(f"lazy({bad!r}) accepted", f"from pcollections import lazy\nlazy({bad!r})\nsys.exit(1)\n")
        except TypeError: pass
    for k in range(4):
        for kw in ((), ('a',), ('a', 'b'), ('fn2', 'value', 'partial'), ('fn', 'cls', 'self'), ('func', 'args', 'kw')):
            rep.case(key=repr((k, kw)))
            args = [object() for _ in range(k)]; kws = {x: object() for x in kw}
            got = []
            try:
                l = lazy(lambda *a, **q: got.append((a, q)), *args, **kws)
                l(); l()
            except Exception as e: got.append(repr(e))
            if not (len(got) == 1 and len(got[0][0]) == k and all(x is y for (x, y) in zip(got[0][0], args)) and got[0][1].keys() == kws.keys() and all(got[0][1][x] is kws[x] for x in kws)):
                rep.violation(f"the function was called as {got}, with {k} arguments and keywords {kw} given", f"from mc import core\nfrom mc.checks import c15\nr = core.Report('x')\ntry: c15.misc(r)\nexcept core.Stop: pass\nsys.exit(1 if r.violations else 0)\n")
def boom(*a, **k): raise ValueError('boom')
class BoomObj:
    def __call__(self, *a, **k): raise ValueError('boom')
    def method(self, *a, **k): raise ValueError('boom')
    @classmethod
    def cmethod(cls, *a, **k): raise ValueError('boom')
class BoomNew:
    def __init__(self, *a, **k): raise ValueError('boom')
class Arg:
    def __init__(self, i): self.i = i
    def __repr__(self): return f'<argument {self.i}>'
FUNCS = {'def': boom, 'lambda': lambda *a, **k: 1 // 0, 'class': BoomNew, 'method': BoomObj().method, 'classmethod': BoomObj.cmethod, 'builtin': len, 'builtin class': complex, 'object': BoomObj(), 'partial': partial(boom, 1), 'partial object': partial(BoomObj(), q=1)}
def text(f, na, nk, direct):
    "What the error of a failed lazy value says of the call; None if right."
    fn = FUNCS[f]
    args = tuple(Arg(i) for i in range(na)); kw = {f'k{i}': Arg(10 + i) for i in range(nk)}
    if direct: e = LazyError(partial(fn, *args, **kw) if direct == 1 else (fn, args, kw))
    else:
        if f in ('builtin', 'builtin class'): args += (None, None)
        l = lazy(fn, *args, **kw)
        try: l()
        except LazyError as x: e = x
        except BaseException as x: return f"a failing {f} raised {type(x).__name__}"
        else: return f"a failing {f} returned"
        if not isinstance(e, RuntimeError): return "a LazyError is not a RuntimeError"
        if l.is_ready(): return "ready after a failure"
    for show in (str, repr):
        try: s = show(e)
        except Exception as x: return f"{show.__name__} of the error of a {f} raised {type(x).__name__}: {x}"
        # the innermost function of nested partials is what a partial of a partial holds
        base = fn.func if direct == 1 and isinstance(fn, partial) else fn
        name = getattr(base, '__name__', None)
        if name is not None and name not in s: return f"{show.__name__} of the error of a {f} does not name {name}: {s}"
        for a in args:
            if repr(a) not in s: return f"{show.__name__} of the error of a {f} does not show {a}: {s}"
        for (k, a) in kw.items():
            if k not in s or repr(a) not in s: return f"{show.__name__} of the error of a {f} does not show {k}={a}: {s}"
    return None
def texts(rep):
    for f in FUNCS:
        for na in range(4):
            for nk in range(4):
                for direct in (0, 1, 2):
                    rep.case(key=repr((f, na, nk, direct)))
                    e = text(f, na, nk, direct)
                    if e: rep.violation(e, f"from mc.checks import c15\ne = c15.text({f!r}, {na}, {nk}, {direct})\nprint(e)\nsys.exit(1 if e else 0)\n")
HOWS = [('call', 0), ('unlazy', 0), ('llist', 0), ('tllist', 0), ('ldict', 0), ('get', 0), ('tldict', 0), ('iter', 0), ('values', 0), ('hash', 0), ('ready_all', 0)]
def long_case(acts, j, after):
    """The function of an object does each of acts in turn (then returns), all requests made in the way HOWS[j] (or, if j
    is None, in all ways in turn)."""
    n = len(acts) + after
    return case((tuple(acts),), [HOWS[i % len(HOWS)] if j is None else HOWS[j] for i in range(n)])
def longs(rep, specs):
    for (base, n, j, after) in specs:
        e = long_case(base * n, j, after)
        rep.case(key=repr((base, n, j, after)))
        rep.extra['states'] += n; rep.extra['transitions'] += n; rep.extra['leaves'] += 1
        if e: rep.violation(f"after {n} failing rounds {base}: {e}", f"from mc import core\nfrom mc.checks import c15\ncore.start_guard()\ne = c15.long_case({base!r} * {n}, {j!r}, {after})\nprint('REPRODUCED: ' + e if e else 'not reproduced')\nsys.exit(1 if e else 0)\n")
def jobs(tier):
    th = tier != 'quick'
    js = [FuncJob('arguments', misc), FuncJob('error texts', texts)]
    fails = ('raise', 'key', 'stop', 'attr', 'base')
    specs = [(b, n, j, 3) for b in [(f,) for f in fails] + [(f, g) for f in fails for g in fails if f < g]
             for n in ((*range(1, 13), 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 70, 100, 130, 260) if len(b) == 1 else (5, 9, 35)) for j in (*range(len(HOWS)), None)]
    specs += [(('ret',), 1, j, m) for j in (*range(len(HOWS)), None) for m in (70, 130, 300, 1100)]
    js += [FuncJob(f'long/{i}', longs, specs[i::8]) for i in range(8)]
    acts = list(itertools.product(ACTS, ACTS))
    d = 4 if th else 3
    ops = OPS[:2]
    seqs = [s for s in itertools.product(ops, repeat=d)]
    if not th: seqs = [s for s in seqs]
    progs = list(itertools.product(acts, acts))
    n = 32
    for i in range(n): js.append(FuncJob(f'two/{i}', explore, progs[i::n], seqs))
    # through collections
    acts = [(a, b) for a in ACTS for b in ('ret', 'raise', 'req:next', 'none')]
    progs = list(itertools.product(acts, acts))
    seqs = [s for s in itertools.product(OPS + OPS1, repeat=3 if th else 2)]
    for i in range(n): js.append(FuncJob(f'collections/{i}', explore, progs[i::n] if th else progs[i::n], seqs if th else seqs))
    acts = list(itertools.product(ACTS3 if not th else ACTS3 + ('catch:self', 'none', 'base'), ('ret', 'raise', 'req:next', 'catch:next')))
    progs = list(itertools.product(acts, repeat=3))
    seqs = list(itertools.product([('call', 0), ('call', 1), ('call', 2)], repeat=2))
    for i in range(n): js.append(FuncJob(f'three/{i}', explore, progs[i::n], seqs))
    return js
