"""Explicit-state exploration of the real library against a reference model, statement by statement.

A transition is a pair of Python statements: one executed against the library, one against the
reference model (mc/model.py).  After every transition the outcomes (normal or the family of the
exception) and all variables are compared; in every new state all probes (pairs of expressions) are
compared too.  States are identified by a fingerprint of everything reachable from the variables,
hidden fields included, so two histories are merged only when no future operation can tell them apart.
"""
import os, sys, types, copy, time, functools, hashlib, resource, signal, mmap, struct, pickle, gc, traceback
from collections import Counter
from . import env, syms, model
from phamt import PHAMT, THAMT
import pcollections as pc
import pcollections.abc as pabc
from pcollections._lazy import LazyError
from collections.abc import Mapping, Set, Sequence

# ---------------------------------------------------------------------------------------------------
# hang guard
class Hang(BaseException):
    "An operation used several seconds of CPU time without returning."
TICK = [0]            # progress counter, advanced by the engine at every comparison
_last = [None, 0]
_beat = [None]
def tick():
    TICK[0] += 1
def _alarm(sig, frm):
    if _beat[0] is not None:
        mm, off = _beat[0]
        mm[off:off+8] = struct.pack('q', TICK[0] * 1000 + (_last[1] % 1000))
    if _last[0] == TICK[0]:
        _last[1] += 1
        if _last[1] >= HANG_TICKS:
            _last[1] = 0
            raise Hang()
    else:
        _last[0] = TICK[0]
        _last[1] = 0
HANG_TICKS = 8
def start_guard():
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 1.0, 1.0)
def stop_guard():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)

# ---------------------------------------------------------------------------------------------------
# outcomes
def family(e):
    if isinstance(e, model.BadChoice): return 'BadChoice'
    if isinstance(e, LazyError): return 'LazyError'
    for c in (IndexError, KeyError, TypeError, ValueError, StopIteration, RecursionError, RuntimeError):
        if isinstance(e, c): return c.__name__
    return type(e).__name__
def outcome(fn, *a):
    """('ok', value) or ('exc', family, exception)"""
    tick()
    try:
        return ('ok', fn(*a))
    except Hang:
        return ('exc', 'HANG', None)
    except Exception as e:
        return ('exc', family(e), e)

SEQ = (list, pc.plist, pc.tlist)
MAP = (dict, pc.pdict, pc.tdict)
SETS = (set, frozenset, pc.pset, pc.tset)
def same(a, b):
    """Is the library's answer `a` the model's answer `b`?  Elements are compared by identity."""
    if a is b: return True
    tb = type(b)
    if hasattr(b, '__same__'): return b.__same__(a)
    if tb is list:
        if not isinstance(a, SEQ) and not isinstance(a, Sequence) or isinstance(a, (tuple, str)): return False
        la = list(a)
        return len(la) == len(b) and len(a) == len(b) and all(same(x, y) for (x, y) in zip(la, b))
    if tb is tuple:
        return type(a) is tuple and len(a) == len(b) and all(same(x, y) for (x, y) in zip(a, b))
    if tb is dict:
        if not isinstance(a, MAP) and not isinstance(a, Mapping): return False
        la = list(a.items())
        if len(la) != len(b) or len(a) != len(b): return False
        for (x, (k, v)) in zip(la, b.items()):
            if not (same(x[0], k) and same(x[1], v)): return False
        return True
    if tb is model.MSet:
        if not isinstance(a, SETS) and not isinstance(a, Set): return False
        la = list(a)
        return len(la) == len(b) and len(a) == len(b) and all(same(x, y) for (x, y) in zip(la, b))
    if tb is set or tb is frozenset:
        if not isinstance(a, SETS) and not isinstance(a, Set): return False
        la = list(a)
        if len(la) != len(b) or len(a) != len(b): return False
        lb = list(b)
        for x in la:
            for (i, y) in enumerate(lb):
                if same(x, y):
                    del lb[i]
                    break
            else:
                return False
        return True
    if tb in (int, float, bool, str, bytes):
        return type(a) is tb and (a == b)
    return False
def show(x, depth=3):
    try:
        if isinstance(x, SEQ + MAP + SETS):
            n = type(x).__name__
            if isinstance(x, MAP): return f"{n}({[(show(k), show(v)) for (k, v) in x.items()]})"
            return f"{n}({list(map(show, x))})"
        return repr(x)
    except BaseException as e:
        return f"<{type(x).__name__}: unprintable ({type(e).__name__})>"

# ---------------------------------------------------------------------------------------------------
# fingerprints
_slots = {}
def slots_of(t):
    s = _slots.get(t)
    if s is None:
        s = []
        for c in t.__mro__:
            x = c.__dict__.get('__slots__', ())
            if isinstance(x, str): x = (x,)
            for n in x:
                if n.startswith('__') and not n.endswith('__'): n = '_%s%s' % (c.__name__.lstrip('_'), n)
                if n not in ('__dict__', '__weakref__') and n not in s: s.append(n)
        s = _slots[t] = tuple(s)
    return s
ATOMS = (int, bool, float, str, bytes, type(None), type(Ellipsis), complex)
NAMES = {}            # id -> name of harness objects (kept alive by the harness)
def register(obj, name):
    NAMES[id(obj)] = (name, obj)
    return obj
class FP:
    """Collects a canonical description of an object graph (names instead of addresses)."""
    def __init__(self):
        self.memo, self.out, self.keep = {}, [], []
    def add(self, x):
        out = self.out
        t = type(x)
        if t in ATOMS:
            out.append(repr(x)); return
        if isinstance(x, syms.Sym):
            out.append(x.name); return
        i = id(x)
        nm = NAMES.get(i)
        if nm is not None:
            out.append('!' + nm[0])
            if t is pc.lazy: out.append('R' if x.is_ready() else 'W')
            return
        if t is tuple:
            out.append('(')
            for y in x: self.add(y)
            out.append(')'); return
        if i in self.memo:
            out.append('@%d' % self.memo[i]); return
        self.memo[i] = len(self.memo)
        self.keep.append(x)
        if t is list:
            out.append('[')
            for y in x: self.add(y)
            out.append(']')
        elif t is dict:
            out.append('{')
            for (k, v) in x.items():
                self.add(k); self.add(v)
            out.append('}')
        elif t is model.MSet:
            out.append('<')
            for y in x.d: self.add(y)
            out.append('>')
        elif t is PHAMT or t is THAMT:
            out.append(t.__name__ + '{')
            for (k, v) in x:
                out.append(repr(k)); self.add(v)
            out.append('}')
        elif t is set or t is frozenset:
            out.append('set{')
            for r in sorted(fpr(y) for y in x): out.append(r)
            out.append('}')
        elif t is functools.partial:
            out.append('partial<'); self.add(x.func); self.add(x.args); self.add(x.keywords); out.append('>')
        elif isinstance(x, type) or isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
            out.append('$' + getattr(x, '__qualname__', x.__name__))
        elif t.__module__.startswith('pcollections') or t.__module__.startswith('mc.') or slots_of(t) or hasattr(x, '__dict__'):
            out.append(t.__name__ + '<')
            for n in slots_of(t):
                try:
                    v = object.__getattribute__(x, n)
                except AttributeError:
                    continue
                out.append(n + '='); self.add(v)
            d = getattr(x, '__dict__', None)
            if d:
                for (k, v) in sorted(d.items()):
                    out.append(k + '='); self.add(v)
            if isinstance(x, (BaseException,)):
                self.add(x.args)
            out.append('>')
        else:
            out.append('?' + t.__name__)      # opaque (locks, iterators): identified by first encounter
def fpr(x):
    f = FP(); f.add(x); return ' '.join(f.out)
def fingerprint(ns_i, ns_m):
    f = FP()
    for k in sorted(ns_i):
        if k[0] != '_' and k != 'r':
            f.out.append(k + ':'); f.add(ns_i[k])
    g = FP()
    for k in sorted(ns_m):
        if k[0] != '_' and k != 'r':
            g.out.append(k + ':'); g.add(ns_m[k])
    return hashlib.blake2b((' '.join(f.out) + '||' + ' '.join(g.out)).encode(), digest_size=16).digest()
def idnorm(x):
    """Content of a persistent collection as object identities (the objects are kept alive elsewhere)."""
    if isinstance(x, pc.pdict): return ('m', tuple((id(k), id(v)) for (k, v) in pc.holdlazy(x).items()))
    if isinstance(x, pc.plist): return ('s', tuple(map(id, pc.holdlazy(x))))
    if isinstance(x, pc.pset): return ('e', tuple(map(id, x)))
    if isinstance(x, pabc.PersistentMapping): return ('m', tuple((id(k), id(v)) for (k, v) in x.items()))
    if isinstance(x, pabc.Persistent): return ('s', tuple(map(id, x)))
    return id(x)

# ---------------------------------------------------------------------------------------------------
# statements
_code = {}
def run_stmt(src, glob, loc):
    c = _code.get(src)
    if c is None: c = _code[src] = compile(src, '<op>', 'exec')
    exec(c, glob, loc)
def run_expr(src, glob, loc):
    c = _code.get(('e', src))
    if c is None: c = _code['e', src] = compile(src, '<probe>', 'eval')
    return eval(c, glob, loc)
def gen(it):
    for x in it: yield x
class Seq2:
    "An old-style iterable: only __getitem__ and __len__."
    def __init__(self, it): self.l = list(it)
    def __getitem__(self, i): return self.l[i]
    def __len__(self): return len(self.l)
def negkey(x): return {'a': 3, 'b': 2, 'c': 1, 'd': 0}.get(getattr(x, 'eqc', None), 9)
COMMON = dict(syms.CONSTS, gen=gen, Seq2=Seq2, negkey=negkey, ok=lambda *a: None)
def impl_globals(extra=None):
    import pcollections.abc as pabc, pcollections.util as putil
    g = dict(COMMON)
    for n in pc.__all__: g[n] = getattr(pc, n)
    g.update(setcmp=putil.setcmp, seqcmp=putil.seqcmp, seqstr=putil.seqstr, copy=copy, pickle=pickle, LazyError=LazyError)
    if extra: g.update(extra)
    return g
def model_globals(extra=None):
    g = dict(COMMON)
    g.update(model.CONSTS); g['copy'] = copy
    if extra: g.update(extra)
    return g
def mcopy(v):
    t = type(v)
    if t is list: return list(v)
    if t is dict: return dict(v)
    if t is model.MSet: return v.copy()
    if t is set: return set(v)
    return v
def from_library(e):
    "Was the exception raised by (or under) the library's code?"
    t = e.__traceback__
    while t is not None:
        if '/pcollections/' in t.tb_frame.f_code.co_filename: return True
        t = t.tb_next
    return False
class Space:
    """A bounded space of histories.

    seeds: list of lists of (impl, model) statements;  ops: list of pairs;  probes: list of pairs of
    expressions;  mutable: rebuild states by replaying histories instead of copying the variables
    (needed when the variables are transients);  within: model-side expression, states where it is
    false are checked but not expanded;  snaps: library-side expressions that must keep their value
    in every state for as long as the state is kept (persistent spaces)."""
    def __init__(self, name, seeds, ops, probes=(), depth=4, mutable=False, within=None, dedup=True,
                 snaps=(), gi=None, gm=None, setup='', fresh=None, probe_all=False, limit=4000000, tags=''):
        self.__dict__.update(name=name, seeds=seeds, ops=list(ops), probes=list(probes), depth=depth,
            mutable=mutable, within=within, dedup=dedup, snaps=list(snaps), gi=gi, gm=gm, setup=setup,
            fresh=fresh, probe_all=probe_all, limit=limit, tags=tags)
class Mismatch(Exception):
    def __init__(self, what): self.what = what
class Node:
    __slots__ = ('ni', 'nm', 'parent', 'op', 'depth', 'snap', 'leaf')
class SpaceJob:
    def __init__(self, space, seed, first=None):
        self.space, self.seed, self.first = space, seed, first
        self.label = f"{space.name}/seed{seed}" + (f"/ops{first[0]}-{first[1]}" if first else "")
    # -- primitives
    def globals(self):
        s = self.space
        ei = s.gi() if callable(s.gi) else s.gi
        em = s.gm() if callable(s.gm) else s.gm
        self.GI, self.GM = impl_globals(ei), model_globals(em)
    def step(self, ni, nm, op):
        """Executes one transition in both worlds and compares. Raises Mismatch."""
        (impl, mod) = op
        ni.pop('r', None); nm.pop('r', None)
        oi = outcome(run_stmt, impl, self.GI, ni)
        nm['_r'] = ni.get('r')
        try:
            run_stmt(mod, self.GM, nm)
            om = ('ok', None)
        except Exception as e:
            om = ('exc', family(e), e)
        if om[0] == 'exc' and om[1] in ('BadChoice', 'AssertionError', 'NameError', 'AttributeError', 'SyntaxError') \
                and not (oi[0] == 'exc'):
            raise Mismatch(f"{impl}: {om[2]}")
        if oi[0] != om[0] or (oi[0] == 'exc' and oi[1] != om[1]):
            x = f"raised {oi[1]}: {oi[2]}" if oi[0] == 'exc' else "returned " + show(ni.get('r', 'normally'))
            y = f"{om[1]}: {om[2]}" if om[0] == 'exc' else "returning " + show(nm.get('r', 'normally'))
            raise Mismatch(f"{impl}: {x}; specified: {y}")
        self.compare(ni, nm, impl)
        return oi[0] if oi[0] == 'ok' else oi[1]
    def compare(self, ni, nm, at):
        for (k, m) in nm.items():
            if k[0] == '_': continue
            if k not in ni: raise Mismatch(f"{at}: harness variable {k} missing")
            o = outcome(same, ni[k], m)
            if o[0] == 'exc': raise Mismatch(f"{at}: reading {k} raised {o[1]}: {o[2]}")
            if not o[1]:
                raise Mismatch(f"{at}: {k} is {show(ni[k])}; specified: {show(m)}")
    def probe(self, ni, nm):
        for (pi, pm) in self.space.probes:
            self.nprobes += 1
            oi = outcome(run_expr, pi, self.GI, ni)
            try: om = ('ok', run_expr(pm, self.GM, nm))
            except Exception as e: om = ('exc', family(e), e)
            if oi[0] != om[0] or (oi[0] == 'exc' and oi[1] != om[1]):
                x = f"raised {oi[1]}: {oi[2]}" if oi[0] == 'exc' else "is " + show(oi[1])
                y = f"{om[1]}: {om[2]}" if om[0] == 'exc' else show(om[1])
                raise Mismatch(f"{pi} {x}; specified: {y}")
            if oi[0] == 'ok':
                o = outcome(same, oi[1], om[1])
                if o[0] == 'exc': raise Mismatch(f"{pi}: reading the answer raised {o[1]}: {o[2]}")
                if not o[1]:
                    (x, y) = (oi[1], om[1])
                    if type(x) is list and type(y) is list and len(x) == len(y):
                        (x, y) = next((u, v) for (u, v) in zip(x, y) if not same(u, v))
                    raise Mismatch(f"{pi} is {show(x)}; specified: {show(y)}")
    def snapshot(self, n):
        out = []
        for k in sorted(n.ni):
            if k[0] != '_' and k != 'r' and isinstance(n.ni[k], pabc.Persistent):
                out.append((k, idnorm(n.ni[k])))
        for e in self.space.snaps:
            o = outcome(run_expr, e, self.GI, n.ni)
            out.append((e, o[1]))
        return out
    def verify(self, n, when):
        s = outcome(self.snapshot, n)
        if s[0] == 'exc': raise Mismatch(f"{when}: reading an existing collection raised {s[1]}: {s[2]}")
        if s[1] != n.snap:
            d = [a for (a, b) in zip(s[1], n.snap) if a != b]
            names = [x[0] for x in d]
            raise Mismatch(f"{when}: an existing persistent collection changed: {names}: now "
                           + ', '.join(show(n.ni[k]) if k in n.ni else str([x[1] for x in d if x[0] == k][0])[:100] for k in names))
    def path(self, n):
        p = []
        while n.parent is not None:
            p.append(n.op); n = n.parent
        return p[::-1]
    def build(self, path):
        """A fresh state after the seed and the given operations (no comparisons)."""
        if self.space.fresh: self.space.fresh()
        ni, nm = {}, {}
        for op in list(self.space.seeds[self.seed]) + list(path):
            self.replay_step(ni, nm, op)
        return ni, nm
    def replay_step(self, ni, nm, op):
        ni.pop('r', None); nm.pop('r', None)
        try: run_stmt(op[0], self.GI, ni)
        except Exception: pass
        nm['_r'] = ni.get('r')
        try: run_stmt(op[1], self.GM, nm)
        except Exception: pass
    # -- exploration
    def run(self):
        s = self.space
        self.globals()
        self.nprobes = 0
        self.res = dict(label=self.label, states=0, transitions=0, probes=0, leaves=0, maxdepth=0, capped=False,
                        violations=[], outcomes=Counter(), samples=[])
        R = self.res
        self.pending = []
        try:
            self.explore()
        except Mismatch as m:
            R['violations'].append(self.violation(m.what, self.pending))
        except Exception as e:
            if not from_library(e): raise
            R['violations'].append(self.violation(f"unexpected {type(e).__name__}: {e}", self.pending))
        R['probes'] = self.nprobes
        return R
    def violation(self, what, path):
        return dict(space=self.space.name, seed=self.seed, path=[list(o) for o in path], what=what, job=self.label,
                    script=None, key=what.split(':')[0])
    def explore(self):
        s, R = self.space, self.res
        if s.fresh: s.fresh()
        root = Node()
        root.ni, root.nm, root.parent, root.op, root.depth, root.leaf = {}, {}, None, None, 0, True
        for op in s.seeds[self.seed]:
            self.pending = []
            self.step(root.ni, root.nm, op)
        self.probe(root.ni, root.nm)
        if not s.mutable: root.snap = self.snapshot(root)
        seen = {fingerprint(root.ni, root.nm)}
        R['states'] = 1
        frontier = [root]
        allnodes = [root]
        ops = s.ops
        for depth in range(s.depth):
            nxt = []
            for node in frontier:
                if s.within is not None and not run_expr(s.within, self.GM, node.nm): continue
                node.leaf = False
                base = self.path(node) if s.mutable or True else None
                rng = ops if (depth > 0 or self.first is None) else ops[self.first[0]:self.first[1]]
                for op in rng:
                    self.pending = base + [op]
                    if s.mutable:
                        ni, nm = self.build(base)
                    else:
                        ni = dict(node.ni)
                        nm = {k: mcopy(v) for (k, v) in node.nm.items()}
                    R['transitions'] += 1
                    oc = self.step(ni, nm, op)
                    R['outcomes'][oc] += 1
                    if not s.mutable:
                        self.verify(node, f"after {op[0]}")
                    f = fingerprint(ni, nm)
                    if s.dedup and f in seen:
                        if s.probe_all: self.probe(ni, nm)
                        continue
                    seen.add(f)
                    n = Node()
                    n.parent, n.op, n.depth, n.leaf = node, op, depth + 1, True
                    self.probe(ni, nm)
                    n.nm = nm
                    if s.mutable:
                        n.ni = None
                        # the operation's effects and the probes' (they must have none) on a fresh state
                    else:
                        n.ni = ni
                        n.snap = self.snapshot(n)
                    R['states'] += 1
                    R['maxdepth'] = depth + 1
                    nxt.append(n)
                    allnodes.append(n)
                    if R['states'] >= s.limit:
                        R['capped'] = True
                        self.finish(allnodes)
                        return
                if not s.mutable:
                    a = node.parent
                    while a is not None:
                        self.pending = self.path(node)
                        self.verify(a, "after deriving more versions")
                        a = a.parent
            frontier = nxt
            if not frontier: break
        self.finish(allnodes)
    def finish(self, nodes):
        R = self.res
        R['leaves'] = sum(1 for n in nodes if n.leaf)
        if not self.space.mutable:
            for n in nodes:
                self.pending = self.path(n)
                self.verify(n, "at the end of the exploration")
        k = len(nodes)
        for n in (nodes[k // 3], nodes[-1]):
            R['samples'].append([o[0] for o in list(self.space.seeds[self.seed]) + self.path(n)])
def split(space, chunks=1, seeds=None):
    """Jobs for a space: one per seed and per chunk of first operations."""
    jobs = []
    n = len(space.ops)
    for i in (range(len(space.seeds)) if seeds is None else seeds):
        if chunks <= 1:
            jobs.append(SpaceJob(space, i))
        else:
            c = min(chunks, n)
            b = [round(j * n / c) for j in range(c + 1)]
            for j in range(c):
                if b[j] < b[j + 1]: jobs.append(SpaceJob(space, i, (b[j], b[j + 1])))
    return jobs
class FuncJob:
    """A job that is a plain enumeration: fn(report, *args); see Report."""
    def __init__(self, label, fn, *args):
        self.label, self.fn, self.args = label, fn, args
    def run(self):
        r = Report(self.label)
        try:
            self.fn(r, *self.args)
        except Hang:
            try: r.violation("an operation did not return (several seconds of CPU time)", r.current)
            except Stop: pass
        except Stop:
            pass
        except Exception as e:
            if not from_library(e): raise
            try: r.violation(f"unexpected {type(e).__name__}: {e}", r.current)
            except Stop: pass
        return r.result()
class Stop(Exception): pass
class Report:
    """Collects what an enumeration covered."""
    MAXV = 3
    def __init__(self, label):
        self.label, self.evals, self.distinct = label, 0, set()
        self.violations, self.samples, self.outcomes, self.extra = [], [], Counter(), Counter()
        self.current = None
        self.capped = False
    def case(self, key=None, outcome=None, sample=None):
        tick()
        self.evals += 1
        if key is not None: self.distinct.add(key)
        if outcome is not None: self.outcomes[outcome] += 1
        if sample is not None and len(self.samples) < 4: self.samples.append(sample)
    def violation(self, what, script, key=None):
        self.violations.append(dict(space=self.label, seed=0, path=[], what=what, job=self.label, script=script,
                                    key=key or what.split(':')[0]))
        if len(self.violations) >= self.MAXV: raise Stop()
    def result(self):
        return dict(label=self.label, evals=self.evals, distinct=len(self.distinct), violations=self.violations,
                    samples=self.samples, outcomes=self.outcomes, extra=self.extra, capped=self.capped,
                    states=self.extra.get('states', 0), transitions=self.extra.get('transitions', 0),
                    leaves=self.extra.get('leaves', 0), probes=0, maxdepth=self.extra.get('maxdepth', 0))

# ---------------------------------------------------------------------------------------------------
# running jobs in forked workers
MEM = 7 << 29
def run_jobs(jobs, procs=None, deadline=780.0, stall=180.0, mem=MEM, pin=False, known=(), grace=60.0):
    """Runs every job in a process of its own. Returns the results in job order."""
    procs = procs or min(8, os.cpu_count() or 1)
    first = bool(os.environ.get('MC_FIRST'))      # stop at the first violation (used by tools/mutate.py only)
    mm = mmap.mmap(-1, 8 * max(1, len(jobs)))
    t0 = time.time()
    results = [None] * len(jobs)
    running = {}                       # fd -> [pid, index, chunks, lastbeat, time, attempt]
    queue = list(range(len(jobs)))[::-1]
    attempts = Counter()
    import select
    cpus = sorted(os.sched_getaffinity(0))
    def launch(i):
        slot = min(set(range(procs)) - {w[5] for w in running.values()})
        (rd, wr) = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                if pin:                     # threads that take turns do so faster on one core
                    try: os.sched_setaffinity(0, {cpus[slot % len(cpus)]})
                    except OSError: pass
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                gc.disable()
                gc.freeze()
                gc.enable(); gc.set_threshold(100000, 50, 50)
                _beat[0] = (mm, 8 * i)
                start_guard()
                try:
                    out = jobs[i].run()
                except BaseException as e:
                    out = dict(error=traceback.format_exc())
                stop_guard()
                data = pickle.dumps(out)
                o = 0
                while o < len(data): o += os.write(wr, data[o:o + 65536])
            finally:
                os._exit(0)
        os.close(wr)
        running[rd] = [pid, i, [], None, time.time(), slot]
    while queue or running:
        while queue and len(running) < procs:
            launch(queue.pop())
        (rs, _, _) = select.select(list(running), [], [], 5.0)
        for fd in rs:
            w = running[fd]
            data = os.read(fd, 1 << 20)
            if data:
                w[2].append(data)
                continue
            os.close(fd)
            del running[fd]
            (_, status) = os.waitpid(w[0], 0)
            try:
                results[w[1]] = pickle.loads(b''.join(w[2]))
            except Exception:
                attempts[w[1]] += 1
                if attempts[w[1]] < 2: queue.append(w[1])
                else: results[w[1]] = dict(dead=f"the process running {jobs[w[1]].label} died twice (status {status})")
        now = time.time()
        for (fd, w) in list(running.items()):
            beat = mm[8 * w[1]:8 * w[1] + 8]
            if beat != w[3]:
                w[3], w[4] = beat, now
            why = None
            if now - w[4] > stall: why = dict(dead=f"{jobs[w[1]].label}: an operation never returned ({stall:.0f} s without progress)")
            elif now - t0 > deadline: why = dict(timeout=True)
            if why:
                os.kill(w[0], signal.SIGKILL)
                os.waitpid(w[0], 0)
                os.close(fd); del running[fd]
                results[w[1]] = why
        if deadline > now - t0 + grace and any(r and ('dead' in r or any(v['key'] not in known for v in r.get('violations', ()))) for r in results):
            deadline = now - t0 + grace        # decided: no need for the rest
        if first and any(r and ('dead' in r or r.get('violations')) for r in results): deadline = -1.0
        if now - t0 > deadline:
            for i in queue: results[i] = dict(timeout=True)
            queue = []
    return results
