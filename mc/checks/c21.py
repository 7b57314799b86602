"""C21: an operation that fails part-way leaves no trace in the collections involved."""
import sys
from .. import core, syms, menus, cases, env, sweep
from ..core import FuncJob, show
from ..cases import attempt
from ..sched import points_of
from .c20 import battery, nm
import pcollections as pc
from pcollections._lazy import LazyError
TECHNIQUE = 'exhaustive enumeration of fault points (every call-back of every operation; every bytecode of every operation on persistents) on the real code'
LEVEL = 'fault_enumeration'
BOUNDS = {
    'quick': "every update, conversion, comparison and read of the ten kinds, from 3-6 starts per kind (chains of equal hashes, offsets, edited transients, lazies): the operation is repeated once for every call-back into user code it makes "
             "(hash, ==, <, iterator step, sort key, lazy function), raising there an exception of each of 8 types (an Exception, a BaseException, and subclasses of KeyError, IndexError, AttributeError, TypeError, ValueError and StopIteration); and, for the persistent kinds from 2 starts, an asynchronous exception before every shared-state bytecode of the library",
    'thorough': "as quick, asynchronous exceptions from all starts",
}
ASSUMPTIONS = ["a StopIteration raised by user code may arrive as the RuntimeError Python makes of it (PEP 479)", "an asynchronous exception before a bytecode that touches only local variables is equivalent to one before the next other bytecode"]
RULE = "a case is one execution of one operation from one start with one fault position and kind; all are distinct, and non-trivial because the fault was actually raised"
class Boom(Exception): pass
class BaseBoom(BaseException): pass
class BoomKey(KeyError): pass
class BoomIndex(IndexError): pass
class BoomAttr(AttributeError): pass
class BoomType(TypeError): pass
class BoomValue(ValueError): pass
class BoomStop(StopIteration): pass
BOOMS = dict(BoomStop=BoomStop, Boom=Boom, BaseBoom=BaseBoom, BoomKey=BoomKey, BoomIndex=BoomIndex, BoomAttr=BoomAttr, BoomType=BoomType, BoomValue=BoomValue)
class Async(BaseException): pass
class Hook:
    def __init__(self): self.n, self.at, self.exc, self.raised, self.kinds = 0, None, None, None, []
    def __call__(self, kind):
        self.n += 1
        self.kinds.append(kind)
        if self.n == self.at:
            self.raised = self.exc()
            raise self.raised
H = [None]
def hook(kind):
    if H[0] is not None: H[0](kind)
def hgen(it):
    "An iterator whose every step may fail."
    for x in it:
        hook('next')
        yield x
    hook('next')
class HIter:
    "An iterable whose iter() may fail, too."
    def __init__(self, it): self.l = list(it)
    def __iter__(self):
        hook('iter')
        return hgen(self.l)
def hconst(x):
    hook('call')
    return x
def L(x): return sweep.made(pc.lazy(hconst, x), x)
def hkey(x):
    hook('key')
    return {'a': 3, 'b': 2, 'c': 1, 'd': 0}.get(getattr(x, 'eqc', None), 9)
def pairs(x): return x
GLOB = core.impl_globals(dict(sweep.GI, L=L, gen=hgen, HIter=HIter, negkey=hkey, iter_=hgen))
# --- what an object holds, by identity and without call-backs
def content(p):
    if isinstance(p, (pc.ldict, pc.tldict, pc.llist)): p = pc.holdlazy(p)
    if isinstance(p, pc.tllist): return ('s', tuple(id(u(p.getlazy(i))) for i in range(len(p))))
    if isinstance(p, (pc.pdict, pc.tdict)): return ('m', tuple((id(k), id(u(v))) for (k, v) in p.items()))
    if isinstance(p, (pc.plist, pc.tlist)): return ('s', tuple(id(u(x)) for x in p))
    return ('e', tuple(map(id, p)))
def u(x):
    "The value a lazy stands for."
    return x if not isinstance(x, pc.lazy) else x() if x.is_ready() else sweep.MADE[id(x)][1]
def mcontent(m):
    if type(m) is dict: return ('m', tuple((id(k), id(v)) for (k, v) in m.items()))
    return ('s' if type(m) is list else 'e', tuple(map(id, m)))
def run(stmt, ns):
    return core.run_stmt(stmt, GLOB, ns)
def setup(seed):
    ns = {}
    syms.HOOK = None; H[0] = None
    sweep.MADE = {}
    for s in seed: run(s, ns)
    return ns
def collections_in(ns):
    return {k: v for (k, v) in ns.items() if isinstance(v, (pc.plist, pc.tlist, pc.pset, pc.tset, pc.pdict, pc.tdict))}
def inject(ns, stmt, at, exc):
    "Executes stmt with the fault at the at-th call-back; returns the hook and what reached the caller."
    h = Hook(); h.at, h.exc = at, exc
    H[0] = h; syms.HOOK = hook
    try:
        run(stmt, ns)
        out = None
    except (Exception, BaseBoom) as e:
        out = e
    finally:
        syms.HOOK = None; H[0] = None
    return h, out
def fresh(p):
    "A newly built collection of the same kind and contents."
    T = type(p)
    if isinstance(p, (pc.pdict, pc.tdict)):
        return T([(k, p.getlazy(k)) if hasattr(p, 'getlazy') else (k, v) for (k, v) in (pc.holdlazy(p) if not isinstance(p, (pc.pdict, pc.tdict)) else pc.holdlazy(p)).items()])
    if isinstance(p, pc.tllist): return T([p.getlazy(i) for i in range(len(p))])
    return T(list(pc.holdlazy(p)))
def health(k, p):
    "None, or what is wrong with p after a failure."
    o = attempt(lambda: fresh(p))
    if o[0] == 'exc': return f"{k} cannot be read afterwards ({o[1]})"
    q = o[1]
    if len(p) != len(q): return f"{k} has length {len(p)} but holds {len(q)} items"
    if not (p == q and q == p): return f"{k} differs from a new collection of its contents"
    for x in list(q):
        if x not in p: return f"{k} holds {x} but does not find it"
    if hasattr(p, 'transient'):
        if hash(p) != hash(q): return f"{k} has a wrong hash afterwards"
        t = p.transient()
        a, b = battery(t), battery(q.transient())
        if a != b: return f"a transient of {k} behaves differently afterwards: {next((x, y) for (x, y) in zip(a, b) if x != y)}"
    else:
        if nm(p.persistent()) != nm(q.persistent()): return f"persistent() of {k} is {nm(p.persistent())}; contents {nm(q)}"
    a, b = battery(p), battery(q)
    if a != b: return f"{k} behaves differently afterwards: {next((x, y) for (x, y) in zip(a, b) if x != y)}"
    return None
def allowed(seed_m, steps, mode):
    """The contents a transient may have: after any prefix (or subset) of the steps."""
    def state(js):
        ns = {}
        for s in seed_m: core.run_stmt(s, MG, ns)
        for j in js:
            try: core.run_stmt(steps[j], MG, ns)
            except Exception: pass
        return mcontent(ns['t'])
    n = len(steps)
    if mode == 'prefix': idx = [tuple(range(j)) for j in range(n + 1)]
    else: idx = [tuple(j for j in range(n) if b >> j & 1) for b in range(1 << n)]
    return {state(i) for i in idx}
MG = core.model_globals(dict(L=lambda x: x))
def fault(seed, stmt, at, exc, spec):
    """One execution; None or what is wrong. spec: (model seed, steps, mode) for a transient `t`."""
    ns = setup(seed)
    before = {k: (v, content(v)) for (k, v) in collections_in(ns).items()}
    h, out = inject(ns, stmt, at, BOOMS[exc])
    what = f"{stmt} from {'; '.join(seed)}, call-back {at} ({h.kinds[-1] if h.kinds else '?'}) raising {exc}"
    if h.raised is None: return None
    if out is None: return f"{what}: the exception did not reach the caller"
    if h.kinds[at - 1] == 'call' and exc != 'BaseBoom':
        if not isinstance(out, LazyError): return f"{what}: raised {out!r} instead of LazyError"
    elif out is not h.raised and not (exc == 'BoomStop' and isinstance(out, RuntimeError) and out.__cause__ is h.raised): return f"{what}: raised {out!r} instead of the exception"
    for (k, (v, c)) in before.items():
        try: now = content(v)
        except Exception as e: return f"{what}: {k} cannot be read afterwards ({e!r})"
        if k == 't':
            if ns['t'] is not v and ';' not in stmt: return f"{what}: t was rebound"
            if spec and now != c and now not in allowed(*spec): return f"{what}: t is {nm(v)}, which is neither the old contents nor those after some of the items"
            if not spec and now != c: return f"{what}: t was changed to {nm(v)}"
        elif now != c: return f"{what}: {k} was changed to {nm(v)}"
        elif ns[k] is not v and ';' not in stmt: return f"{what}: {k} was rebound"
    for (k, (v, c)) in before.items():
        if k != 't' and k in ns:
            e = health(k, v)
            if e: return f"{what}: {e}"
    if 't' in before:
        e = health('t', before['t'][0])
        if e: return f"{what}: {e}"
    # nothing that exists after a failure is affected by using it
    for (k, (v, c)) in before.items():
        if not hasattr(v, 'transient'): continue
        if content(v) != c: return f"{what}: {k} changed later"
    return None
def faults(rep, cs):
    for (seed, stmt, spec) in cs:
        core.tick()
        rep.current = cases.script('c21:fault', seed, stmt, 1, 'Boom', spec)
        ns = setup(seed)
        h, out = inject(ns, stmt, None, None)
        for at in range(1, h.n + 1):
            for exc in BOOMS:
                if exc == 'BoomStop' and h.kinds[at - 1] in ('next', 'iter'): continue      # the end of the iteration
                rep.current = cases.script('c21:fault', seed, stmt, at, exc, spec)
                e = fault(seed, stmt, at, exc, spec)
                rep.case(key=(tuple(seed), stmt, at, exc), outcome=h.kinds[at - 1], sample=f"{'; '.join(seed)} | {stmt} | {exc} at call-back {at} of {h.n} ({h.kinds[at - 1]})")
                if e: rep.violation(e, rep.current, key=f"{stmt}|{at}|{exc}")
        rep.extra['operations_with_callbacks'] += h.n > 0
        rep.extra['operations'] += 1
# --- asynchronous exceptions
class Bomb:
    def __init__(self, at): self.n, self.at, self.fired = 0, at, False
    def tracer(self, frame, event, arg):
        if event == 'call':
            if '/pcollections/' not in frame.f_code.co_filename: return None
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.tracer
        if event == 'opcode' and frame.f_lasti in points_of(frame.f_code):
            self.n += 1
            if self.n == self.at:
                self.fired = True
                raise Async()
        return self.tracer
def bombed(ns, stmt, at):
    b = Bomb(at)
    sys.settrace(b.tracer)
    try:
        run(stmt, ns)
        out = None
    except (Exception, Async) as e:
        out = e
    finally:
        sys.settrace(None)
    return b, out
def async_fault(seed, stmt, at):
    ns = setup(seed)
    before = {k: (v, content(v)) for (k, v) in collections_in(ns).items()}
    b, out = bombed(ns, stmt, at)
    if not b.fired: return None
    what = f"{stmt} from {'; '.join(seed)}, asynchronous exception at point {at}"
    for (k, (v, c)) in before.items():
        if not hasattr(v, 'transient'): continue
        try:
            if content(v) != c: return f"{what}: {k} was changed to {nm(v)}"
        except Exception as e: return f"{what}: {k} cannot be read afterwards ({e!r})"
        e = health(k, v)
        if e: return f"{what}: {e}"
        if content(v) != c: return f"{what}: {k} changed later"
        if ns.get(k) is not v and out is not None and ';' not in stmt: return f"{what}: {k} was rebound"
    return None
def asyncs(rep, cs):
    sys.unraisablehook = lambda a: None      # an iterator that is closed at a fault point is reported there by Python
    for (seed, stmt) in cs:
        ns = setup(seed)
        b, out = bombed(ns, stmt, None)
        for at in range(1, b.n + 1):
            core.tick()
            rep.current = cases.script('c21:async_fault', seed, stmt, at)
            e = async_fault(seed, stmt, at)
            rep.case(key=(tuple(seed), stmt, at, 'async'), outcome='async', sample=f"{'; '.join(seed)} | {stmt} | asynchronous exception at point {at} of {b.n}")
            if e: rep.violation(e, rep.current, key=f"{stmt}|async|{at}")
        rep.extra['operations'] += 1
# --- operations
READ_S = ["A2 in p", "D in p", "p.index(B)", "p.index(D)", "p.count(A)", "p == [A, B, A2]", "p == plist([A, B])", "[B] == p", "p < [A, C]", "p >= plist([A, B, A2, D])", "p != tlist([A])", "hash(p)", "list(p)", "p[0]", "p[::-1]", "sorted(p)", "list(reversed(p))", "seqcmp(p, [A, B, A2])", "p.transient() == p",
          "plist(p)", "llist(p)", "tlist(p)", "pset(p)", "tset(p)", "pdict.fromkeys(p) if hasattr(pdict, 'fromkeys') else dict.fromkeys(p)", "pickle.dumps(p)", "p.ready_all()", "p.transient().index(B)", "p.transient().remove(B)", "p.transient().sort()"]
READ_E = ["A2 in p", "D in p", "p == {A, B}", "p == pset([C, A2])", "p <= {A, B, C, D}", "p > pset([A])", "p.isdisjoint([D, A])", "p.issubset(HIter([A, B, C]))", "p.issuperset(HIter([A, D]))", "p | HIter([A, D])", "p & {A, D}", "p - pset([A])", "p ^ {A, D}", "{A, D} | p", "{A, D} - p", "hash(p)", "list(p)", "p.union(HIter([A]), HIter([D]))",
          "p.intersection(pset([A, D]))", "p.difference(HIter([A]), HIter([D]))", "p.symmetric_difference(pset([A, D]))", "setcmp(p, {A, B})", "tset(p)", "plist(p)", "p.transient().remove(A)", "pickle.loads(pickle.dumps(p))", "p.pop()", "p.transient() == p"]
READ_M = ["A2 in p", "D in p", "p[A2]", "p.get(D)", "p == {A: v1, B: v2}", "p == pdict({C: v1, A: v2})", "p != tdict(p)", "hash(p)", "list(p.items())", "v2 in p.values()", "(A, v1) in p.items()", "p.keys() & {A, D}", "p.items() & {(A, v1)}", "p.keys() == {A, B}", "dict(p)", "pdict(p)", "ldict(p)", "tdict(p)", "tldict(p)", "pset(p)", "plist(p.items())",
          "p.transient().pop(A)", "pickle.loads(pickle.dumps(p))", "p.popitem()", "p.ready_all()", "p.transient() == p", "p.keys() | HIter([D])"]
NEW = ["plist(HIter([A, B]))", "tlist(HIter([A, B]))", "llist(HIter([L(A), B]))", "pset(HIter([A, B, C, A2]))", "tset(HIter([A, B, C, A2]))", "pdict(HIter([(A, v1), (B, v2), (A2, v3)]))", "tdict(HIter([(A, v1), (B, v2), (A2, v3)]))", "ldict(HIter([(A, L(v1))]))", "tldict(HIter([(A, v1), (B, v1)]))", "pdict({A: v1, B: v2}, x=v3)"]
def stmts(ops): return list(dict.fromkeys(a for (a, b) in ops))
def persistent_cases():
    out = []
    q = "q = p"
    for (k, t, lz) in (('plist', 'tlist', 0), ('llist', 'tllist', 1)):
        x = 'L(B)' if lz else 'B'
        seeds = [[f"p = {k}([A, {x}, A2])", q], [f"p = {k}([{x}]).prepend(A).prepend(A2)", q, "h = hash(p)"], [f"p = {k}()", q], [f"p = {k}([B, C, {x}, A]).delete(0)", "q = p.append(C)"], [f"p = strad({k}, ES[:31]).append({x}).append(A)", "q = p.append(C)"]]
        ops = stmts(menus.pl_updates(els=('A', x, 'A2'), idx=(0, 1, -1), lite=True, cls=k, tcls=t)) + [f"r = {e}" for e in READ_S] + ["p = p.extend(HIter([A, B]))", "p = p + q", "p = HIter_list + p" if 0 else "p = p.extend(q)", f"p = p.remove(D)", "p = p.sort(key=negkey, reverse=True)"]
        out.append((k, seeds, ops))
    for (k, t, lz) in (('pdict', 'tdict', 0), ('ldict', 'tldict', 1)):
        v = ('v1', 'L(v2)') if lz else ('v1', 'v2')
        seeds = [[f"p = {k}([(C, v1), (A, {v[1]}), (B, v3)])", q], [f"p = {k}([(A2, v1), (C, {v[1]}), (B, v1), (D, v4)]).drop(C)", q, "h = hash(p)"], [f"p = {k}()", q], [f"p = {k}({{A: v1, D: {v[1]}, G: v2}})", "q = p.set(B, v1)"], [f"p = ddisc({k}, [(C, v1)] + SV(31) + [(A, {v[1]})])", "q = p.set(B, v1)"]]
        ops = stmts(menus.pd_updates(vals=v, cls=k, tcls=t)) + [f"r = {e}" for e in READ_M] + ["p = p.update(HIter([(D, v1), (A2, v5), (B, v6)]))", "p = p.setall(HIter([D, A2]), HIter([v5, v6]))", "p = p.dropall(HIter([B, D, A2]))", "p = p.deleteall(HIter([B, A2]))", "p = p.update(q)"]
        out.append((k, seeds, ops))
    seeds = [["p = pset([A, B, C])", q], ["p = pset([C, A2, B, D]).discard(A)", q, "h = hash(p)"], ["p = pset()", q], ["p = pset([D, B, A])", "q = p.add(C)"], ["p = sdisc(pset, [C] + ES[:31] + [A])", "q = p.add(B)"], ["p = pset([A] + CH[:7])", "q = p.add(B)"]]
    ops = stmts(menus.ps_updates()) + [f"r = {e}" for e in READ_E] + ["p = p.addall(HIter([D, A2, C]))", "p = p.discardall(HIter([D, B, A2]))", "p = p.removeall(HIter([B, A2]))", "p |= HIter([D])", "p &= q", "p ^= q", "p -= q"]
    out.append(('pset', seeds, ops))
    return out
SUB = 'subset'
def transient_cases():
    """(seed statements, model seed, operation, steps, mode)"""
    out = []
    for (k, t, lz) in (('plist', 'tlist', 0), ('llist', 'tllist', 1)):
        x = 'L(B)' if lz else 'B'
        seeds = [([f"q = {k}([A, {x}, A2])", "t = q.transient()"], ["t = [A, B, A2]"]), ([f"q = {k}([{x}]).prepend(A).prepend(A2)", "t = q.transient()", "t.append(C)"], ["t = [A2, A, B, C]"]), ([f"t = {t}()"], ["t = []"]), ([f"t = {t}([B, C, {x}, A])", "del t[0]", "q = t.persistent()"], ["t = [C, B, A]"])]
        ops = [(f"r = {e}".replace('p.transient()', 't').replace('(p', '(t').replace(' p', ' t').replace('p.', 't.').replace('p[', 't['), []) for e in READ_S if 'hash' not in e and 'ready' not in e and 'fromkeys' not in e and 'pickle' not in e]
        ops += [("t.remove(B)", []), ("t.remove(D)", []), ("t.sort()", []), ("t.sort(reverse=True)", []), ("t.sort(key=negkey)", []), ("t.extend(HIter([A, B]))", ["t.append(A)", "t.append(B)"]), ("t.extend(gen([L(A), B]))", ["t.append(A)", "t.append(B)"]), ("t += HIter([B, D])", ["t.append(B)", "t.append(D)"]),
                ("t.extend(t)", SUB), ("t += t", SUB), ("t *= 2", SUB), ("t.reverse()", SUB), ("r = t + [A]", []), ("r = t * 2", []), ("r = t[::-1]", []), ("r = t.copy()", []), ("r = t.persistent()", []), ("r = t.pop()", []), ("r = t.pop(0)", []), ("t.insert(1, L(D))", []), ("t.append(L(D))", []), ("t[0] = L(D)", []), ("del t[0]", []), (f"t.extend({k}([L(D), L(C)]))", ["t.append(D)", "t.append(C)"]),
                ("t.extend(q)", SUB)]
        for (s, m) in seeds:
            for (o, st) in ops:
                if ('q' in o and not any(y.startswith('q') for y in s)): continue
                if st == SUB:     # items of the list itself, one after the other
                    ns = {}
                    for y in m: core.run_stmt(y, MG, ns)
                    st = [] if o in ("t.reverse()",) else [f"t.append({e.name})" for e in ns['t']]
                    if o == "t.extend(q)":
                        n2 = setup(s); st = [f"t.append({u(e).name})" for e in pc.holdlazy(n2['q'])]
                out.append((t, s, o, (m, st, 'prefix') if st else None))
    for (k, t, lz) in (('pdict', 'tdict', 0), ('ldict', 'tldict', 1)):
        v = ('v1', 'L(v2)') if lz else ('v1', 'v2')
        seeds = [([f"q = {k}([(C, v1), (A, {v[1]}), (B, v3)])", "t = q.transient()"], ["t = {C: v1, A: v2, B: v3}"]), ([f"q = {k}([(A2, v1), (C, {v[1]}), (B, v1), (D, v4)])", "t = q.transient()", "del t[C]"], ["t = {A2: v1, B: v1, D: v4}"]), ([f"t = {t}()"], ["t = {}"]),
                 ([f"t = {t}([(A, v1), (D, {v[1]}), (G, v2), (C, v3)])", "q = t.persistent()"], ["t = {A: v1, D: v2, G: v2, C: v3}"])]
        ops = [(f"r = {e}".replace('p.transient()', 't').replace('(p', '(t').replace(' p', ' t').replace('p.', 't.').replace('p[', 't['), []) for e in READ_M if 'hash' not in e and 'ready' not in e and 'pop' not in e and 'pickle' not in e]
        for x in ('A', 'A2', 'B', 'C', 'D'):
            ops += [(f"t[{x}] = v5", []), (f"t[{x}] = L(v5)", []), (f"del t[{x}]", []), (f"r = t.pop({x})", []), (f"r = t.pop({x}, v7)", []), (f"r = t.setdefault({x}, v6)", [])]
        ops += [("r = t.popitem()", []), ("t.update(HIter([(D, v1), (A2, v5), (B, v6)]))", ["t[D] = v1", "t[A2] = v5", "t[B] = v6"]), ("t.update({B: v6, Z: v1}, x=v5)", ["t[B] = v6", "t[Z] = v1", "t['x'] = v5"]), ("t.update(pdict([(C, v6), (Z, v1)]))", ["t[C] = v6", "t[Z] = v1"]), ("t.update(ldict([(C, L(v6)), (Z, L(v1))]))", ["t[C] = v6", "t[Z] = v1"]),
                ("t.update(gen([(B, v1)]))", ["t[B] = v1"]), ("t.clear()", []), ("r = t.copy()", []), ("r = t.persistent()", []), ("t.update(q)", [])]
        for (s, m) in seeds:
            for (o, st) in ops:
                if 'q' in o and not any('q =' in y for y in s): continue
                if o == "t.update(q)":
                    n2 = setup(s); st = [f"t[{a.name}] = {u(b).name}" for (a, b) in pc.holdlazy(n2['q']).items()]
                out.append((t, s, o, (m, st, 'prefix') if st else None))
    seeds = [(["q = pset([A, B, C])", "t = q.transient()"], ["t = MSet([A, B, C])"]), (["q = pset([C, A2, B, D])", "t = q.transient()", "t.discard(C)"], ["t = MSet([A2, B, D])"]), (["t = tset()"], ["t = MSet()"]), (["t = tset([D, B, A])", "q = t.persistent()", "t.add(C)"], ["t = MSet([D, B, A, C])"])]
    ops = [(f"r = {e}".replace('p.transient()', 't').replace('(p', '(t').replace(' p', ' t').replace('p.', 't.').replace('p[', 't['), []) for e in READ_E if 'hash' not in e and '.pop' not in e and 'remove' not in e and 'pickle' not in e]
    for x in ('A', 'A2', 'B', 'C', 'D'): ops += [(f"t.add({x})", []), (f"t.discard({x})", []), (f"t.remove({x})", [])]
    add = lambda *e: [f"t.add({x})" for x in e]
    dis = lambda *e: [f"t.discard({x})" for x in e]
    ops += [("r = t.pop()", []), ("t.update(HIter([D, A2, Z]))", add('D', 'A2', 'Z')), ("t.update(HIter([D]), gen([Z, G]))", add('D', 'Z', 'G')), ("t.addall(HIter([Z, B, D]))", add('Z', 'B', 'D')), ("t.discardall(HIter([B, D, A]))", dis('B', 'D', 'A')), ("t.removeall(HIter([B, A]))", dis('B', 'A')), ("t.removeall(gen([B, Z, A]))", dis('B')),
            ("t |= HIter([Z, A2])", add('Z', 'A2')), ("t |= {Z, D}", (SUB, add('Z', 'D'))), ("t &= {A, C}", (SUB, dis('A2', 'B', 'D', 'A', 'C'))), ("t &= pset([B])", (SUB, dis('A', 'C', 'D', 'A2', 'C'))), ("t -= {A, D, B}", (SUB, dis('A', 'D', 'B'))), ("t -= pset([B, C])", (SUB, dis('B', 'C'))), ("t ^= {A, Z}", (SUB, dis('A') + add('Z'))), ("t ^= pset([B, Z])", (SUB, dis('B') + add('Z'))), ("t ^= pset([Z, D])", (SUB, [])),
            ("t.intersection_update(pset([A, B]))", (SUB, dis('C', 'D', 'A', 'A2', 'B'))), ("t.difference_update(HIter([B]), HIter([D]))", (SUB, dis('B', 'D'))), ("t.symmetric_difference_update(pset([B, Z]))", (SUB, dis('B') + add('Z'))), ("t -= t", (SUB, dis('A', 'B', 'C', 'D'))), ("t ^= t", (SUB, dis('A', 'B', 'C', 'D'))), ("t.clear()", []), ("r = t.copy()", []), ("r = t.persistent()", []), ("t |= q", []), ("t -= q", (SUB, dis('A', 'B', 'C', 'D')))]
    for (s, m) in seeds:
        for (o, st) in ops:
            if 'q' in o and not any('q =' in y for y in s): continue
            if o == "t ^= pset([Z, D])":
                ns = {}
                for y in m: core.run_stmt(y, MG, ns)
                st = (SUB, (dis('D') if syms.D in ns['t'] else add('D')) + add('Z'))
            if o in ("t ^= {A, Z}", "t ^= pset([B, Z])", "t.symmetric_difference_update(pset([B, Z]))"):
                ns = {}
                for y in m: core.run_stmt(y, MG, ns)
                e = 'A' if o == "t ^= {A, Z}" else 'B'
                if getattr(syms, e) not in ns['t']: st = (SUB, add(e, 'Z')) ; out.append(('tset', s, o, (m, add('Z', e), 'subset'))); continue
            if o == "t |= q": st = add(*[e.name for e in setup(s)['q']])
            if type(st) is tuple: out.append(('tset', s, o, (m, st[1], 'subset')))
            else: out.append(('tset', s, o, (m, st, 'prefix') if st else None))
    return out
def jobs(tier):
    th = tier != 'quick'
    js = []
    cs = []
    al = []
    for (k, seeds, ops) in persistent_cases():
        for s in seeds:
            for o in ops: cs.append((s, o, None))
        for s in (seeds if th else seeds[:2]):
            for o in ops: al.append((s, o))
    for (t, s, o, spec) in transient_cases(): cs.append((s, o, spec))
    for e in NEW: cs.append((["q = plist([A, B])"], f"r = {e}", None))
    n = 40
    for i in range(n):
        part = cs[i::n]
        if part: js.append(FuncJob(f'callbacks/{i}', faults, part))
    n = 48
    for i in range(n):
        part = al[i::n]
        if part: js.append(FuncJob(f'async/{i}', asyncs, part))
    return js
