"""C29: user code called by an operation may use the collections involved."""
import itertools, copy
from .. import core, syms, menus, cases, sweep
from ..core import FuncJob, run_stmt
from ..syms import A, B, C, D
from .c21 import Hook, hook, H, hgen, HIter, hkey
from .c22 import nm
from . import c21, c22
import pcollections as pc
TECHNIQUE = 'exhaustive enumeration of nested operations (every operation run inside every call-back of every operation) on the real code'
BOUNDS = {
    'quick': "the five persistent kinds, 3 starts each (chains of equal hashes, offsets, waiting lazy values): every update, conversion, comparison and read; at every call-back it makes into user code (hash, ==, <, iterator step, sort key, lazy function) every one of 25-32 "
             "operations per kind is run on the same collection, and inside the first two call-backs of the inner operation a third one out of four (at the first three and the last call-back); the results of all are compared with those of the operations alone. The five transient kinds: every edit, conversion and read; "
             "at every call-back every read and conversion of the same transient, whose answers must be those before the edit or after a whole number of its items; and every edit of transients of 1-4 items (built, made from a persistent, straddling or after discards, with and without chains of equal hashes) where the finalizer of the k-th item let go of reads or edits the transient in 6-12 ways, compared to list, set and dict",
    'thorough': "as quick, with every operation as the third one, at every call-back",
}
ASSUMPTIONS = ["call-backs read a transient but do not edit it", "the function of a lazy value that requests itself is run again (C15)"]
RULE = "a case is one operation with one inner operation run at one call-back; all are distinct, and counted only when the call-back happened"
LV = ('v1', 'v2')
STARTS = {
    'plist': [("p = plist([B, A, C]).prepend(A)",), ("p = plist([C, A2, B])",), ("p = plist([D, B, A, C, A2]).delete(0)",)],
    'llist': [("p = llist([L(B), A, L(C)]).prepend(A)",), ("p = llist([L(A), L(B)])",), ("p = llist([L(B), L(B), C])",)],
    'pset': [("p = pset([D, A, B, C]).discard(D).add(v1)",), ("p = pset([A, B, C])",), ("p = pset([C, D, A])",)],
    'pdict': [("p = pdict([(D, v1), (A, v2), (B, v3), (C, v4)]).drop(D)",), ("p = pdict([(A, A), (C, B)])",), ("p = pdict([(B, v1), (A, v2), (D, v3)])",)],
    'ldict': [("p = ldict([(D, v1), (A, L(v2)), (B, v3), (C, L(v4))]).drop(D)",), ("p = ldict([(A, L(v1)), (B, L(v2))])",), ("p = ldict([(B, L(v1)), (A, v2), (D, L(v3))])",)],
}
# --- the operations, as functions of the collection
def stm(src):
    c = compile(src, '<op>', 'exec')
    def f(p):
        ns = {'p': p}
        exec(c, GLOB, ns)
        return (ns.get('p'), ns.get('r'))
    return f
GLOB = c21.GLOB
def opsof(kind):
    o = {}
    for (n, f) in c22.KINDS[kind][1].items(): o[n] = f
    return o
def outer(kind):
    o = dict(opsof(kind))
    els = ('A', 'B', 'A2')
    if kind == 'plist': m = menus.pl_updates(els=els, idx=(-2, 0, 1), lite=True)
    elif kind == 'llist': m = menus.pl_updates(els=('A', 'L(B)', 'L(A2)'), idx=(-2, 0, 1), cls='llist', tcls='tllist', lite=True)
    elif kind == 'pset': m = menus.ps_updates()
    elif kind == 'pdict': m = menus.pd_updates()
    else: m = menus.pd_updates(vals=('L(v1)', 'v2'), cls='ldict', tcls='tldict')
    for (i, _) in m:
        if i not in o: o[i] = stm(i)
    extra = {'plist': ["r = p == q", "r = p < q", "r = q >= p", "p = p.sort(key=negkey)", "p = p.extend(HIter([C, A, B]))", "r = hash(p)", "r = p in {p: 1}", "r = q in [p]", "p = p + q"],
             'pset': ["p = p.addall(HIter([D, A2, v7]))", "p = p.discardall(HIter([D, A2, C]))", "p = p.union(HIter([D]), [v7])", "r = p == q", "r = p <= q", "r = q > p", "p = p & q", "p = p ^ q", "p = p.removeall(HIter([A, B]))", "r = hash(p)", "r = p.issubset(HIter([A, B]))"],
             'pdict': ["p = p.update(HIter([(A2, v6), (D, v7)]))", "p = p.setall(HIter([C, D]), HIter([v6, v7]))", "p = p.dropall(HIter([A, D]))", "p = p.deleteall(HIter([A]))", "r = p == q", "r = hash(p)", "r = p.items() == q.items()", "r = v7 in p.values()", "r = p.keys() & [A, D]", "r = p.keys() <= q.keys()"]}
    for e in extra[{'llist': 'plist', 'ldict': 'pdict'}.get(kind, kind)]: o[e] = stm(e)
    return o
OUT = {}
def outer_of(kind):
    if kind not in OUT: OUT[kind] = outer(kind)
    return OUT[kind]
class Nest:
    "At the k-th call-back of the outer operation runs the inner one, and at that one's j-th call-back a third."
    def __init__(self, k, fs): self.n, self.k, self.fs, self.res = 0, k, fs, []
    def __call__(self, kind):
        self.n += 1
        if self.n != self.k: return
        (f, j), rest = self.fs[0], self.fs[1:]
        H[0] = Nest(j, rest) if rest else None
        inner = H[0]
        try: r = do(f)
        finally: H[0] = self
        self.res.append(r)
        if inner is not None: self.res += inner.res
def do(f, norm=None):
    try: return ('ok', (norm or norm_)(f()))
    except core.Hang: raise
    except Exception as e: return ('exc', core.family(e))
def norm_(r):
    on = (H[0], syms.HOOK)
    H[0] = None; syms.HOOK = None
    try: return nm(r)
    finally: (H[0], syms.HOOK) = on
def start(seed):
    H[0] = None; syms.HOOK = None
    ns = {}
    for s in seed: run_stmt(s, GLOB, ns)
    return ns['p']
def mkq(seed):
    q = start(seed)
    GLOB['q'] = q
def alone(kind, si, f):
    seed = STARTS[kind][si]
    mkq(seed)
    p = start(seed)
    return do(lambda: f(p))
_alone = {}
def alone_(kind, si, name):
    k = (kind, si, name)
    if k not in _alone: _alone[k] = alone(kind, si, outer_of(kind)[name])
    return _alone[k]
def once(kind, si, name, k, inners):
    """Runs `name` with inners[0] inside its k-th call-back (and inners[1] inside that one's j-th)."""
    seed = STARTS[kind][si]
    ops = outer_of(kind)
    mkq(seed)
    p = start(seed)
    n = Nest(k, [(lambda i=i: ops[i](p), j) for (i, j) in inners])
    H[0] = n; syms.HOOK = hook
    try: r = do(lambda: ops[name](p))
    finally: H[0] = None; syms.HOOK = None
    return p, n, r
def case(kind, si, name, k, inners):
    seed = STARTS[kind][si]
    (p, n, r) = once(kind, si, name, k, inners)
    if not n.res: return None
    what = f"{name} on {'; '.join(seed)}, with {' and inside it '.join(i for (i, _) in inners)} at call-back {k}"
    want = alone_(kind, si, name)
    if r != want: return f"{what}: {name} gives {r}; alone {want}"
    for (g, (i, _)) in zip(n.res, inners):
        if g != alone_(kind, si, i): return f"{what}: {i} gives {g}; alone {alone_(kind, si, i)}"
    q = start(seed)
    if nm(p) != nm(q): return f"{what}: the collection became {nm(p)}"
    if hash(p) != hash(q) or not (p == q): return f"{what}: the collection's hash or equality is wrong afterwards"
    return None
def callbacks(kind, si, name):
    "The number of call-backs `name` makes."
    (_, n, _) = once(kind, si, name, -1, [])
    return n.n
THIRD = ('hash', 'iter', 'edit', 'eq')
def run_nested(rep, kind, si, names, thirds):
    inner = list(opsof(kind))
    for name in names:
        try: m = callbacks(kind, si, name)
        except Exception as e:
            if not core.from_library(e): raise
            continue
        for k in range(1, m + 1):
            for i in inner:
                core.tick()
                rep.current = script(kind, si, name, k, [(i, 1)])
                e = case(kind, si, name, k, [(i, 1)])
                rep.case(sample=f"{kind}: {i} at call-back {k} of {name}")
                rep.extra['states'] += 1; rep.extra['transitions'] += 2; rep.extra['leaves'] += 1
                if e: rep.violation(e, rep.current, key=name)
            if thirds or k <= 3 or k == m:
                for (i, j, l) in itertools.product(inner, (1, 2), THIRD if not thirds else inner):
                    if i not in inner or l not in inner: continue
                    core.tick()
                    rep.current = script(kind, si, name, k, [(i, j), (l, 1)])
                    e = case(kind, si, name, k, [(i, j), (l, 1)])
                    rep.case()
                    rep.extra['states'] += 1; rep.extra['transitions'] += 3; rep.extra['leaves'] += 1
                    if e: rep.violation(e, rep.current, key=name)
def script(*a): return cases.script('c29', *a)
# --- transients: call-backs that read
TSTARTS = {
    'tlist': [("t = plist([B, A, C]).prepend(A).transient()",), ("t = tlist([C, A2, B]); t.prepend(D)",), ("t = tlist([D, A, B, C]); del t[0]",)],
    'tllist': [("t = llist([L(B), A, L(C)]).prepend(A).transient()",), ("t = tllist([C, L(A2), B]); t.prepend(L(D))",)],
    'tset': [("t = pset([D, A, B, C]).discard(D).transient()",), ("t = tset([C, A]); t.add(D)",), ("t = tset([A, B, C])",)],
    'tdict': [("t = pdict([(D, v1), (A, v2), (B, v3)]).drop(D).transient()",), ("t = tdict([(C, v1), (A, v2)]); t[D] = v3",)],
    'tldict': [("t = ldict([(D, v1), (A, L(v2)), (B, v3)]).drop(D).transient()",), ("t = tldict([(C, L(v1)), (A, v2)]); t[D] = L(v3)",)],
}
_tops = {}
def tops(kind):
    if kind in _tops: return _tops[kind]
    if kind == 'tlist': m = menus.tl_updates(els=('A', 'B', 'A2'), idx=(-2, 0, 1), lite=True)
    elif kind == 'tllist': m = menus.tl_updates(els=('A', 'L(B)', 'L(A2)'), idx=(-2, 0, 1), lite=True)
    elif kind == 'tset': m = menus.ts_updates()
    elif kind == 'tdict': m = menus.td_updates()
    else: m = menus.td_updates(vals=('L(v1)', 'v2'))
    o = [i for (i, _) in m]
    if 'list' in kind: o += ["t.extend(HIter([C, A, B]))", "t += HIter([C])", "r = t == [A, B, A, C]", "r = t < [A, C]", "t.sort(key=negkey)", "r = C in t", "r = t.index(C)", "r = list(t)", "r = t.persistent()", "r = repr(t)"]
    elif kind == 'tset': o += ["t.addall(HIter([D, A2, v7]))", "t.discardall(HIter([D, A2, C]))", "t.update(HIter([D]), [v7])", "r = t == {A, B, C}", "r = t <= {A, B}", "r = t & {A, D}", "r = t | {A2, D}", "r = C in t", "r = t.persistent()", "r = t.isdisjoint([D, C])"]
    else: o += ["t.update(HIter([(A2, v6), (D, v7)]))", "r = t == {A: v2, B: v3}", "r = C in t", "r = t.get(B)", "r = (A, v2) in t.items()", "r = v3 in t.values()", "r = list(t.items())", "r = t.persistent()"]
    r = _tops[kind] = list(dict.fromkeys(o))
    return r
def view(t):
    "Everything that reads of a transient say, checked to be consistent; returns its contents."
    if isinstance(t, pc.tdict):
        it = list(t.items())
        ks = list(t)
        if [k for (k, _) in it] != ks or len(t) != len(ks): return ('inconsistent', len(t), nm(ks), nm(it))
        for (k, v) in it:
            if k not in t or t[k] is not v or t.get(k) is not v or (k, v) not in t.items(): return ('does not find', nm(k), nm(it))
        q, c = t.persistent(), t.copy()
        if [nm(x) for x in q.items()] != [nm(x) for x in it] or [nm(x) for x in c.items()] != [nm(x) for x in it]: return ('persistent() or copy()', nm(list(q.items())), nm(list(c.items())), nm(it))
        return ('m',) + tuple((nm(k), nm(v)) for (k, v) in it)
    l = list(t)
    if len(l) != len(t): return ('inconsistent', len(t), nm(l))
    q, c = t.persistent(), t.copy()
    if nm(list(q)) != nm(l) or nm(list(c)) != nm(l): return ('persistent() or copy()', nm(q), nm(c), nm(l))
    for (i, x) in enumerate(l):
        if isinstance(t, pc.tlist):
            if t[i] is not x: return ('item', i, nm(t[i]), nm(l))
        if x not in t: return ('does not find', nm(x), nm(l))
    if not (t == (l if isinstance(t, pc.tlist) else set(l))): return ('unequal', nm(l))
    return ('s',) + tuple(nm(l))
def same(x): return x
class Peek:
    def __init__(self, t, k): self.t, self.k, self.n, self.seen = t, k, 0, None
    def __call__(self, kind):
        self.n += 1
        if self.n == self.k:
            H[0] = None
            try: self.seen = do(lambda: view(self.t), same)
            finally: H[0] = self
def tstart(seed):
    H[0] = None; syms.HOOK = None
    ns = {}
    for s in seed: run_stmt(s, GLOB, ns)
    return ns
def trun(seed, op, k, follow=None):
    ns = tstart(seed)
    t = ns['t']
    h = Peek(t, k) if k else None
    if h: H[0] = h; syms.HOOK = hook
    try: r = do(lambda: (run_stmt(op, GLOB, ns), ns.get('r'))[1])
    finally: H[0] = None; syms.HOOK = None
    return t, h, (r, do(lambda: view(t), same), do(lambda: view(ns['t']) if hasattr(ns['t'], 'persistent') else None, same))
def tcase(kind, si, op, k):
    seed = TSTARTS[kind][si]
    (t, h, r) = trun(seed, op, k)
    if h.seen is None: return None
    (_, _, want) = trun(seed, op, 0)
    what = f"{op} on {'; '.join(seed)}, with the transient read at call-back {k}"
    if r != want: return f"{what}: the outcome, the contents or the new value is {r}; without reading {want}"
    ok = states(kind, si, op)
    if ok is not None and h.seen not in ok: return f"{what}: the read saw {h.seen}; the contents before and after items of the edit are {ok}"
    if h.seen[0] == 'exc' or h.seen[1][0] not in 'ms': return f"{what}: the read saw {h.seen}"
    return None
MULTI = ('extend', 'addall', 'discardall', 'removeall', 'update', '|=', '&=', '-=', '^=', '+=', '*=', 'sort', 'reverse')
def states(kind, si, op):
    "The contents before and after, for edits of a single item; None for the others (any consistent contents)."
    if any(m in op for m in MULTI): return None
    seed = TSTARTS[kind][si]
    (t, _, _) = trun(seed, 'pass', 0)
    a = do(lambda: view(t), same)
    (_, _, b) = trun(seed, op, 0)
    return (a, b[1])
def run_t(rep, kind, si, ops):
    for op in ops:
        ns = TSTARTS[kind][si]
        (_, h, _) = trun(ns, op, -1)
        for k in range(1, h.n + 1):
            core.tick()
            rep.current = cases.script('c29:tcase', kind, si, op, k)
            e = tcase(kind, si, op, k)
            rep.case(sample=f"{kind}: read at call-back {k} of {op}")
            rep.extra['states'] += 1; rep.extra['transitions'] += 2; rep.extra['leaves'] += 1
            if e: rep.violation(e, rep.current, key=op)
# --- finalizers: items that are let go by an edit run code that uses the transient
class Key:
    "Equal to the Fin of the same tag."
    def __init__(self, tag, h): self.tag, self.h = tag, h
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, (Key, Fin)) and o.tag == self.tag
    def __repr__(self): return f'K{self.tag}'
class Fin(Key):
    "An item whose finalizer is user code."
    def __del__(self):
        f = FH[0]
        if f is not None: f()
    def __repr__(self): return f'F{self.tag}'
FH = [None]
class Act:
    "Runs f when the k-th item is finalized."
    def __init__(self, k, f): self.n, self.k, self.f, self.log = 0, k, f, []
    def __call__(self):
        self.n += 1
        if self.n == self.k: self.log.append(do(self.f, same))
def tags(t):
    if hasattr(t, 'items'): return [(repr(k), repr(v)) for (k, v) in t.items()]
    return [repr(x) for x in t]
def whole(t):
    "The contents, as every way of reading them gives them."
    c = tags(t)
    if type(t).__module__.startswith('pcollections'):
        o = [tags(t.persistent()), tags(t.copy()), len(t), all(x in t for x in list(t)), t == t.copy()]
        if isinstance(t, pc.tlist): o.append([repr(t[i]) for i in range(len(t))])
        if isinstance(t, pc.tdict): o.append([repr(t[k]) for k in list(t)])
        w = [c, c, len(c), True, True]
        if isinstance(t, pc.tlist): w.append(c)
        if isinstance(t, pc.tdict): w.append([v for (_, v) in c])
        if o != w: return ['inconsistent', c, *o]
    return c
from ..model import MSet
def fhash(chain, i): return 77 if chain == 1 or (chain == 2 and i % 2 == 0) else 100 + i
FKINDS = {'tlist': 'seq', 'tllist': 'seq', 'tset': 'set', 'tdict': 'map', 'tldict': 'map'}
def fbuild(kind, n, rep):
    "A transient of n items nobody else holds, and its model."
    c = FKINDS[kind]
    K = getattr(pc, kind); P = getattr(pc, {'tlist': 'plist', 'tllist': 'llist', 'tset': 'pset', 'tdict': 'pdict', 'tldict': 'ldict'}[kind])
    (how, chain) = rep
    f = lambda i: Fin(i, fhash(chain, i))
    its = [(f(i), Fin(10 + i, 1)) if c == 'map' else f(i) for i in range(n)]
    if how == 'built': t = K(its)
    elif how == 'orig': t = P(its).transient()
    elif how == 'edited':
        if c == 'seq':
            t = K(its[n // 2:])
            for x in reversed(its[:n // 2]): t.prepend(x)
            x = None
        elif c == 'set':
            t = P([0] + its).discard(0).transient()
        else:
            t = P([(0, 0)] + its).drop(0).transient()
    del its
    g = [(f(i), Fin(10 + i, 1)) if c == 'map' else f(i) for i in range(n)]
    m = list(g) if c == 'seq' else MSet(g) if c == 'set' else dict(g)
    return t, m
NEWX = 'XN'
def fedits(kind, n, chain):
    "(edit of the transient, edit of the model, does it let go of one item only)"
    c = FKINDS[kind]
    k = lambda i: f"Key({i}, {fhash(chain, i)})"
    out = [('t.clear()', 't.clear()', False)]
    for i in range(n):
        if c == 'seq':
            out += [(e, e, True) for e in (f"del t[{i}]", f"t[{i}] = 0", f"t.pop({i})", f"t.remove({k(i)})")]
            out += [(f"del t[{i - n}]",) * 2 + (True,)]
        elif c == 'set':
            out += [(e, e, True) for e in (f"t.discard({k(i)})", f"t.remove({k(i)})")]
            out += [(f"t -= {{{k(i)}}}", f"t.discard({k(i)})", True), (f"t ^= pset([{k(i)}])", f"t.discard({k(i)})", True), (f"t.discardall([{k(i)}, {k((i + 1) % n)}])", f"t.discard({k(i)}); t.discard({k((i + 1) % n)})", False), (f"t &= pset([{k(i)}])", f"for x in [x for x in t if x.tag != {i}]: t.discard(x)\nx = None", False)]
        else:
            out += [(e, e, True) for e in (f"del t[{k(i)}]", f"t.pop({k(i)})", f"t.pop({k(i)}, 0)", f"t[{k(i)}] = 0", f"t.update({{{k(i)}: 0}})")]
    if c == 'seq': out += [('t *= 0',) * 2 + (False,)]
    return out
READS_F = ["whole(t)"]
def finner(kind):
    "What the finalizer does: (on the transient, on the model)."
    c = FKINDS[kind]
    o = [('whole(t)',) * 2]
    if c == 'seq': o += [(e + '; r = whole(t)',) * 2 for e in ('t.append(XN)', 't.insert(0, XN)', 't.insert(1, XN)', 't[0] = XN', 't[-1] = XN', 'del t[0]', 'del t[-1]', 't.clear()', 't.extend([XN, XN])', 't.reverse()', 't *= 2')]
    elif c == 'set': o += [(e + '; r = whole(t)',) * 2 for e in ('t.add(XN)', 't.clear()', 't.update([XN, 8])', 't.discard(Key(0, 77)); t.discard(Key(0, 100))', 't.discard(Key(1, 77)); t.discard(Key(1, 101))')]
    else: o += [(e + '; r = whole(t)',) * 2 for e in ('t[XN] = 1', 't.clear()', 't.update({XN: 8, 8: 9})', 't.pop(Key(0, 77), 0); t.pop(Key(0, 100), 0)', 't.pop(Key(1, 77), 0); t.pop(Key(1, 101), 0)', 't.setdefault(Key(1, 101), 6)')]
    return [('r = whole(t)',) * 2] + o[1:]
FG = dict(core.impl_globals(), whole=whole, Key=Key, XN='XN', MSet=MSet)
def frun(t, edit, act, k):
    "The outcome of the edit, what the finalizer of the k-th item to go saw, and the contents afterwards."
    def f():
        ns = {'t': t}
        run_stmt(act, FG, ns)
        return ns.get('r')
    a = Act(k, f)
    ns = {'t': t}
    FH[0] = a
    try: r = do(lambda: run_stmt(edit, FG, ns), same)
    finally: FH[0] = None
    return a.n, a.log, r, do(lambda: whole(t), same)
def fcase(kind, n, rep, edit, k, act):
    (t, m) = fbuild(kind, n, rep)
    (e, me, single) = edit
    (a, ma) = act
    (cn, log, r, c) = frun(t, e, a, k)
    (mn, mlog, mr, mc_) = frun(m, me, ma, k)
    what = f"{e} on a {kind} of {n} items ({rep[0]}, hashes {rep[1]}), where the finalizer of item number {k} to go does {a}"
    if mn < k and cn < k: return None, None
    if not single and (a.startswith('r = ') is False) and 'clear' not in e and '*= 0' not in e: return None, None
    if not single and FKINDS[kind] == 'set' and 'clear' not in e: (log, mlog) = ([x for x in log if x[0] != 'ok' or 'inconsistent' in x[1]], [])
    if log != mlog: return what, f"{what}: there, the contents are {log}; with the built-in kind {mlog}"
    if r[0] != mr[0]: return what, f"{what}: outcome {r}; with the built-in kind {mr}"
    if c != mc_: return what, f"{what}: the contents afterwards are {c}; with the built-in kind {mc_}"
    return what, None
def fmain(*a):
    return fcase(*a)[1]
def run_f(rep, kind, part):
    for n in (1, 2, 3, 4):
        for r in [(h, c) for h in ('built', 'orig', 'edited') for c in ((0,) if FKINDS[kind] == 'seq' else (0, 1, 2))]:
            for edit in fedits(kind, n, r[1])[part[0]::part[1]]:
                for act in finner(kind):
                    for k in range(1, 2 * n + 1):
                        core.tick()
                        rep.current = cases.script('c29:fmain', kind, n, r, edit, k, act)
                        (what, e) = fcase(kind, n, r, edit, k, act)
                        if what is None: break
                        rep.case(sample=what)
                        rep.extra['states'] += 1; rep.extra['transitions'] += 2; rep.extra['leaves'] += 1
                        if e: rep.violation(e, rep.current, key=f"{kind} {edit[0]}")
def jobs(tier):
    th = tier != 'quick'
    js = []
    for kind in STARTS:
        names = list(outer_of(kind))
        for si in range(3):
            k = 12 if not th else 36
            for j in range(k): js.append(FuncJob(f"{kind}/{si}/{j}", run_nested, kind, si, names[j::k], th))
    for kind in TSTARTS:
        for si in range(len(TSTARTS[kind])): js.append(FuncJob(f"{kind}/{si}", run_t, kind, si, tops(kind)))
    for kind in FKINDS:
        for i in range(2): js.append(FuncJob(f"finalizers/{kind}/{i}", run_f, kind, (i, 2)))
    return js
