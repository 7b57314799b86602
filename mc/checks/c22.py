"""C22: persistent collections can be used from several threads without locking."""
import itertools
from .. import core, sched, syms, locks
from ..core import FuncJob
import copy, re
from ..syms import A, B, C, D, A2, B2, v1, v2, v3, v4, v5, v6
import pcollections as pc
from pcollections import lazy, llist, ldict, tllist, tldict, plist, tlist, pdict, tdict, pset, tset, holdlazy
TECHNIQUE = 'exhaustive exploration of thread schedules of the real code (all interleavings up to a preemption bound, by depth-first search with replay)'
BOUNDS = {
    'quick': "one shared plist, llist, pset, pdict or ldict; every unordered pair (with repetition) of 24-32 operations per kind, one per thread: all schedules at opcode granularity, and inside ==, hash and the functions of lazy values, with <= 1 preemption; "
             "<= 2 for the pairs of a hash, a transient edit and a read; three threads (hash, derive, transient edit) with <= 1",
    'thorough': "as quick with one more preemption",
}
ASSUMPTIONS = ["threads switch between, not inside, the opcodes of the interpreter and the operations of the C extension phamt"]
RULE = "one evaluation is one schedule of one scenario; all differ; distinct_nontrivial counts the scenario shares explored"
PIN = True
def nm(x):
    "A description of a result that does not depend on addresses."
    if isinstance(x, (plist, tlist, list)): return (type(x).__name__,) + tuple(map(nm, list(x)))
    if isinstance(x, (pdict, tdict, dict)): return (type(x).__name__,) + tuple((nm(k), nm(v)) for (k, v) in x.items())
    if isinstance(x, (pset, tset)): return (type(x).__name__,) + tuple(map(nm, x))
    if isinstance(x, (set, frozenset)): return (type(x).__name__,) + tuple(sorted(map(repr, map(nm, x))))
    if isinstance(x, (tuple,)): return tuple(map(nm, x))
    if isinstance(x, syms.Sym): return x.name
    return repr(x)
def plain(s): return re.sub(r'lazy\(<\d+>: \w+\)', 'lazy', s)
class F:
    "A function of a lazy value."
    def __init__(self, x, ex): self.x, self.ex, self.n = x, ex, 0
    def __call__(self):
        self.n += 1
        if self.ex is not None: self.ex.point()
        return self.x
def lz(x, ex, fs):
    f = F(x, ex)
    fs.append(f)
    return lazy(f)
# --- shared collections: each a fresh object
def mk_plist(ex, fs): return plist([B, A, C]).prepend(A)
def mk_llist(ex, fs): return llist([lz(B, ex, fs), A, lz(C, ex, fs)]).prepend(A)
def mk_pset(ex, fs): return pset([D, A, B, C]).discard(D).add(v1)
def mk_pdict(ex, fs): return pdict([(D, v1), (A, v2), (B, v3), (C, v4)]).drop(D)
def mk_ldict(ex, fs): return ldict([(D, v1), (A, lz(v2, ex, fs)), (B, v3), (C, lz(v4, ex, fs))]).drop(D)
def tl(p, *edits):
    t = p.transient()
    for e in edits: e(t)
    q = t.persistent()
    return (q, t, q is p)
LIST = dict(
    get=lambda p: (p[0], p[-2]), slice=lambda p: p[1:3], iter=lambda p: tuple(p), hash=lambda p: hash(p), contains=lambda p: (C in p, v1 in p), index=lambda p: p.index(C),
    eq=lambda p: (p == [A, B, A, C], p == [A], p < [A, C]), append=lambda p: p.append(v1), prepend=lambda p: p.prepend(v1), set=lambda p: p.set(2, v1), delete=lambda p: p.delete(1), insert=lambda p: p.insert(2, v2), pop=lambda p: p.pop(),
    edit=lambda p: tl(p, lambda t: t.append(v1), lambda t: t.__delitem__(1), lambda t: t.prepend(v2)), edit0=lambda p: tl(p), edit1=lambda p: tl(p, lambda t: t.__setitem__(0, v3)), add=lambda p: p + [v1], prints=lambda p: (plain(repr(p)), str(p)), reversed=lambda p: tuple(reversed(p)), sort=lambda p: p.sort(), sortkey=lambda p: p.sort(key=core.negkey, reverse=True), reverse=lambda p: p.reverse(), count=lambda p: (p.count(A2), p.count(v1)), mul=lambda p: p * 2, remove=lambda p: p.remove(C), extend=lambda p: p.extend([v1, v2, v3]), radd=lambda p: [v1, v2] + p,
    deepcopy=lambda p: copy.deepcopy(p), trans=lambda p: (tuple(p.transient()), p.transient().index(C)), derive2=lambda p: (p.append(v1), p.append(v2).set(0, v3), p), edits=lambda p: tl(p, lambda t: t.sort(), lambda t: t.extend([v4, v5]), lambda t: t.pop(0)), copies=lambda p: (p.copy() is p, type(p)(p) is p))
SET = dict(
    contains=lambda p: (C in p, D in p, v1 in p), iter=lambda p: tuple(p), hash=lambda p: hash(p), eq=lambda p: (p == {A, B, C, v1}, p < {A}, {A} <= p), add=lambda p: p.add(D), add_same_hash=lambda p: p.add(syms.G).add(syms.A2),
    discard=lambda p: p.discard(B), discard_all=lambda p: p.discardall([A, B, D]), pop=lambda p: p.pop(), union=lambda p: p | {D}, inter=lambda p: p & {A, B, D}, edit=lambda p: tl(p, lambda t: t.add(D), lambda t: t.discard(A), lambda t: t.discard(v1)), edit0=lambda p: tl(p),
    edit1=lambda p: tl(p, lambda t: t.discard(B)), remove=lambda p: p.remove(C), prints=lambda p: (plain(repr(p)), str(p)), symdiff=lambda p: p ^ {A2, D}, diff=lambda p: p - {A2, D}, rdiff=lambda p: {A2, D} - p, disjoint=lambda p: (p.isdisjoint({D}), p.isdisjoint({C})), addall=lambda p: p.addall([D, B2, v2]),
    deepcopy=lambda p: copy.deepcopy(p), derive2=lambda p: (p.add(D), p.add(v2).discard(A), p), trans=lambda p: (tuple(p.transient()), C in p.transient()), edits=lambda p: tl(p, lambda t: t.update([D, v2]), lambda t: t.__isub__({A, B}), lambda t: t.remove(C)), copies=lambda p: (p.copy() is p, type(p)(p) is p))
MAP = dict(
    get=lambda p: (p[A], p.get(C), p.get(D, v5)), contains=lambda p: (B in p, D in p), iter=lambda p: tuple(p), items=lambda p: tuple(p.items()), values=lambda p: (tuple(p.values()), v4 in p.values()), hash=lambda p: hash(p), eq=lambda p: (p == {A: v2, B: v3, C: v4}, p == {}),
    set=lambda p: p.set(B, v5), set_new=lambda p: p.set(D, v5).set(A2, v5), drop=lambda p: p.drop(B), pop=lambda p: p.pop(A), popitem=lambda p: p.popitem(), update=lambda p: p.update({D: v1}), edit=lambda p: tl(p, lambda t: t.__setitem__(D, v1), lambda t: t.__delitem__(A), lambda t: t.__setitem__(B, v5)),
    edit0=lambda p: tl(p), edit1=lambda p: tl(p, lambda t: t.__delitem__(B)), dropall=lambda p: p.dropall([A, D]), prints=lambda p: (plain(repr(p)), str(p)), reversed=lambda p: (tuple(reversed(p)), tuple(reversed(p.items()))), setdefault=lambda p: (p.setdefault(A, v5), p.setdefault(D, v5)), setall=lambda p: p.setall([D, B2], [v5, v6]), initems=lambda p: ((A, v2) in p.items(), (B, v2) in p.items(), v3 in p.values()), deleteall=lambda p: p.deleteall([A, C]),
    deepcopy=lambda p: copy.deepcopy(p), derive2=lambda p: (p.set(A, v5), p.set(A, v6).drop(B), p), trans=lambda p: (tuple(p.transient().items()), p.transient().get(C)), edits=lambda p: tl(p, lambda t: t.update({D: v1, B2: v6}), lambda t: t.pop(A), lambda t: t.setdefault(v5, v6)), keysets=lambda p: (p.keys() & {A, D}, p.keys() == {A, B, C}), copies=lambda p: (p.copy() is p, type(p)(p) is p))
KINDS = dict(plist=(mk_plist, LIST), llist=(mk_llist, LIST), pset=(mk_pset, SET), pdict=(mk_pdict, MAP), ldict=(mk_ldict, MAP))
ALONE = {}
def alone(kind, op):
    r = ALONE.get((kind, op))
    if r is None:
        (mk, ops) = KINDS[kind]
        p = mk(None, [])
        r = ALONE[kind, op] = nm(ops[op](p))
    return r
def scenario(kind, names):
    (mk, ops) = KINDS[kind]
    want = [alone(kind, o) for o in names]
    whole = nm(mk(None, []))
    hs = hash(mk(None, []))
    def sc(ex):
        fs = []
        p = mk(ex, fs)
        syms.HOOK = lambda what: ex.point()
        def check(rs):
            syms.HOOK = None
            for (o, r, w) in zip(names, rs, want):
                if r[0] != 'ok': return f"{o} raised {r[1]!r}"
                g = nm(r[1])
                if g != w: return f"{o} returned {g}; alone it returns {w}"
            if nm(p) != whole: return f"the shared collection became {nm(p)}; it was {whole}"
            if hash(p) != hs: return f"the hash of the shared collection became {hash(p)}; it is {hs}"
            for f in fs:
                if f.n > 1: return f"a lazy value was computed {f.n} times"
            return None
        return [(lambda o=o: ops[o](p)) for o in names], check
    return sc
def script(kind, names):
    return lambda c: f"from mc.checks import c22\nfrom mc import sched\n(ex, e) = sched.execute(c22.scenario({kind!r}, {names!r}), {c!r})\nprint('REPRODUCED: ' + e if e else 'not reproduced')\nsys.exit(1 if e else 0)\n"
def many(rep, kind, sets, bound, part=(0, 1)):
    rep.current = None
    for names in sets:
        try: sched.explore(rep, f"{kind} {'|'.join(names)}", scenario(kind, names), bound, script(kind, names), part=part)
        finally: syms.HOOK = None
    rep.samples = rep.samples[-1:]
KEY = {'plist': ('hash', 'edit1', 'iter'), 'llist': ('hash', 'edit1', 'iter'), 'pset': ('hash', 'edit1', 'iter'), 'pdict': ('hash', 'edit1', 'items'), 'ldict': ('hash', 'edit1', 'values')}
def jobs(tier):
    th = tier != 'quick'
    js = []
    for (kind, (mk, ops)) in KINDS.items():
        k = KEY[kind]
        pairs2 = list(itertools.combinations_with_replacement(k, 2))
        for pr in pairs2:
            if pr == ('hash', 'hash') or th or pr == ('edit1', 'hash') or pr == ('hash', 'edit1'):
                n = 4 if not th else 16
                for i in range(n): js.append(FuncJob(f"{kind}/{'|'.join(pr)}/{i}", many, kind, [pr], 3 if th and pr == ('hash', 'hash') else 2, (i, n)))
        for i in range(2): js.append(FuncJob(f"{kind}/three/{i}", many, kind, [('hash', 'edit1', 'set' if 'set' in ops else 'add')], 2 if th else 1, (i, 2)))
        pairs = list(itertools.combinations_with_replacement(sorted(ops), 2))
        n = 16 if not th else 64
        for i in range(n): js.append(FuncJob(f"{kind}/pairs/{i}", many, kind, pairs[i::n], 2 if th else 1))
    return js
