"""C23: iterators over a changing transient stop with an error, never with stale data."""
import itertools
from .. import core, syms, cases, sweep as sw
from ..core import FuncJob
import pcollections as pc
TECHNIQUE = 'exhaustive enumeration of interleavings of iterator steps and edits on the real code, against a model of what each step may answer'
BOUNDS = {
    'quick': "tset, tdict, tldict, tlist and tllist from 5-7 starts each (equal hashes, removed and re-added elements, offsets, 33 elements): every sequence of 3 actions (4 from one start per kind) out of two groups of iterators being stepped, replaced and "
             "12-20 edits, then every iterator is run to its end; every iterator kind (the collection, its views, reversed) is alive at once; the persistent kinds likewise, with edits of transients made from them; "
             "one edit of about 11 after any number of steps of every iterator at 16 sizes up to 129 and in chains of equal hashes",
    'thorough': "as quick with 4 actions (5 from one start per kind)",
}
ASSUMPTIONS = ["an iterator that has not yielded anything when the collection changes may start afresh or raise RuntimeError", "keys are opaque apart from == and hash"]
RULE = "a case is one sequence of actions from one start; all are distinct, and every one runs all its iterators to their ends"
def const(x): return x
def L(x): return pc.lazy(const, x)
GLOB = core.impl_globals(dict(sw.GI, L=L))
END, ERR = object(), object()
def step(it):
    try: return next(it)
    except StopIteration: return END
    except RuntimeError: return ERR
# what an iterator of each kind shows for the model (list of keys, dict key -> value)
def keysof(t):
    "The contents by raw access: a list of (key, value) in order."
    if isinstance(t, (pc.tset, pc.pset)): return [(x, None) for x in t]
    return [(k, t[k]) for k in t]
KINDS = {
    'tset': {'iter(t)': (0, 'k')},
    'tdict': {'iter(t)': (0, 'k'), 'iter(t.keys())': (0, 'k'), 'iter(t.items())': (0, 'i'), 'iter(t.values())': (0, 'v'), 'reversed(t)': (1, 'k'), 'reversed(t.keys())': (1, 'k'), 'reversed(t.items())': (1, 'i'), 'reversed(t.values())': (1, 'v')},
}
KINDS['tldict'] = KINDS['tdict']
def shown(form, kv):
    return kv[0] if form == 'k' else kv[1] if form == 'v' else kv
def eq(a, b):
    return a is b or (type(a) is tuple and type(b) is tuple and len(a) == len(b) and all(x is y for (x, y) in zip(a, b)))
class Track:
    """One iterator and what it may do next."""
    __slots__ = ('it', 'rev', 'form', 'name', 'made', 'begun', 'order', 'pos', 'state', 'empty')
    def __init__(self, t, name, rev, form, version):
        self.it, self.rev, self.form, self.name = eval(name, {'t': t, 'reversed': reversed, 'iter': iter}), rev, form, name
        self.empty = len(t) == 0
        self.made, self.begun, self.order, self.pos, self.state = version, None, None, 0, 'live'
    def advance(self, version, content):
        "None, or what is wrong with the next answer."
        x = step(self.it)
        if self.state != 'live':        # after its end or its error: nothing is yielded
            return None if x is END or x is ERR else f"{self.name} yielded {x!r} after {self.state}"
        if self.begun is None:
            if x is ERR:
                self.state = 'an error'
                return None if version != self.made else f"{self.name} raised RuntimeError though nothing changed"
            if x is END and self.empty: self.state = 'the end'; return None      # it was empty when the iterator was made
            self.begun, self.order = version, [k for (k, _) in (content[::-1] if self.rev else content)]
        elif version != self.begun:     # changed since it began
            if x is ERR: self.state = 'an error'; return None
            if x is END:
                self.state = 'the end'
                return None if self.pos == len(self.order) else f"{self.name} ended after {self.pos} of {len(self.order)} elements without an error"
            return f"{self.name} yielded {x!r} although the membership changed after it began"
        if self.pos == len(self.order):
            if x is END: self.state = 'the end'; return None
            return f"{self.name} gave {x!r} at its end" if x is not ERR else f"{self.name} raised RuntimeError at its end though nothing changed"
        if x is ERR: return f"{self.name} raised RuntimeError though the membership did not change"
        if x is END: return f"{self.name} ended after {self.pos} of {len(self.order)} elements"
        k = self.order[self.pos]
        w = shown(self.form, (k, dict_get(content, k)))
        self.pos += 1
        return None if eq(x, w) else f"{self.name} yielded {x!r} instead of {w!r}"
def dict_get(content, k):
    for (a, b) in content:
        if a is k: return b
EDITS = {
    'tset': ["t.add(D)", "t.add(A)", "t.add(C)", "t.discard(A)", "t.discard(C)", "t.remove(B)", "r = t.pop()", "t.clear()", "t.update([A, Z])", "t |= {A}", "t &= pset([A, B])", "t ^= pset([B])", "t -= {B, D}", "q = t.persistent()", "t.discard(A); t.add(A)", "t.clear(); t.update([A, B, C])"],
    'tdict': ["t[D] = v5", "t[A] = v6", "t[A2] = v7", "t[B] = v6", "t[C] = v5", "del t[A]", "del t[C]", "r = t.pop(B, None)", "r = t.popitem()", "t.clear()", "t.update([(A, v5), (B, v5)])", "t.update({Z: v1})", "r = t.setdefault(A, v7)", "r = t.setdefault(G, v7)", "q = t.persistent()", "v = t[B]; del t[B]; t[B] = v", "t.clear(); t.update([(A, v1), (B, v2)])"],
}
EDITS['tldict'] = EDITS['tdict'] + ["t[A] = L(v4)", "r = t.ready_all()"]
SEEDS = {
    'tset': ["t = tset([A, B, C])", "t = tset([A])", "t = pset([C, A2, B, D]).transient()", "t = tset([D, B, A]); t.discard(D)", "t = tset()", "t = tset(range(33)); t.add(A)"],
    'tdict': ["t = tdict([(A, v1), (B, v2), (C, v3)])", "t = tdict({A: v1})", "t = pdict([(C, v1), (A2, v2), (B, v3), (D, v4)]).transient()", "t = tdict([(D, v1), (B, v2), (A, v3)]); del t[D]", "t = tdict()", "t = tdict([(i, v1) for i in range(33)]); t[A] = v2"],
}
SEEDS['tldict'] = ["t = tldict([(A, L(v1)), (B, v2), (C, L(v3))])", "t = tldict({A: L(v1)})", "t = ldict([(C, v1), (A2, L(v2)), (B, L(v3)), (D, v4)]).transient()", "t = tldict([(D, v1), (B, L(v2)), (A, v3)]); del t[D]", "t = tldict()"]
def case(kind, seed, acts):
    ns = {}
    core.run_stmt(seed, GLOB, ns)
    t = ns['t']
    version, content = 0, keysof(t)
    def group(): return [Track(t, n, rev, form, version) for (n, (rev, form)) in KINDS[kind].items()]
    groups = {'na': group(), 'nb': group()}
    ids = [id(k) for (k, _) in content]
    for a in acts:
        if a == 'na' or a == 'nb':
            for tr in groups[a]:
                e = tr.advance(version, content)
                if e: return f"{seed}; {'; '.join(acts)}: {e}"
        elif a == 'new': groups['nb'] = group()
        else:
            before, n = [id(k) for (k, _) in content], a.count(';')
            try:
                core.run_stmt(a, GLOB, ns)
                failed = False
            except (KeyError,): failed = True
            if ns['t'] is not t: return f"{seed}; {'; '.join(acts)}: t was rebound"
            content = keysof(t)
            now = [id(k) for (k, _) in content]
            if now != before or (n and not failed): version += 1
    for g in groups.values():
        for tr in g:
            for _ in range(len(content) + (len(tr.order) if tr.order else 0) + 3):
                e = tr.advance(version, content)
                if e: return f"{seed}; {'; '.join(acts)}; then to the end: {e}"
                if tr.state != 'live': break
            e = tr.advance(version, content)
            if e: return f"{seed}; {'; '.join(acts)}; then to the end: {e}"
    return None
def sequences(al, n, pre=('na',)):
    "All sequences of n actions; an iterator step comes first or second (others repeat a shorter start)."
    for s in itertools.product(al, repeat=n):
        if 'na' in s: yield s
# --- transient lists: every item that is yielded is in the list
LEDITS = ["t.append(D)", "t.prepend(D)", "t.insert(1, D)", "r = t.pop()", "r = t.pop(0)", "del t[1]", "t[0] = D", "t[-1] = C", "t.clear()", "t.extend([A, B])", "t.reverse()", "t.sort()", "t *= 2", "t.remove(A)", "q = t.persistent()", "t.clear(); t.extend([C, C, C])"]
LSEEDS = {'tlist': ["t = tlist([A, B, A2])", "t = plist([B, C]).prepend(A).prepend(A2).transient()", "t = plist([B]).prepend(A).prepend(C).transient()", "t = plist([A, B, C, D]).delete(0).transient()", "t = tlist([A])", "t = tlist()", "t = tlist([VALS[i % 8] for i in range(33)])"],
          'tllist': ["t = tllist([A, L(B), A2])", "t = llist([L(B), C]).prepend(L(A)).prepend(A2).transient()", "t = llist([A, B, L(C), D]).delete(0).transient()", "t = tllist([L(A)])", "t = tllist()"]}
def listcase(kind, seed, acts):
    ns = {}
    core.run_stmt(seed, GLOB, ns)
    t = ns['t']
    fresh = lambda: {'iter(t)': [iter(t), [], 0], 'reversed(t)': [reversed(t), [], 0]}
    groups = {'na': fresh(), 'nb': fresh()}
    version = 0
    made = {'na': 0, 'nb': 0}
    start = {'na': [t[i] for i in range(len(t))]}
    start['nb'] = start['na']
    dead = set()
    def adv(g, end=False):
        cur = [t[i] for i in range(len(t))]
        for (n, tr) in groups[g].items():
            if (g, n) in dead: continue
            try: x = next(tr[0])
            except StopIteration: x = END
            except (RuntimeError, LookupError): x = ERR
            if version == made[g]:      # nothing changed: exactly the items in order
                w = start[g] if n == 'iter(t)' else start[g][::-1]
                if x is ERR: return f"{n} raised an error though nothing changed"
                if x is END:
                    if tr[2] != len(w): return f"{n} ended after {tr[2]} of {len(w)} items"
                    dead.add((g, n)); continue
                if tr[2] >= len(w) or x is not w[tr[2]]: return f"{n} yielded {x!r} as item {tr[2]} of {w}"
            elif x is END or x is ERR: dead.add((g, n)); continue
            elif not any(x is y for y in cur): return f"{n} yielded {x!r}, which is not in the list {cur}"
            tr[2] += 1
    for a in acts:
        if a == 'na' or a == 'nb':
            e = adv(a)
            if e: return f"{seed}; {'; '.join(acts)}: {e}"
        elif a == 'new':
            groups['nb'] = fresh(); made['nb'] = version; start['nb'] = [t[i] for i in range(len(t))]
            dead -= {('nb', 'iter(t)'), ('nb', 'reversed(t)')}
        else:
            try: core.run_stmt(a, GLOB, ns)
            except (LookupError, ValueError): pass
            if ns['t'] is not t: return f"{seed}; {'; '.join(acts)}: t was rebound"
            if a != 'q = t.persistent()': version += 1
    for g in groups:
        for _ in range(200):
            e = adv(g)
            if e: return f"{seed}; {'; '.join(acts)}; then to the end: {e}"
            if {(g, n) for n in groups[g]} <= dead: break
        else: return f"{seed}; {'; '.join(acts)}: an iterator does not end"
    return None
# --- persistent collections: nothing disturbs an iteration
PITS = {'pset': ['iter(p)'], 'plist': ['iter(p)', 'reversed(p)'], 'pdict': ['iter(p)', 'iter(p.keys())', 'iter(p.items())', 'iter(p.values())', 'reversed(p.keys())', 'reversed(p.items())', 'reversed(p.values())']}
PITS['llist'] = PITS['plist']; PITS['ldict'] = PITS['pdict']
PEDITS = {'pset': ["t = p.transient()", "t.add(D)", "t.discard(A)", "t.clear()", "t.update([Z, C])", "q = t.persistent()", "q = p.add(D)", "q = p.discard(B)", "r = p.pop()", "q = p | {Z}", "t = tset(p)", "q = pset(t)", "r = hash(p)", "del t"],
          'plist': ["t = p.transient()", "t.append(D)", "t[0] = D", "del t[0]", "t.prepend(C)", "t.clear()", "q = t.persistent()", "q = p.append(D)", "q = p.prepend(D)", "q = p.delete(0)", "q = p.set(1, D)", "q = p.insert(1, D)", "r = hash(p)", "t = tlist(p)", "q = p + p", "t.sort()"],
          'pdict': ["t = p.transient()", "t[D] = v5", "t[A] = v6", "del t[B]", "t.clear()", "t.update([(C, v5)])", "q = t.persistent()", "q = p.set(D, v5)", "q = p.set(A, v6)", "q = p.drop(B)", "r = p.popitem()", "r = p.pop(A)", "t = tdict(p)", "r = hash(p)", "q = p.update({A: v7, Z: v7})"]}
PEDITS['llist'] = PEDITS['plist'] + ["r = p.ready_all()", "t = tllist(p)", "q = p.set(0, L(D))"]
PEDITS['ldict'] = PEDITS['pdict'] + ["r = p.ready_all()", "t = tldict(p)", "q = p.set(B, L(D))"]
PSEEDS = {'pset': ["p = pset([A, B, C])", "p = pset([D, B, A, C]).discard(D)", "p = tset([B, A]).persistent()"],
          'plist': ["p = plist([A, B, A2])", "p = plist([B, C]).prepend(A).prepend(A2)", "p = tlist([C, A, B]).persistent().delete(0)"],
          'pdict': ["p = pdict([(A, v1), (B, v2), (C, v3)])", "p = pdict([(D, v1), (B, v2), (A, v3), (C, v3)]).drop(D)", "p = tdict([(B, v1), (A, v2)]).persistent()"],
          'llist': ["p = llist([L(A), B, L(A2)])", "p = llist([L(B), C]).prepend(A).prepend(L(A2))"],
          'ldict': ["p = ldict([(A, L(v1)), (B, v2), (C, L(v3))])", "p = ldict([(D, v1), (B, L(v2)), (A, L(v3)), (C, v3)]).drop(D)"]}
def pcase(kind, seed, acts):
    ns = {}
    core.run_stmt(seed, GLOB, ns)
    p = ns['p']
    ref = {n: None for n in PITS[kind]}
    env_ = {'p': p, 'iter': iter, 'reversed': reversed}
    its = {g: {n: [eval(n, env_), []] for n in PITS[kind]} for g in ('na', 'nb')}
    for a in acts:
        if a == 'na' or a == 'nb':
            for (n, tr) in its[a].items():
                try: x = next(tr[0])
                except StopIteration: continue
                except Exception as e: return f"{seed}; {'; '.join(acts)}: {n} raised {e!r}"
                tr[1].append(x)
        elif a == 'new': its['nb'] = {n: [eval(n, env_), []] for n in PITS[kind]}
        else:
            try: core.run_stmt(a, GLOB, ns)
            except (LookupError, NameError, TypeError, AttributeError): pass
    for g in its:
        for (n, tr) in its[g].items():
            try: tr[1] += list(tr[0])
            except Exception as e: return f"{seed}; {'; '.join(acts)}; then to the end: {n} raised {e!r}"
            m = {}
            core.run_stmt(seed, GLOB, m)
            want = list(eval(n, dict(env_, p=m['p'])))
            if len(tr[1]) != len(want) or not all(eq(x, y) for (x, y) in zip(tr[1], want)): return f"{seed}; {'; '.join(acts)}; then to the end: {n} gave {tr[1]} instead of {want}"
    return None
FN = {'case': case, 'listcase': listcase, 'pcase': pcase}
def sweep(rep, fn, kind, seed, al, n, first):
    f = FN[fn]
    for rest in itertools.product(al, repeat=n - 1):
        acts = (first,) + rest
        if 'na' not in acts: continue
        core.tick()
        rep.current = cases.script('c23:' + fn, kind, seed, acts)
        try: e = f(kind, seed, acts)
        except Exception as x:
            if not core.from_library(x): raise
            e = f"unexpected {type(x).__name__}: {x}"
        rep.case(key=(kind, seed, acts), sample=f"{seed}; {'; '.join(acts)}")
        if e:
            rep.violation(e, rep.current, key=f"{kind}|{acts}")
def jobs(tier):
    th = tier != 'quick'
    js = []
    step_ = ['na', 'nb', 'new']
    for (fn, kinds, seeds, edits) in (('case', ('tset', 'tdict', 'tldict'), SEEDS, EDITS), ('listcase', ('tlist', 'tllist'), LSEEDS, {'tlist': LEDITS, 'tllist': LEDITS + ['t[0] = L(D)']}),
                                      ('pcase', ('pset', 'plist', 'pdict', 'llist', 'ldict'), PSEEDS, PEDITS)):
        for k in kinds:
            for (i, s) in enumerate(seeds[k]):
                al = step_ + edits[k]
                n = (5 if i == 0 else 4) if th else (4 if i == 2 - (k == 'ldict' or k == 'llist') else 3)
                for f in al: js.append(FuncJob(f'{k}/{s}/{f}', sweep, fn, k, s, al, n, f))
    # one edit after any number of steps, at many sizes
    sz = tuple(range(4, 41)) + (48, 63, 64, 65, 72, 129) if th else (5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 34, 40, 64, 65, 129)
    for (fn, kind, mk) in (('case', 'tset', ("tset(ES[:%d])", "sdisc(pset, ES[:%d]).transient()", "tset(CH[:%d])")), ('case', 'tdict', ("tdict(SV(%d))", "ddisc(pdict, SV(%d)).transient()", "tdict([(x, v1) for x in CH[:%d]])")), ('case', 'tldict', ("ldict(LV(%d)).transient()",)),
                           ('listcase', 'tlist', ("tlist(ES[:%d])", "strad(plist, ES[:%d]).transient()", "pre(plist, ES[:%d]).transient()")), ('listcase', 'tllist', ("strad(llist, LS(%d)).transient()",))):
        if fn == 'listcase': edits = ["t.append(D)", "t.prepend(D)", "r = t.pop()", "del t[0]", "t[len(t) // 2] = D", "t.insert(len(t) // 2, D)", "t.clear()", "t.reverse()", "t *= 2", "q = t.persistent()", "del t[len(t) // 2]"]
        elif kind == 'tset': edits = ["t.add(D)", "t.discard(next(iter(t)))", "t.discard(list(t)[-1])", "t.discard(list(t)[len(t) // 2])", "t.clear()", "r = t.pop()", "q = t.persistent()", "x = list(t)[-1]; t.discard(x); t.add(x)", "t.add(list(t)[0])", "t ^= {A}"]
        else: edits = ["t[D] = v5", "del t[next(iter(t))]", "del t[list(t)[-1]]", "del t[list(t)[len(t) // 2]]", "t.clear()", "r = t.popitem()", "q = t.persistent()", "x = list(t)[-1]; y = t.pop(x); t[x] = y", "t[list(t)[0]] = v7", "t[list(t)[-1]] = v7", "t.update([(list(t)[1], v7)])"]
        for m in mk:
            cs = [(kind, f"t = {m % n}", ('na',) * j + (e,)) for n in sz if 'CH' not in m or n <= 33 for j in (range(n + 2) if n <= 40 else (0, 1, 2, n // 2, n - 2, n - 1, n, 31, 32, 33)) for e in edits]
            js += cases.chunks(f'{kind}-sizes', 'c23:' + fn, FN[fn], cs, 12)
    return js
