"""C17: lazy values are evaluated only when requested."""
from .. import core, syms, cases, sweep
from ..core import Space, split, NAMES, register
from pcollections import lazy, llist, ldict, tllist, tldict, plist, tlist, pdict, tdict, holdlazy
BOUNDS = {
    'quick': "llist, tllist, ldict, tldict over lazy and plain items: all histories of <= 3 constructions, conversions, edits, slices and reads from 4-6 starts per kind; after every step the number of times each lazy value's function ran is compared to the reference, and in "
             "every state len, str, repr (persistent kinds), is_lazy, is_ready, getlazy, holdlazy/as_* are taken without any evaluation; "
             "about 60 operations per kind on every representation of lists and dicts of 0-40, 63-65, 129 and 1025 items of which some are waiting, some evaluated and some plain; "
             "holdlazy with every form of require_lazy on every collection kind, 22 plain objects and user objects whose __holdlazy__ is absent, inherited, given by the class, the instance or __getattr__, and returns or raises each of 10 things",
    'thorough': "as quick with histories of <= 4 steps",
}
ASSUMPTIONS = ["lazy values are distinguished by identity"]
RULE = "a case is one operation on one representation of one size; distinct by construction"
NL = 5
CUR = []            # the lazy objects of this execution
CALLS = []          # how often the library made each compute
EV = set()          # what the reference has evaluated
VALUE = [syms.v0, syms.v1, syms.v2, syms.v3, syms.v4]
def compute(i):
    CALLS[i] += 1
    return VALUE[i]
def fresh():
    for x in CUR: NAMES.pop(id(x), None)
    CUR[:] = [register(lazy(compute, i), f'X{i}') for i in range(NL)]
    CALLS[:] = [0] * NL
    EV.clear()
def X(i): return CUR[i]
def rd(x):
    "Reads an item in the reference: evaluates it if it is lazy."
    if type(x) is lazy:
        i = next(i for (i, y) in enumerate(CUR) if y is x)
        EV.add(i)
        return VALUE[i]
    return x
def val(x):
    "The value, without evaluating."
    return VALUE[next(i for (i, y) in enumerate(CUR) if y is x)] if type(x) is lazy else x
class RL(list):
    "A reference list of the raw items; compares with the raw items of the library's."
    def __same__(self, a):
        if isinstance(a, tllist): return type(a) is tllist and len(a) == len(self) and all(a.getlazy(i) is x for (i, x) in enumerate(self))
        return type(a) is llist and [id(x) for x in holdlazy(a)] == [id(x) for x in self] and type(a.as_plist()) is plist
class RD(dict):
    def __same__(self, a):
        if type(a) not in (ldict, tldict): return False
        h = holdlazy(a)
        return type(h) is (pdict if type(a) is ldict else tdict) and [(id(k), id(v)) for (k, v) in h.items()] == [(id(k), id(v)) for (k, v) in self.items()] and list(map(id, a)) == list(map(id, self))
def calls(): return list(CALLS)
def evs(): return [1 if i in EV else 0 for i in range(NL)]
def quiet_l(p):
    "Everything that must not evaluate, on a list."
    n = len(p)
    h = holdlazy(p)
    out = [n, bool(p)]
    if type(p) is llist:
        out += [[p.is_lazy(i) for i in range(-n, n)], [p.is_ready(i) for i in range(-n, n)], str(p).count('<lazy>') if n <= 4 else 0, type(repr(p)) is str, list(p.as_plist()) == list(h)]
    out += [[p.getlazy(i) for i in range(-n, n)]]
    return out
def quiet_lm(p):
    n = len(p)
    out = [n, bool(p)]
    rdy = [type(x) is not lazy or CUR.index(x) in EV for x in p]
    if MODE[0] == 'llist': out += [[type(x) is lazy for x in p] * 2, rdy * 2, sum(type(x) is lazy for x in p) if n <= 4 else 0, True, True]
    return out + [[x for x in p] * 2]
MODE = ['llist']
KEYS = (syms.A, syms.B, syms.C, syms.D)
def quiet_d(p):
    out = [len(p), list(p), list(p.keys()), [k in p for k in KEYS], [p.getlazy(k) for k in KEYS], [p.getlazy(k, 5) for k in KEYS], str(p).count('<lazy>') if len(p) <= 3 else 0, type(repr(p)) is str]
    out += [[(p.is_lazy(k), p.is_ready(k)) for k in p], [len(p.keys()), len(p.items()), len(p.values())]]
    return out
def quiet_dm(p):
    return [len(p), list(p), list(p), [k in p for k in KEYS], [p.get(k) for k in KEYS], [p.get(k, 5) for k in KEYS], sum(type(x) is lazy for x in p.values()) if len(p) <= 3 else 0, True,
            [(type(x) is lazy, type(x) is not lazy or CUR.index(x) in EV) for x in p.values()], [len(p)] * 3]
def first(p):
    return rd(p[0]) if p else None
def upto(p, v):
    "Reads items until one equals v."
    for x in p:
        y = rd(x)
        if y is v or y == v: return True
    return False
def take_first(p):
    if not p: raise KeyError()
    k = next(iter(p))
    return (k, rd(p.pop(k)))
def first_item(p):
    for k in p: return (k, rd(p[k]))
def rev(l):
    return [rd(x) for x in reversed(l)]
def gi(kind):
    def g():
        MODE[0] = kind
        return dict(X=X, calls=calls, quiet=quiet_l if 'list' in kind else quiet_d)
    return g
def gm(): return dict(X=X, evs=evs, calls=evs, rd=rd, RL=RL, RD=RD, first=first, upto=upto, take_first=take_first, first_item=first_item, rev=rev, quiet=quiet_lm, quiet_d=quiet_dm, val=val)
def lops():
    o = []
    for i in (0, 1, -1, 5):
        o += [(f"r = p[{i}]", f"r = rd(p[{i}])"), (f"p = p.set({i}, X(3))", f"p[{i}] = X(3)"), (f"p = p.insert({i}, X(2))", f"p.insert({i}, X(2))"), (f"p = p.delete({i})", f"del p[{i}]"), (f"p = p.drop({i})", f"l_drop(p, {i})"),
              (f"(r, p) = p.pop({i})", f"r = rd(p.pop({i}))")]
    o += [("p = p.append(X(3))", "p.append(X(3))"), ("p = p.append(A)", "p.append(A)"), ("p = p.prepend(X(2))", "p.insert(0, X(2))"), ("p = p.extend([X(3), A])", "p.extend([X(3), A])"), ("p = p.extend(())", "ok()"), ("p = p + [X(4)]", "p.append(X(4))"), ("p = [X(4), A] + p", "p = RL([X(4), A] + p)"),
          ("p += [X(2)]", "p.append(X(2))"), ("p = p * 0", "p = RL()"), ("p = p * 1", "ok()"), ("p = p.clear()", "p = RL()"), ("p = p.copy()", "ok()"), ("p = p.extend(plist([X(3)]))", "p.append(X(3))"), ("p = p.extend(gen([X(3)]))", "p.append(X(3))"),
          ("p = p + plist([X(3)])", "p.append(X(3))")]
    for s in ("1:", ":-1", "::-1", "::2", "1:2", "5:"): o.append((f"p = p[{s}]", f"p = RL(p[{s}])"))
    o += [("p = p.transient().persistent()", "ok()"), ("p = llist(p.transient())", "ok()"), ("p = llist(tllist(p))", "ok()"), ("p = llist(p.as_plist())", "ok()"), ("p = llist(holdlazy(p))", "ok()"), ("p = llist(list(holdlazy(p)))", "ok()"), ("p = llist(p.as_plist().transient())", "ok()"),
          ("p = llist(tllist(p.as_plist()))", "ok()"), ("p = llist(gen(p.as_plist()))", "ok()"), ("p = llist(tuple(p.as_plist()))", "ok()"), ("p = llist(p)", "ok()"), ("p = tllist(p).persistent()", "ok()"), ("p = p.transient().copy().persistent()", "ok()"), ("p = p.transient()[1:].persistent()", "p = RL(p[1:])"),
          ("_t = p.transient(); _t.append(X(3)); _t.prepend(X(2)); _t[1] = X(4); p = _t.persistent()", "p.append(X(3)); p.insert(0, X(2)); p[1] = X(4)"), ("_t = p.transient(); _t.insert(1, X(2)); del _t[0]; p = _t.persistent()", "p.insert(1, X(2)); del p[0]"),
          ("_t = p.transient(); _t.extend([X(3)]); _t += [A]; p = llist(_t)", "p += [X(3), A]"), ("_t = p.transient(); _t.append(A); _t.clear(); _t.append(X(1)); p = _t.persistent()", "p = RL([X(1)])"), ("_t = tllist([X(0)]); _t.append(X(1)); p = _t.persistent()", "p = RL([X(0), X(1)])"),
          ("r = next(iter(p), None)", "r = first(p)"), ("r = p.transient()[0]", "r = rd(p[0])"), ("r = list(p)", "r = [rd(x) for x in p]"), ("r = list(p.transient())", "r = [rd(x) for x in p]"), ("r = list(reversed(p))", "r = rev(p)"),
          ("r = next(reversed(p), None)", "r = rd(p[-1]) if p else None"), ("r = v0 in p", "r = upto(p, v0)"), ("r = A in p", "r = upto(p, A)"), ("hash(p); hash(p)", "rev(p)"), ("r = p == list(p)", "rev(p); r = True"), ("r = p == [1]", "r = len(p) == 1 and rd(p[0]) == 1"), ("r = p == p", "r = True"),
          ("r = p == p.append(A)", "r = False"), ("r = p.ready_all() is p", "r = rev(p) is not None"), ("_q = plist(p)", "rev(p)"), ("r = p != 5", "r = True"), ("r = p.getlazy(0)", "r = p[0]"), ("r = p.count(v1)", "rev(p); r = sum(1 for x in p if val(x) is v1)"), ("(r, p) = p.pop()", "r = rd(p.pop())"),
          ("r = tuple(x for (_, x) in zip((1, 2), p))", "r = tuple(rd(x) for x in p[:2])"), ("p = p.transient().getlazy(0)" if 0 else "r = p.transient().getlazy(-1)", "r = p[-1]")]
    return o
def tlops():
    o = []
    for i in (0, 1, -1, 5):
        o += [(f"r = t[{i}]", f"r = rd(t[{i}])"), (f"t[{i}] = X(3)", f"t[{i}] = X(3)"), (f"t.insert({i}, X(2))", f"t.insert({i}, X(2))"), (f"del t[{i}]", f"del t[{i}]"), (f"r = t.pop({i})", f"r = rd(t.pop({i}))")]
    o += [("t.append(X(3))", "t.append(X(3))"), ("t.append(A)", "t.append(A)"), ("t.prepend(X(2))", "t.insert(0, X(2))"), ("t.extend([X(3), A])", "t.extend([X(3), A])"), ("t += [X(4)]", "t.append(X(4))"), ("t.clear()", "t.clear()"), ("t = t.copy()", "ok()"), ("t = t + [X(4)]", "t.append(X(4))"), ("t = [X(4)] + t", "t.insert(0, X(4))"),
          ("t = t.persistent().transient()", "ok()"), ("t = tllist(t)", "ok()"), ("t = tllist(llist(t))", "ok()"), ("t = tllist(t.persistent().as_plist())", "ok()"), ("t = tllist(tlist(t.persistent().as_plist()))", "ok()"), ("t = t[1:]", "t = RL(t[1:])"), ("t = t[::-1]", "t = RL(t[::-1])"),
          ("r = next(iter(t), None)", "r = first(t)"), ("r = list(t)", "r = [rd(x) for x in t]"), ("r = t.pop()", "r = rd(t.pop())"), ("r = v1 in t", "r = upto(t, v1)"), ("r = t == []", "r = not t"), ("r = t.getlazy(0)", "r = t[0]"), ("t *= 1", "ok()"), ("t *= 0", "t.clear()"), ("_q = t.persistent(); _q.append(X(4)); _q = llist(t)", "ok()")]
    return o
def dops():
    o = []
    for k in ('A', 'B', 'C'):
        o += [(f"r = p[{k}]", f"r = rd(p[{k}])"), (f"r = p.get({k})", f"r = rd(p.get({k}))"), (f"p = p.set({k}, X(3))", f"p[{k}] = X(3)"), (f"p = p.drop({k})", f"p.pop({k}, None)"), (f"p = p.delete({k})", f"del p[{k}]"), (f"(r, p) = p.pop({k})", f"r = rd(p.pop({k}))"), (f"(r, p) = p.pop({k}, 5)", f"r = rd(p.pop({k}, 5))"),
              (f"p = p.setdefault({k}, X(4))", f"p.setdefault({k}, X(4))"), (f"r = p.getlazy({k})", f"r = p.get({k})"), (f"r = ({k}, v1) in p.items()", f"r = {k} in p and rd(p[{k}]) is v1")]
    o += [("p = p.update({B: X(3), D: A})", "p.update({B: X(3), D: A})"), ("p = p.update([(C, X(3))])", "p.update([(C, X(3))])"), ("p = p.update(x=X(4))", "p.update(x=X(4))"), ("p = p.setall([A, C], [X(2), X(3)])", "p.update({A: X(2), C: X(3)})"), ("p = p.dropall([A, D])", "p.pop(A, None); p.pop(D, None)"),
          ("p = p.deleteall([A])", "del p[A]"), ("p = p.update(pdict({A: X(4)}))", "p[A] = X(4)"), ("(r, p) = p.popitem()", "r = take_first(p)"), ("p = p.clear()", "p = RD()"), ("p = p.copy()", "ok()"), ("p = p.update()", "ok()"),
          ("p = p.transient().persistent()", "ok()"), ("p = ldict(p.transient())", "ok()"), ("p = ldict(tldict(p))", "ok()"), ("p = ldict(p.as_pdict())", "ok()"), ("p = ldict(holdlazy(p))", "ok()"), ("p = ldict(dict(holdlazy(p)))", "ok()"), ("p = ldict(list(holdlazy(p).items()))", "ok()"),
          ("p = ldict(holdlazy(p.transient()))", "ok()"), ("p = ldict(p.transient().as_tdict())", "ok()"), ("p = ldict(p, x=X(4))", "p['x'] = X(4)"), ("p = ldict(p)", "ok()"), ("p = tldict(p).copy().persistent()", "ok()"), ("p = ldict(p.as_pdict().items())", "ok()"), ("p = ldict(tdict(p.as_pdict()))", "ok()"),
          ("_t = p.transient(); _t[A] = X(3); _t[D] = X(2); _t.pop(B, None) if B not in _t else _t.__delitem__(B); p = _t.persistent()", "p[A] = X(3); p[D] = X(2); p.pop(B, None)"), ("_t = p.transient(); _t.update({A: X(1)}); _t.setdefault(D, X(2)); p = ldict(_t)", "p.update({A: X(1)}); p.setdefault(D, X(2)) if D not in p else rd(p[D])"),
          ("r = next(iter(p.values()), None)", "r = rd(next(iter(p.values()), None))"), ("r = next(iter(p.items()), None)", "r = first_item(p)"), ("r = list(p.values())", "r = [rd(x) for x in p.values()]"), ("r = list(p.items())", "r = [(k, rd(x)) for (k, x) in p.items()]"),
          ("r = list(p)", "r = list(p)"), ("hash(p); hash(p)", "[rd(x) for x in p.values()]"), ("r = p == dict(p.items())", "[rd(x) for x in p.values()]; r = True"), ("r = p == p", "[rd(x) for x in p.values()]; r = True"), ("r = p.ready_all() is p", "[rd(x) for x in p.values()]; r = True"), ("_q = pdict(p)", "[rd(x) for x in p.values()]"),
          ("r = D in p", "r = D in p"), ("r = p.keys() & {A, D}; r = len(r)", "r = len(p.keys() & {A, D})")]
    return [x for x in o if x[0] != "r = p == p"]
def tdops():
    o = []
    for k in ('A', 'B', 'C'):
        o += [(f"r = t[{k}]", f"r = rd(t[{k}])"), (f"r = t.get({k})", f"r = rd(t.get({k}))"), (f"t[{k}] = X(3)", f"t[{k}] = X(3)"), (f"del t[{k}]", f"del t[{k}]"), (f"r = t.pop({k})", f"r = rd(t.pop({k}))"), (f"r = t.pop({k}, 5)", f"r = rd(t.pop({k}, 5))"), (f"r = t.getlazy({k})", f"r = t.get({k})"),
              (f"t.setdefault({k}, X(4))", f"rd(t[{k}]) if {k} in t else t.setdefault({k}, X(4))"), (f"r = ({k}, v1) in t.items()", f"r = {k} in t and rd(t[{k}]) is v1")]
    o += [("t.update({B: X(3), D: A})", "t.update({B: X(3), D: A})"), ("t.update([(C, X(3))], x=X(4))", "t.update([(C, X(3))], x=X(4))"), ("r = t.popitem()", "r = take_first(t)"), ("t.clear()", "t.clear()"), ("t = t.copy()", "ok()"), ("t = t.persistent().transient()", "ok()"), ("t = tldict(t)", "ok()"), ("t = tldict(t, x=X(4))" if 0 else "t = tldict(ldict(t))", "ok()"),
          ("t = tldict(t.as_tdict())", "ok()"), ("t = tldict(holdlazy(t))", "ok()"), ("t = tldict(holdlazy(t).persistent())", "ok()"), ("t = tldict(list(holdlazy(t).items()))", "ok()"), ("r = next(iter(t.values()), None)", "r = rd(next(iter(t.values()), None))"), ("r = list(t.items())", "r = [(k, rd(x)) for (k, x) in t.items()]"), ("r = list(t)", "r = list(t)"),
          ("t.ready_all()", "[rd(x) for x in t.values()]"), ("_q = t.persistent(); _q.set(A, X(4)); _q = ldict(t)", "ok()"), ("r = t == {}", "r = not t")]
    return o
# ---- many lazy values ----------------------------------------------------------------------------------
# every n-th item is plain, evaluated before, or waiting; (operation, which items it evaluates: indices, 'all' or ())
BIG_L = [("len(p), bool(p)", ()), ("str(p), repr(p)", ()), ("[p.is_lazy(i) for i in range(n)]", ()), ("[p.is_ready(i) for i in range(-n, n)]", ()), ("[p.getlazy(i) for i in range(n)]", ()), ("holdlazy(p)", ()), ("p.as_plist()", ()), ("list(p.as_plist())", ()),
         ("p.append(A)", ()), ("p.prepend(A)", ()), ("p.insert(n // 2, A)", ()), ("n and p.set(n // 2, A)", ()), ("n and p.delete(n // 2)", ()), ("p.drop(n // 2)", ()), ("n and p.delete(0)", ()), ("n and p.delete()", ()), ("p[1:]", ()), ("p[::-1]", ()), ("p[::2]", ()), ("p[n // 3:n // 2]", ()),
         ("p.transient()", ()), ("p.transient().copy()", ()), ("p.copy()", ()), ("p.transient().persistent()", ()), ("llist(p)", ()), ("llist(p.as_plist())", ()), ("tllist(p)", ()), ("llist(tllist(p))", ()), ("llist(list(holdlazy(p)))", ()), ("p + [A]", ()), ("[A] + p", ()), ("p.extend([A])", ()), ("p.clear()", ()),
         ("(lambda t: (t.append(A), t.prepend(A), t.insert(n // 2, A), t.__setitem__(0, A), t.__delitem__(n // 2), t.persistent()))(p.transient())", ()), ("p.transient()[1:]", ()), ("p.transient()[::-1].persistent()", ()), ("p * 1, p * 0", ()), ("p == [], p == [A] * (n + 1) and 0", None),
         ("n and p[0]", 'first'), ("n and p[-1]", 'last'), ("n and p[n // 2]", 'mid'), ("next(iter(p), 0)", 'first'), ("next(reversed(p), 0)", 'last'), ("n and p.pop(0)", 'first'), ("n and p.pop()", 'last'), ("n and p.transient()[n // 2]", 'mid'), ("n and p.transient().pop()", 'last'),
         ("p.ready_all()", 'all'), ("list(p)", 'all'), ("hash(p), hash(p)", 'all'), ("plist(p)", 'all'), ("p == list(p)", 'all'), ("list(reversed(p))", 'all'), ("p.count(A)", 'all'), ("A in p", 'all'), ("tuple(p.transient())", 'all'), ("tlist(p)", 'all'), ("p.ready_all(), list(p), hash(p), p.ready_all()", 'all')]
BIG_D = [("len(p), bool(p), list(p), list(p.keys())", ()), ("str(p), repr(p)", ()), ("[(p.is_lazy(k), p.is_ready(k), p.getlazy(k)) for k in p]", ()), ("holdlazy(p)", ()), ("p.as_pdict()", ()), ("list(p.as_pdict().items())", ()), ("[k in p for k in ES[:n]]", ()), ("D in p, p.get(D), p.drop(D)", ()),
         ("p.set(A, 1)", ()), ("n and p.set(k0, 1)", ()), ("n and p.drop(k0)", ()), ("n and p.delete(km)", ()), ("p.update({A: 1})", ()), ("p.update([(A, 1), (D, 2)], x=5)", ()), ("p.dropall([A, D])", ()), ("p.transient()", ()), ("p.transient().copy()", ()), ("p.copy()", ()), ("p.transient().persistent()", ()),
         ("ldict(p)", ()), ("ldict(p.as_pdict())", ()), ("tldict(p)", ()), ("ldict(tldict(p))", ()), ("ldict(dict(holdlazy(p)))", ()), ("p.clear()", ()), ("p.setdefault(A, 5)", ()), ("p.transient().as_tdict()", ()), ("holdlazy(p.transient())", ()), ("len(p.items()), len(p.values())", ()),
         ("(lambda t: (t.__setitem__(A, 1), t.__delitem__(next(iter(t))), t.update({D: 1}), t.setdefault(B, 1), t.persistent()))(p.set(C, 1).transient())", ()), ("reversed(p), list(reversed(p)), list(reversed(p.keys()))", ()), ("p.keys() & {A}, p.keys() == set()", ()),
         ("n and p[k0]", 'first'), ("n and p[km]", 'mid'), ("n and p.get(kl)", 'last'), ("next(iter(p.values()), 0)", 'first'), ("next(iter(p.items()), 0)", 'first'), ("next(reversed(p.values()), 0)", 'last'), ("next(reversed(p.items()), 0)", 'last'), ("n and p.pop(km)", 'mid'), ("n and p.popitem()", None), ("n and p.transient()[km]", 'mid'), ("n and (km, 5) in p.items()", 'mid'),
         ("p.ready_all()", 'all'), ("list(p.values())", 'all'), ("list(p.items())", 'all'), ("hash(p), hash(p)", 'all'), ("pdict(p)", 'all'), ("p == dict(p.items())", 'all'), ("dict(p)", 'all'), ("5 in p.values()", 'all'), ("tdict(p)", 'all'), ("p.transient().ready_all()", 'all'), ("list(reversed(p.items()))", 'all'), ("p.ready_all(), list(p.items()), hash(p), p.ready_all()", 'all')]
BG = core.impl_globals(sweep.GI)
def big_case(kind, build, n, op, which):
    "The items that evaluating op evaluates."
    cnt = [0] * n
    def f(i):
        cnt[i] += 1
        return syms.ES[i + 1]
    items = [(lambda l: l)(lazy(f, i)) if i % 4 != 1 else syms.ES[i + 1] for i in range(n)]
    for i in range(0, n, 3):
        if type(items[i]) is lazy: items[i]()
    base = list(cnt)
    wait = [i for i in range(n) if type(items[i]) is lazy and not base[i]]
    d = dict(BG, xs=items if kind == 'llist' else [(syms.ES[i], x) for (i, x) in enumerate(items)], n=n)
    d['p'] = p = eval(build, d)
    if n: d.update(k0=syms.ES[0], km=syms.ES[n // 2], kl=syms.ES[n - 1])
    if cnt != base: return f"{build} of {n} items evaluates items {[i for i in range(n) if cnt[i] != base[i]][:9]}"
    o = cases.attempt(lambda: eval(op, d))
    if o[0] == 'exc': return f"{op} with p = {build} of {n} items raised {o[1]}"
    if any(x > 1 for x in cnt): return f"{op} with p = {build} of {n} items evaluates items {[i for i in range(n) if cnt[i] > 1][:9]} more than once"
    got = [i for i in range(n) if cnt[i] != base[i]]
    if which is None:
        if len(got) > 1: return f"{op} with p = {build} of {n} items evaluates {got[:9]}"
        return None
    want = set(wait) if which == 'all' else set(wait) & {'first': {0}, 'last': {n - 1}, 'mid': {n // 2}}[which] if which else set()
    if set(got) != want: return f"{op} with p = {build} of {n} items evaluates {got[:9]}; specified: {sorted(want)[:9]}"
    return None
# ---- holdlazy and __holdlazy__ of any object ---------------------------------------------------------
class Odd(Exception): pass
def user_object(beh, where):
    "An object with a __holdlazy__ of the given behaviour (none: 'absent') defined on the class, the instance or through __getattr__."
    log = []
    ret = [syms.v1]
    def run():
        log.append(1)
        if beh == 'value': return ret
        if beh == 'none': return None
        if beh == 'waiting': return lazy(log.append, 2)
        if beh == 'nested': return holdlazy(object(), require_lazy=True)
        raise {'attr': AttributeError, 'type': TypeError, 'value_error': ValueError, 'key': KeyError, 'odd': Odd, 'lazy': type_lazy_error}[beh]('inner')
    class T: pass
    if beh == 'absent': pass
    elif beh == 'notcallable': T.__holdlazy__ = 5
    elif where == 'class': T.__holdlazy__ = lambda self: run()
    elif where == 'inherited':
        class B: pass
        B.__holdlazy__ = lambda self: run()
        class T(B): pass
    elif where == 'getattr':
        def ga(self, nm):
            if nm == '__holdlazy__': return run
            raise AttributeError(nm)
        T.__getattr__ = ga
    o = T()
    if where == 'instance' and beh not in ('absent', 'notcallable'): o.__holdlazy__ = run
    return o, log, ret
from pcollections._lazy import LazyError as type_lazy_error
HOLD_BEH = ('absent', 'value', 'none', 'waiting', 'nested', 'attr', 'type', 'value_error', 'key', 'odd', 'lazy', 'notcallable')
PLAIN = ("5", "None", "'a'", "object()", "[1]", "{1: 2}", "(1,)", "{1}", "lazy(lambda: 1)", "plist([1])", "plist([lazy(lambda: 1)])", "tlist([1])", "pset([1])", "tset([1])", "pdict({1: 2})", "pdict({1: lazy(lambda: 1)})", "tdict({1: 2})", "iter([1])", "pdict", "lazy", "len", "pdict({1: 2}).items()")
LAZIES = ("llist([1])", "llist([])", "llist([lazy(lambda: 1)])", "ldict({})", "ldict({1: 2})", "ldict({1: lazy(lambda: 1)})", "tldict({})", "tldict({1: lazy(lambda: 1)})")
def hold_case(kind, a, b, how):
    "holdlazy(obj[, require_lazy]) is what the object's own __holdlazy__ gives or raises; without one, the object or a TypeError."
    def call(o):
        if how == 'default': return holdlazy(o)
        if how == 'false': return holdlazy(o, False)
        if how == 'kwfalse': return holdlazy(o, require_lazy=False)
        return holdlazy(o, require_lazy=True) if how == 'kwtrue' else holdlazy(o, True)
    req = how in ('true', 'kwtrue')
    if kind == 'user':
        (o, log, ret) = user_object(a, b)
        try: r = ('value', call(o))
        except Exception as e: r = ('exc', e)
        what = f"holdlazy (require_lazy: {how}) of an object whose __holdlazy__ ({b}) has behaviour {a!r}"
        if a == 'absent':
            if req: return None if r[0] == 'exc' and type(r[1]) is TypeError else f"{what}: no TypeError but {r!r}"
            return None if r[0] == 'value' and r[1] is o else f"{what}: not the object but {r!r}"
        if a == 'notcallable': return None if r[0] == 'exc' and type(r[1]) is TypeError else f"{what}: no TypeError but {r!r}"
        if log != [1]: return f"{what}: __holdlazy__ ran {len(log)} times (or its result was evaluated): {log}"
        if a in ('value', 'none', 'waiting'):
            if r[0] != 'value': return f"{what} raised {r[1]!r}"
            ok = r[1] is ret if a == 'value' else r[1] is None if a == 'none' else type(r[1]) is lazy and not r[1].is_ready()
            return None if ok else f"{what} gives {r[1]!r}"
        want = dict(attr=AttributeError, type=TypeError, value_error=ValueError, key=KeyError, odd=Odd, lazy=type_lazy_error, nested=TypeError)[a]
        if r[0] != 'exc' or type(r[1]) is not want: return f"{what}: specified is the exception {want.__name__} of the method, got {r!r}"
        return None if a == 'nested' or r[1].args == ('inner',) else f"{what}: the exception is not that of the method but {r[1]!r}"
    o = eval(a, dict(BG))
    try: r = ('value', call(o))
    except Exception as e: r = ('exc', e)
    what = f"holdlazy({a}) (require_lazy: {how})"
    if kind == 'plain':
        if req: return None if r[0] == 'exc' and type(r[1]) is TypeError else f"{what}: no TypeError but {r!r}"
        return None if r[0] == 'value' and r[1] is o else f"{what}: not the object but {r!r}"
    if r[0] != 'value': return f"{what} raised {r[1]!r}"
    want = {llist: plist, ldict: pdict, tldict: tdict}[type(o)]
    if type(r[1]) is not want: return f"{what} is a {type(r[1]).__name__}, not a {want.__name__}"
    if len(r[1]) != len(o): return f"{what} has {len(r[1])} items"
    raw = [o.getlazy(k) for k in (range(len(o)) if type(o) is llist else o)]
    got = list(r[1]) if type(o) is llist else list(r[1].values())
    if [id(x) for x in raw] != [id(x) for x in got]: return f"{what} does not hold the very items of the collection"
    return f"{what} evaluated an item" if any(type(x) is lazy and x.is_ready() for x in raw) else None
HOLD_HOW = ('default', 'false', 'kwfalse', 'true', 'kwtrue')
def hold_cases():
    cs = [('user', b, w, h) for b in HOLD_BEH for w in ('class', 'inherited', 'instance', 'getattr') for h in HOLD_HOW]
    return cs + [('plain', a, '', h) for a in PLAIN for h in HOLD_HOW] + [('lazy', a, '', h) for a in LAZIES for h in HOLD_HOW]
def jobs(tier):
    th = tier != 'quick'
    d = 4 if th else 3
    js = []
    lim = 600000 if th else 60000
    sl = [[("p = llist()", "p = RL()")], [("p = llist([X(0), A, X(1)])", "p = RL([X(0), A, X(1)])")], [("p = llist(plist([X(0), X(1)]))", "p = RL([X(0), X(1)])")], [("p = llist(tlist([X(1), B])).prepend(X(0))", "p = RL([X(0), X(1), B])")],
          [("p = llist(gen([X(0), X(0), X(1)]))", "p = RL([X(0), X(0), X(1)])")], [("p = llist((X(0), None, X(1), 5))", "p = RL([X(0), None, X(1), 5])")]]
    end = [("calls()", "evs()")]
    js += split(Space('llist', sl, lops(), [("calls()", "evs()"), ("quiet(p)", "quiet(p)")] + end, depth=d, mutable=True, gi=gi('llist'), gm=gm, fresh=fresh, within='len(p) <= 4', limit=lim), 8)
    sl = [[("t = tllist()", "t = RL()")], [("t = tllist([X(0), A, X(1)])", "t = RL([X(0), A, X(1)])")], [("t = llist([X(0), X(1)]).transient()", "t = RL([X(0), X(1)])")], [("t = tllist(plist([X(1), B])); t.prepend(X(0))", "t = RL([X(0), X(1), B])")]]
    def gt():
        MODE[0] = 'tllist'
        return dict(X=X, calls=calls, quiet=quiet_l)
    js += split(Space('tllist', sl, tlops(), [("calls()", "evs()"), ("quiet(t)", "quiet(t)")] + end, depth=d, mutable=True, gi=gt, gm=gm, fresh=fresh, within='len(t) <= 4', limit=lim), 8)
    sd = [[("p = ldict()", "p = RD()")], [("p = ldict({A: X(0), B: X(1), C: v5})", "p = RD({A: X(0), B: X(1), C: v5})")], [("p = ldict([(B, X(0)), (A, X(1))])", "p = RD([(B, X(0)), (A, X(1))])")], [("p = ldict(pdict({C: X(0), D: v3}))", "p = RD({C: X(0), D: v3})")],
          [("p = ldict(tdict({C: X(0), A: X(1)})).drop(C)", "p = RD({A: X(1)})")], [("p = ldict({A: X(0)}, x=X(1))", "p = RD({A: X(0), 'x': X(1)})")]]
    js += split(Space('ldict', sd, dops(), [("calls()", "evs()"), ("quiet(p)", "quiet_d(p)")] + end, depth=d, mutable=True, gi=gi('ldict'), gm=gm, fresh=fresh, within='len(p) <= 4', limit=lim), 8)
    sd = [[("t = tldict()", "t = RD()")], [("t = tldict({A: X(0), B: X(1), C: v5})", "t = RD({A: X(0), B: X(1), C: v5})")], [("t = ldict([(B, X(0)), (A, X(1))]).transient()", "t = RD([(B, X(0)), (A, X(1))])")], [("t = tldict(pdict({C: X(0), D: v3}))", "t = RD({C: X(0), D: v3})")]]
    js += split(Space('tldict', sd, tdops(), [("calls()", "evs()"), ("quiet(t)", "quiet_d(t)")] + end, depth=d, mutable=True, gi=gi('tldict'), gm=gm, fresh=fresh, within='len(t) <= 4', limit=lim), 8)
    sz = tuple(range(0, 41)) + (63, 64, 65, 129, 1025) if not th else sweep.sizes(tier)
    cs = []
    for n in sz:
        for (k, bs, ops) in (('llist', ("llist(xs)", "pre(llist, xs)", "strad(llist, xs)", "off(llist, xs)", "tllist(xs).persistent()", "llist(plist(xs))"), BIG_L), ('ldict', ("ldict(xs)", "ddisc(ldict, xs)", "tset_(tldict, xs).persistent()", "ldict(dict(xs))", "dadd(ldict, xs)"), BIG_D)):
            for b in bs if n <= 129 else bs[:1]: cs += [(k, b, n, o, w) for (o, w) in ops]
    js += cases.chunks('sizes', 'c17:big_case', big_case, cs, 24)
    js += cases.chunks('holdlazy', 'c17:hold_case', hold_case, hold_cases(), 2)
    return js
