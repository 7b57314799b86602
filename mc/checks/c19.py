"""C19: constructors convert between all collection kinds without loss."""
import itertools, collections, types
from .. import core, syms, cases, model, sweep
from ..core import Space, split, show
from ..cases import attempt
import pcollections as pc
TECHNIQUE = 'explicit-state exploration of conversion chains and exhaustive enumeration of source/target pairs on the real code, against list, set and dict'
BOUNDS = {
    'quick': "all chains of <= 5 conversions among the ten kinds (directly and through items/keys views) and in-between edits, from 6 starts, contents with equal hashes, equal elements and lazy values; "
             "every target kind (10, and list/set/dict from library sources) x every source expression (about 250: native, library with history, views, iterators, custom sequences and mappings, wrong arguments) x keywords, "
             "with the source compared before and after, edited afterwards and the result compared again; sizes 0-40 and 10 sizes up to 1025, and up to 33 elements with one common hash",
    'thorough': "as quick with chains of <= 7 conversions",
}
ASSUMPTIONS = ["elements are opaque apart from == and hash", "a source is read through Python's own list(), set() and dict() to say what it contains"]
RULE = "a case is one constructor call on one source expression; distinct by construction"
def const(x): return x
def L(x): return pc.lazy(const, x)
class OldSeq:
    def __init__(self, l): self.l = list(l)
    def __getitem__(self, i): return self.l[i]
class OnlyIter:
    def __init__(self, l): self.l = list(l)
    def __iter__(self): return iter(self.l)
class LyingLen(OnlyIter):
    "An iterable that claims another length."
    def __length_hint__(self): return 100
class MyMap(collections.abc.Mapping):
    def __init__(self, d): self.d = dict(d)
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
def gen(it):
    for x in it: yield x
def hist_l(k, c, tr):
    "A sequence of kind k with contents c that went through edits."
    p = k(c)
    if tr:
        p.append(syms.Z); p.prepend(syms.Z); p.prepend(syms.G); del p[0]; del p[0]; p.pop()
        return p
    return p.append(syms.Z).prepend(syms.Z).prepend(syms.G).delete(0).delete(0).delete()
def neg_l(k, c, tr):
    "As above with items below index zero."
    c = list(c)
    p = k(c[1:])
    if c:
        if tr: p.prepend(c[0])
        else: p = p.prepend(c[0])
    return p
def hist_s(k, c, tr):
    c = list(c); p = k([syms.C, syms.Z] + c)
    if tr:
        for x in (syms.C, syms.Z):
            if not any(x is y for y in c): p.discard(x)
        return p
    for x in (syms.C, syms.Z):
        if not any(x is y for y in c): p = p.discard(x)
    return p
def hist_d(k, c, tr):
    c = list(c); p = k([(syms.M7, 1)] + c + [(syms.Z, 2)])
    for x in (syms.M7, syms.Z):
        if tr: del p[x]
        else: p = p.drop(x)
    return p
G = core.impl_globals(dict(sweep.GI, OldSeq=OldSeq, OnlyIter=OnlyIter, LyingLen=LyingLen, MyMap=MyMap, gen=gen, hist_l=hist_l, hist_s=hist_s, hist_d=hist_d, neg_l=neg_l, OrderedDict=collections.OrderedDict, deque=collections.deque,
     MappingProxyType=types.MappingProxyType, ChainMap=collections.ChainMap, UserDict=collections.UserDict, UserList=collections.UserList, defaultdict=collections.defaultdict, Counter=collections.Counter))
SEQK, SETK, MAPK = ('plist', 'tlist', 'llist', 'tllist'), ('pset', 'tset'), ('pdict', 'tdict', 'ldict', 'tldict')
def sources():
    """(expression, contains lazies held by a plain collection)"""
    o = []
    conts = ["[]", "[A]", "[A, B]", "[B, A, A2, D]", "[None, A]", "[C, B, A]"]
    for c in conts:
        o += [c, f"tuple({c})", f"gen({c})", f"iter({c})", f"OldSeq({c})", f"OnlyIter({c})", f"LyingLen({c})", f"map(ok and (lambda x: x), {c})", f"deque({c})", f"UserList({c})", f"reversed({c})", f"enumerate({c})", f"dict.fromkeys({c})", f"dict.fromkeys({c}).keys()"]
        if 'A2' not in c: o += [f"{{*{c}}}", f"frozenset({c})"]
        for k in SEQK:
            t = k[0] == 't'
            o += [f"{k}({c})", f"hist_l({k}, {c}, {t})", f"neg_l({k}, {c}, {t})", f"iter({k}({c}))", f"reversed({k}({c}))", f"{k}({c})[::-1]"]
            if not t: o += [f"{k}({c}).transient()", f"hist_l({k}, {c}, False).transient()"]
            else: o += [f"{k}({c}).persistent()", f"hist_l({k}, {c}, True).persistent()"]
        for k in SETK:
            t = k[0] == 't'
            o += [f"{k}({c})", f"hist_s({k}, {c}, {t})", f"iter({k}({c}))"]
            o += [f"{k}({c}).transient()" if not t else f"{k}({c}).persistent()"]
    for k in ('llist', 'tllist'): o += [f"{k}([L(A), B, L(A2)])", f"{k}([L(None)])", f"hist_l({k}, [L(A), B], {k[0] == 't'})"]
    o += ["llist([L((A, v1)), (B, v2)])", "tllist([L((A, v1)), L((A2, v2))])", "llist([L((A, v1))]).transient()"]
    pairs = ["[]", "[(A, v1)]", "[(B, v1), (A, v2)]", "[(A2, v1), (C, v2), (A, v3), (D, None)]"]
    for c in pairs:
        o += [c, f"gen({c})", f"iter({c})", f"OldSeq({c})", f"OnlyIter({c})", f"tuple({c})", f"[list(x) for x in {c}]", f"dict({c})", f"OrderedDict({c})", f"MyMap({c})", f"MappingProxyType(dict({c}))", f"UserDict({c})", f"ChainMap(dict({c}), {{Z: v5}})", f"defaultdict(int, {c})",
              f"dict({c}).items()", f"dict({c}).values()", f"MyMap({c}).items()", f"plist({c})", f"tlist({c})", f"llist({c})", f"pset({c})", f"tset({c})", f"{{*{c}}}", f"plist([plist(x) for x in {c}])"]
        for k in MAPK:
            t = k[0] == 't'
            o += [f"{k}({c})", f"hist_d({k}, {c}, {t})", f"{k}({c}).items()", f"{k}({c}).keys()", f"{k}({c}).values()", f"iter({k}({c}))", f"iter({k}({c}).items())"]
            o += [f"{k}({c}).transient()" if not t else f"{k}({c}).persistent()"]
    for k in ('ldict', 'tldict'): o += [f"{k}([(A, L(v1)), (B, v2), (D, L(None))])", f"{k}([(A, L(v1))]).items()", f"{k}([(A, L(v1)), (B, v1)]).values()", f"hist_d({k}, [(B, L(v1))], {k[0] == 't'})"]
    o += ["'abc'", "''", "b'ab'", "range(3)", "range(0)", "['ab', 'cd']", "{'ab', 'cd'}", "'ab'.split()", "Counter('aab')", "(1, 1, True, 1.0)", "[0, False, 0.0, None, '']", "{1: 2, 3: 4}", "[(1, 2), (1.0, 3), (True, 4)]", "[[1, 2]]"]
    for n in (31, 32, 33, 1024): o += [f"range({n})", f"plist(range({n}))", f"tlist(range({n}))", f"pset(range({n}))", f"tset(range({n}))", f"pdict([(i, A) for i in range({n})])", f"tdict([(i, L) for i in range({n})])", f"ldict([(i, A) for i in range({n})])", f"neg_l(plist, range({n}), False)", f"neg_l(tllist, range({n}), True)"]
    o += ["5", "None", "1.5", "A", "[1, 2, 3]", "[(1, 2, 3)]", "[(1,)]", "[UH]", "[(UH, 1)]", "[(1, UH)]", "[[]]", "[([], 1)]", "[None]", "object()", "len", "int", "[{}]", "pset", "[(A, v1), 5]", "[A, UH]"]
    return list(dict.fromkeys(o))
NATIVE = {**{k: list for k in SEQK}, **{k: set for k in SETK}, **{k: dict for k in MAPK}, 'list': list, 'set': set, 'dict': dict}
def content(x, kind):
    if kind in MAPK or kind == 'dict': return [(id(k), idv(x[k])) for k in x]
    return [idv(y) for y in x]
def idv(x):
    return ('L', tuple(map(id, x))) if type(x) is tuple else id(x) if not isinstance(x, (int, float, str)) else (type(x).__name__, x)
def raw(x):
    "What a source contains, without consuming it."
    if isinstance(x, (pc.llist, pc.ldict, pc.tldict)): x = pc.holdlazy(x)
    if isinstance(x, pc.tllist): return [id(x.getlazy(i)) for i in range(len(x))]
    if isinstance(x, collections.abc.Mapping): return [(id(k), id(x[k])) for k in x]
    if isinstance(x, (collections.abc.Sequence, collections.abc.Set, collections.abc.ValuesView)): return [idv(y) for y in x]
    return None
def edit(x):
    "Changes x if it can be changed."
    f = attempt(lambda: x.append(syms.NEG) if hasattr(x, 'append') and not isinstance(x, pc.plist) else 0)
    if isinstance(x, (dict, pc.tdict)): x[syms.NEG] = syms.v7; x.pop(next(iter(x)))
    elif isinstance(x, (set, pc.tset)): x.add(syms.NEG); x.discard(next(iter(x)))
    elif isinstance(x, (list, pc.tlist)): x.insert(0, syms.NEG); x[1] = syms.BIG if len(x) > 1 else 0
    else: return False
    return True
LIVE = []
def case(kind, src, kw=''):
    e = case_(kind, src, kw)
    LIVE.clear()
    return e
def case_(kind, src, kw):
    call = f"{kind}({src}{', ' + kw if kw else ''})" if src != '' else f"{kind}({kw})"
    ref = attempt(lambda: cases.ev(src, G)) if src else ('ok', ())
    if ref[0] == 'exc': return f"source {src} raised {ref[1]}"
    LIVE.append(ref[1])
    kws = eval(f"dict({kw})", dict(G))
    # what list, set or dict build from the same argument
    nat = NATIVE[kind]
    args = (ref[1],) if src else ()
    def build():
        if nat is dict:
            a = args
            d = dict(*a)
            d.update(kws)
            return d
        return nat(*args, **kws)
    want = attempt(build)
    x = cases.ev(src, G) if src else ()
    LIVE.append(x)
    before = raw(x)
    got = attempt(lambda: cases.ev(kind, G)(*((x,) if src else ()), **kws))
    if want[0] == 'exc':
        if got[0] != 'exc': return f"{call} returned {show(got[1])}; specified: {want[1]}"
        if got[1] != want[1] and got[1] not in ('TypeError', 'ValueError'): return f"{call} raised {got[1]}; specified: {want[1]}"
        return None if raw(x) == before else f"{call} changed its argument"
    if got[0] == 'exc': return f"{call} raised {got[1]}; specified: {show(want[1])}"
    r = got[1]
    LIVE.append(r); LIVE.append(want[1])
    if type(r).__name__ != kind: return f"{call} is a {type(r).__name__}"
    if raw(x) != before: return f"{call} changed its argument"
    w = want[1]
    def check(when):
        if len(r) != len(w): return f"{call}{when}: length {len(r)}; specified: {len(w)}"
        if nat is list:
            if [nid(a) for a in r] != [nid(a) for a in w]: return f"{call}{when} holds {show(r)}; specified: {w}"
        elif nat is set:
            if set(r) != w or any(y not in r for y in w): return f"{call}{when} holds {show(r)}; specified: {w}"
            if src and kind != 'set' and not isinstance(x, (set, frozenset)):
                o = list(model.MSet(list(cases.ev(src, G))))
                if len(list(r)) != len(o) or any(nid(a) != nid(b) for (a, b) in zip(r, o)): return f"{call}{when}: order {list(r)}; specified: {o}"
        else:
            if list(map(nid2, r.items())) != list(map(nid2, w.items())): return f"{call}{when} holds {show(r)}; specified: {w}"
            if any(nid(r[k]) != nid(w[k]) for k in w): return f"{call}{when}: item access differs"
        return None
    e = check('')
    if e: return e
    # later changes to either are not visible in the other
    if len(w) and r is not x:
        if x is not args and attempt(lambda: edit(x)) == ('ok', True):
            e = check(' after its argument was changed')
            if e: return e
        if type(r).__name__[0] == 't':
            y = cases.ev(src, G) if src else ()
            LIVE.append(y)
            b = raw(y)
            r2 = cases.ev(kind, G)(*((y,) if src else ()), **kws)
            edit(r2)
            if raw(y) != b: return f"{call}: editing the result changed the argument"
            if nat is list and hasattr(r2, 'persistent'): r2.clear()
            if raw(y) != b: return f"{call}: clearing the result changed the argument"
            if r2 is y: return f"{call} returned its argument"
    if type(r).__name__[0] == 't' and r is x: return f"{call} returned its argument"
    return None
def nid(a): return (type(a).__name__, a.name) if isinstance(a, syms.Sym) else (type(a).__name__, repr(a)) if isinstance(a, (int, float, str, bytes, type(None))) else (type(a).__name__, [nid(b) for b in a]) if isinstance(a, (tuple, list, pc.plist)) else type(a).__name__
def nid2(kv): return (nid(kv[0]), nid(kv[1]))
def libsrc(s): return any(k in s for k in SEQK + SETK + MAPK)
def arity(kind, a):
    "More than one positional argument."
    o = attempt(lambda: cases.ev(f"{kind}{a}", G))
    return None if o == ('exc', 'TypeError') else f"{kind}{a}: {o}; specified: TypeError"
# --- chains
def conv(kind, x):
    "The reference conversion: contents only."
    it = list(x.items()) if isinstance(x, dict) else list(x)
    return it
def to(kind, x):
    if kind in SEQK: return list(x)
    if kind in SETK: return model.MSet(x)
    return dict(x)
def edit_l(x, add, rem):
    y = to('plist', x if not isinstance(x, dict) else x.items())
    return y
def chain_ops():
    o = []
    for k in SEQK + SETK + MAPK:
        o.append((f"p = {k}(items(p))", f"p = to('{k}', items(p)); k = '{k}'"))
        if k not in MAPK: o.append((f"p = {k}(p)", f"p = to('{k}', p); k = '{k}'"))
        else: o.append((f"p = {k}(p) if isinstance(p, (pdict, tdict)) else {k}(list(p))", f"p = to('{k}', p); k = '{k}'"))
    o += [("p = p.transient()", "k = trans(k)"), ("p = p.persistent()", "k = pers(k)"), ("p = p.copy()", "ok()"), ("p = drop1(p)", "p = drop1m(p)"), ("p = add1(p)", "p = add1m(p)")]
    return o
def items(p): return p.items() if isinstance(p, (dict, pc.pdict, pc.tdict)) else p
def trans(k):
    if k[0] == 't': raise AttributeError()
    return {'plist': 'tlist', 'llist': 'tllist', 'pset': 'tset', 'pdict': 'tdict', 'ldict': 'tldict'}[k]
def pers(k):
    if k[0] != 't': raise AttributeError()
    return {'tlist': 'plist', 'tllist': 'llist', 'tset': 'pset', 'tdict': 'pdict', 'tldict': 'ldict'}[k]
def drop1(p):
    if isinstance(p, pc.plist): return p.delete(0)
    if isinstance(p, pc.tlist): del p[0]
    elif isinstance(p, pc.pset): return p.remove(next(iter(p), None))
    elif isinstance(p, pc.tset): p.remove(next(iter(p), None))
    elif isinstance(p, pc.pdict): return p.delete(next(iter(p), None))
    else: del p[next(iter(p), None)]
    return p
def drop1m(p):
    if type(p) is list: del p[0]
    elif type(p) is dict: del p[next(iter(p), None)]
    else: p.remove(next(iter(p), None))
    return p
PAIR = (syms.D, syms.v4)
def add1(p):
    if isinstance(p, pc.plist): return p.prepend(PAIR)
    if isinstance(p, pc.tlist): p.prepend(PAIR)
    elif isinstance(p, pc.pset): return p.add(PAIR)
    elif isinstance(p, pc.tset): p.add(PAIR)
    elif isinstance(p, pc.pdict): return p.set(*PAIR)
    else: p[PAIR[0]] = PAIR[1]
    return p
def add1m(p):
    if type(p) is list: p.insert(0, PAIR)
    elif type(p) is dict: p[PAIR[0]] = PAIR[1]
    else: p.add(PAIR)
    return p
GI = dict(items=items, drop1=drop1, add1=add1, L=L)
GM = dict(items=items, to=to, trans=trans, pers=pers, drop1m=drop1m, add1m=add1m)
def jobs(tier):
    th = tier != 'quick'
    js = []
    seeds = [[("p = plist([(A, v1), (B, v2), (A2, v3)])", "p = [(A, v1), (B, v2), (A2, v3)]; k = 'plist'")], [("p = ldict([(A, L(v1)), (B, v2)])", "p = {A: v1, B: v2}; k = 'ldict'")], [("p = llist([L((A, v1)), (B, v2)]).prepend((C, v1))", "p = [(C, v1), (A, v1), (B, v2)]; k = 'llist'")],
             [("p = pset([(C, v1), (B, v2), (A, v1)]).discard((B, v2))", "p = MSet([(C, v1), (A, v1)]); k = 'pset'")], [("p = tdict([(C, v1), (B, v2)])", "p = {C: v1, B: v2}; k = 'tdict'")], [("p = tllist()", "p = []; k = 'tllist'")]]
    for s in seeds: s[0] = (s[0][0] + "; k = type(p).__name__", s[0][1])
    ops = [(a + "; k = type(p).__name__", b) for (a, b) in chain_ops()]
    js += split(Space('chains', seeds, ops, [("len(p)", "len(p)")], depth=7 if th else 5, mutable=True, gi=GI, gm=GM, within='len(p) <= 4', limit=400000 if th else 100000), 8)
    cs = []
    for s in sources():
        for k in SEQK + SETK + MAPK: cs.append((k, s))
        if libsrc(s):
            for k in ('list', 'set', 'dict'): cs.append((k, s))
    for s in sources():
        if '(A' in s or 'dict' in s or s in ('[]', '{1: 2, 3: 4}', '5'):
            for k in MAPK: cs.append((k, s, 'x=v5, y=v6'))
    for k in SEQK + SETK + MAPK: cs += [(k, ''), (k, '', 'x=A'), (k, '[A], [B]'), (k, '[(A, v1)]', 'A=v2, x=v3'), (k, 'dict(x=v1, y=v2)', 'x=v3')]
    # keywords named like parameters
    for k in MAPK:
        for kw in ('cls=v1', 'self=v1', 'arg=v1, args=v2, kw=v3', 'cls=v1, self=v2, n=v3', 'orig=v1, els=v2, idx=v3, top=v4', 'iterable=v1, data=v2, dict=v3'):
            cs += [(k, s, kw) for s in ('', '[]', '[(A, v1)]', "dict(cls=v5)", 'pdict([(A, v1)])', 'tdict([(A, v1)])', 'ldict([(A, L(v1))])', 'tldict([(A, L(v1))])', '5')]
    js += cases.chunks('arity', 'c19:arity', arity, [(k, a) for k in SEQK + SETK + MAPK for a in ('([A], [B])', '([], [])', '(5, 6)', '(None, None, None)', '({}, {}, x=1)')], 2)
    for n in (sweep.sizes(tier) if th else tuple(range(2, 41)) + (48, 63, 64, 65, 72, 100, 128, 129, 257, 1025)):
        e, pr = f"ES[:{n}]", f"SV({n})"
        seq = [e, f"tuple({e})", f"gen({e})", f"plist({e})", f"strad(plist, {e})", f"off(plist, {e}).transient()", f"llist(LS({n}))", f"strad(llist, LS({n})).transient()", f"set({e})", f"pset({e})", f"sdisc(pset, {e}).transient()", f"OnlyIter({e})", f"{e} + {e}[::-1]", f"pdict({pr}).keys()"]
        mp = [pr, f"gen({pr})", f"dict({pr})", f"pdict({pr})", f"ddisc(pdict, {pr}).transient()", f"ldict(LV({n}))", f"ddisc(ldict, LV({n})).transient()", f"tdict({pr}).items()", f"MyMap({pr})", f"plist({pr})", f"pset({pr})", f"{pr} + {pr}[::-1]"]
        for k in SEQK + SETK: cs += [(k, s) for s in seq + (mp[3:6] if n < 200 else [])]
        for k in MAPK: cs += [(k, s) for s in mp] + [(k, mp[3], 'x=v5')]
        for k in ('list', 'set', 'dict'): cs += [(k, s) for s in (seq[3:8] + seq[9:11] if k != 'dict' else mp[3:8])]
    for n in sweep.CHAINS:
        e = f"CH[:{n}]"; pr = f"[(x, v1) for x in {e}]"
        for k in SEQK + SETK: cs += [(k, s) for s in (e, f"pset({e})", f"sdisc(pset, {e}).transient()", f"{e} + {e}")]
        for k in MAPK: cs += [(k, s) for s in (pr, f"pdict({pr})", f"ddisc(pdict, {pr}).transient()", f"{pr} + {pr}")]
    js += cases.chunks('constructors', 'c19', case, cs, 32)
    return js
