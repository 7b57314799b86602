"""C30: arguments are taken and refused as list, set and dict take and refuse them."""
import collections, decimal, fractions, numbers
from ..core import Space, split
from .. import core, syms, model
import pcollections as pc
TECHNIQUE = 'explicit-state exploration of histories in which every step has an unusual argument, on the real code, against list, set and dict'
BOUNDS = {
    'quick': "all ten kinds, histories of <= 2 operations from 4-5 starts: every operation with a position x 34 position arguments (integers, booleans, subclasses of int, objects that are integers only through __index__, NumPy-like scalars, huge ones; "
             "floats, fractions, strings, None, containers, objects whose __index__ fails or returns something else, ...), every operation with an iterable (and the constructors) x 50 arguments (all built-in and library kinds, generators, objects with only __iter__ or __getitem__, strings, views; "
             "non-iterables, iterators that fail, pairs that are none, unhashable members), keyword arguments, sort keys and flags; state and outcome compared after every step; in every state all slices with these bounds",
    'thorough': "as quick, and histories of <= 3 operations with every third argument of each sort",
}
ASSUMPTIONS = ["for positions far beyond the index range of the machine, list raises OverflowError in insert and pop where this library clips or raises IndexError; these are left out",
               "operators and methods documented to take only certain kinds (list concatenation, set intersection and symmetric difference) are checked to refuse others with TypeError"]
class Ix:
    "An integer only through __index__."
    def __init__(self, i): self.i = i
    def __index__(self): return self.i
    def __repr__(self): return f'Ix({self.i})'
class IntSub(int):
    "A subclass of int with its own notion of everything else."
    def __repr__(self): return f'IntSub({int(self)})'
    def __hash__(self): return 77
    def __str__(self): return 'x'
class Np:
    "Like a NumPy integer scalar: registered as Integral, with arithmetic giving its own kind, no subclass of int."
    def __init__(self, i): self.i = int(i)
    def __index__(self): return self.i
    __int__ = __index__
    def __repr__(self): return f'Np({self.i})'
    def __hash__(self): return hash(self.i)
def _bin(n):
    f = getattr(int, n)
    def g(self, o):
        r = f(self.i, o.i if isinstance(o, Np) else o)
        return r if r is NotImplemented or isinstance(r, bool) else Np(r)
    return g
for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'floordiv', 'mod'): setattr(Np, f'__{_n}__', _bin(f'__{_n}__'))
def _neg(self): return Np(-self.i)
Np.__neg__ = _neg
numbers.Integral.register(Np)
class IxBad:
    def __index__(self): return 'no integer'
class IxRaise:
    def __index__(self): raise ValueError('refused')
class IxFloat(float): pass
class NotIx:
    def __int__(self): return 0
class Old:
    "An iterable through __getitem__ only."
    def __init__(self, l): self.l = list(l)
    def __getitem__(self, i): return self.l[i]
class OnlyIter:
    def __init__(self, l): self.l = list(l)
    def __iter__(self): return iter(self.l)
class BadIter:
    def __iter__(self): return 5
class RaiseIter:
    def __iter__(self): raise ValueError('refused')
class LyingLen(OnlyIter):
    def __len__(self): return 7
class NegLen(OnlyIter):
    "An iterable whose length cannot be taken."
    def __len__(self): return -1
class Filling(OnlyIter):
    "Says it is empty until it is iterated over."
    def __len__(self): return 0
class NoLen(OnlyIter):
    "Refuses to say how long it is."
    def __len__(self): raise ValueError('refused')
    def __bool__(self): raise ValueError('refused')
    def __length_hint__(self): raise ValueError('refused')
class HasKeysOnly:
    keys = None
class MyMap(collections.abc.Mapping):
    def __init__(self, d): self.d = dict(d)
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
class FillingMap(MyMap):
    def __len__(self): return 0
class NoLenMap(MyMap):
    def __len__(self): raise ValueError('refused')
    def __bool__(self): raise ValueError('refused')
class Row:
    "Has keys, but is no Mapping, and iterates over something else (as the rows of sqlite3)."
    def __init__(self, d, it=None): self.d, self.it = d, it
    def keys(self): return list(self.d)
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d.values() if self.it is None else self.it)
class KeysGen:
    "Has keys, given one at a time, and cannot be iterated."
    def __init__(self, d, more=()): self.d, self.more = d, more
    def keys(self):
        yield from self.d
        yield from self.more
    def __getitem__(self, k): return self.d[k]
    __iter__ = None
class KeysAttr:
    "The keys are an attribute of the object and not of its class."
    def __init__(self, keys, it=()): self.keys, self.it = keys, it
    def __getitem__(self, k): return ('value', k)
    def __iter__(self): return iter(self.it)
class KeysHidden:
    "Says by an AttributeError that there are no keys."
    def __init__(self, it): self.it = it
    @property
    def keys(self): raise AttributeError('keys')
    def __iter__(self): return iter(self.it)
class KeysFail(KeysHidden):
    @property
    def keys(self): raise ValueError('refused')
class StrSub(str): pass
class TupSub(tuple): pass
def const(x): return x
def first(x, i): return x[i]
def gen(l):
    for x in l: yield x
GOOD = ['0', '1', '-1', '2', '-3', '-4', '3', '4', 'True', 'False', 'Ix(0)', 'Ix(1)', 'Ix(-1)', 'Ix(3)', 'Ix(-4)', 'IntSub(0)', 'IntSub(1)', 'IntSub(-1)', 'IntSub(9)', 'Np(0)', 'Np(1)', 'Np(-1)', 'Np(-2)', 'Np(3)', 'Np(-9)']
BAD = ['0.0', '1.0', '-1.0', '2.5', '9.0', "float('nan')", "'1'", "b'0'", 'None', '()', '[]', '1j', 'Fraction(1)', 'Decimal(0)', 'Ellipsis', 'IxBad()', 'IxRaise()', 'NotIx()', 'IxFloat(1)', 'A', 'int', '{0}', '(0,)']
HUGE = ['10**20', '-10**20', 'Ix(10**20)', 'Np(-10**20)']
def l_drop(l, i):
    import operator
    i = operator.index(i)
    if -len(l) <= i < len(l): del l[i]
def l_mul(l, n):
    "Only integers, and what claims to be one, multiply."
    if not isinstance(n, numbers.Integral): raise TypeError()
    import operator
    return l * operator.index(n)
def mul(p, n):
    try: return p * n
    except ValueError: raise TypeError()
def rmul(p, n):
    try: return n * p
    except ValueError: raise TypeError()
def imul(p, n):
    try: p *= n
    except ValueError: raise TypeError()
    return p
def sl(p, bs):
    "All slices with these bounds, and reads at them."
    out = []
    for b in bs:
        for (n, f) in (('[]', lambda: p[b]), ('[b:]', lambda: list(p[b:])), ('[:b]', lambda: list(p[:b])), ('[::b]', lambda: list(p[::b])), ('[1:b]', lambda: list(p[1:b])), ('[b::-1]', lambda: list(p[b::-1])),
                       ('index', lambda: p.index(syms.A, b)), ('index,', lambda: p.index(syms.B, 0, b) if b is not None else 0)):
            o = core.outcome(f)
            out.append((n, repr(b)[:12], o[0], o[1] if o[0] == 'exc' else o[1]))
    return out
def lz(p, bs):
    "What is said about the laziness at these positions: true for one of its items, or the refusal."
    out = []
    for b in bs:
        for f in (lambda: type(p.is_lazy(b)), lambda: type(p.is_ready(b)), lambda: (p.getlazy(b), True)[1]):
            o = core.outcome(f)
            out.append(o[1] if o[0] == 'exc' else True if o[1] in (bool, True) else o[1])
    return out
def lz_model(p, bs):
    out = []
    for b in bs:
        o = core.outcome(lambda: p[b])
        out += [o[1] if o[0] == 'exc' else True] * 3
    return out
def seq_ops(k, thin=1):
    tr = k[0] == 't'
    o = []
    def both(i, m=None): o.append((i, m or i))
    for i in (GOOD + BAD + HUGE)[::thin]:
        huge = i in HUGE
        if tr:
            both(f"t[{i}] = A", f"t[{i}] = A"); both(f"del t[{i}]", f"del t[{i}]")
            if not huge: both(f"r = t.insert({i}, B)"); both(f"r = t.pop({i})"); both(f"r = t.pop(index={i})", f"r = t.pop({i})")
            both(f"r = t[{i}]")
            if not huge:
                both(f"t = mul(t, {i})", f"t = l_mul(t, {i})"); both(f"t = imul(t, {i})", f"t = l_mul(t, {i})")
        else:
            both(f"p = p.set({i}, A)", f"p[{i}] = A"); both(f"p = p.delete({i})", f"del p[{i}]"); both(f"p = p.drop({i})", f"l_drop(p, {i})")
            both(f"p = p.delete(index={i})", f"del p[{i}]"); both(f"p = p.drop(index={i})", f"l_drop(p, {i})")
            if not huge: both(f"p = p.insert({i}, B)", f"p.insert({i}, B)"); both(f"(r, p) = p.pop({i})", f"r = p.pop({i})"); both(f"(r, p) = p.pop(index={i})", f"r = p.pop({i})")
            both(f"r = p[{i}]")
            if not huge:
                both(f"p = mul(p, {i})", f"p = l_mul(p, {i})"); both(f"p = rmul(p, {i})", f"p = l_mul(p, {i})")
    v = 't' if tr else 'p'
    for it in (ITER + BADITER)[::thin]: o.append((f"{v} = {k}({it})", f"{v} = grab({it})"))
    for a in ('A, B', '[], []', 'x=1', '[A], x=1', 'iterable=[A]'): o.append((f"{v} = {k}({a})", "raise TypeError"))
    for it in (ITER + BADITER)[::thin]:
        if tr: both(f"r = t.extend({it})", f"t[:] = t + grab({it}); r = None")
        else: both(f"p = p.extend({it})", f"p.extend(grab({it}))")
    for it in ('(A,)', "'ab'", '{A}', '{A: 1}', 'gen([A])', 'Old([A])', '5', 'None', 'pset([A])', 'pdict({A: 1})', 'A', 'pdict({A: 1}).keys()', 'range(2)'):
        o.append((f"{v} = {v} + {it}", f"[].no" if 0 else "raise TypeError"))
        o.append((f"{v} = {it} + {v}", "raise TypeError"))
        if tr: o.append((f"t += {it}", "raise TypeError"))
    for kw in ('', 'key=None', 'reverse=1', "reverse=''", "reverse='x'", 'reverse=None', 'key=5', 'key=negkey, reverse=2', 'foo=1', 'reverse=Ix(1)', 'reverse=()', 'reverse=[0]', "key='x'", 'key=first', 'reverse=True, key=negkey'):
        m = f"{v}[:] = sorted({v}{', ' + kw if kw else ''})"
        o.append((f"r = t.sort({kw})", m + '; r = None') if tr else (f"p = p.sort({kw})", m))
    for a in ('A, B, 0', '', '0, A, B'):
        for m in (('append', 'insert', 'extend', 'remove', 'reverse', 'clear') if tr else ('append', 'set', 'insert', 'extend', 'remove', 'reverse', 'clear', 'delete', 'drop', 'pop', 'prepend', 'transient')):
            if a == '' and m in ('reverse', 'clear', 'delete', 'drop', 'pop', 'transient') or a == '0, A, B' and m in ('x',): continue
            o.append((f"{v}.{m}({a})", "raise TypeError"))
    return o
ITER = ["'ab'", "''", "b'ab'", "StrSub('a')", '{A: v1}', '{A}', 'frozenset([B])', 'range(2)', 'iter([A, B])', 'gen([A, A2])', '()', 'TupSub((A,))', 'Old([A, B])', 'OnlyIter([B])', 'LyingLen([A, B])', 'NegLen([A])', 'Filling([A, D])', 'NoLen([B])', 'deque([A])', 'UserList([A])', 'map(const, [A])', 'zip([A])', 'enumerate([A])', 'reversed([A, B])', 'filter(None, [A])',
        '{A: v1}.keys()', '{A: v1}.values()', '{A: v1}.items()', 'plist([A, B])', 'tlist([A])', 'llist([L(A), B])', 'tllist([L(B)])', 'pset([A, D])', 'tset([A])', 'pdict([(A, v1)])', 'tdict([(A, v1)])', 'ldict([(A, L(v1))])', 'pdict([(A, v1)]).items()', 'ldict([(A, L(v1))]).values()', 'tdict([(A, v1)]).keys()', 'iter(plist([A]))', 'reversed(plist([A, B]))', 'MyMap({A: v1})', 'bytearray(b"a")', 'memoryview(b"ab")', 'ChainMap({A: 1})']
BADITER = ['5', 'None', '1.5', 'A', 'int', 'object()', 'BadIter()', 'RaiseIter()', 'Ix(1)', 'const', 'HasKeysOnly()', 'Ellipsis']
SETARGS = ITER + BADITER + ['[[]]', '[{}]', '[UH]', 'plist([tlist()])']
PAIRS = ['{A: v1}', '{B: v2, A: v3}', '[(A, v4)]', '[[B, v4]]', "['ab', 'cd']", "''", '()', '[TupSub((A, v2))]', '[plist([A, v5])]', 'plist([(D, v2)])', 'iter([(A, v1)])', 'gen([(A, v1), (A, v2)])', 'Old([(A, v6)])', 'OnlyIter([(B, v6)])', 'LyingLen([(B, v6)])', 'NegLen([(B, v6)])', 'Filling([(A, v2), (D, v1)])', 'NoLen([(B, v5)])', 'MyMap({A: v3})', 'FillingMap({A: v3})', 'NoLenMap({B: v3})', 'UserDict({A: v2})', 'ChainMap({A: v1}, {B: v2})', 'OrderedDict([(A, v1)])', 'defaultdict(int, {A: v2})', 'Counter([A])', 'MappingProxyType({A: v5})',
         '{A: v1}.items()', 'MyMap({A: v1}).items()', '{(A, v2)}', 'pset([(A, v3)])', 'tset([(B, v3)])', 'pdict([(A, v2)])', 'tdict([(A, v3)])', 'ldict([(A, L(v1)), (D, v2)])', 'tldict([(A, L(v4))])', 'pdict([(A, v2)]).items()', 'tdict([(A, v2)]).items()', 'ldict([(B, L(v2))]).items()', 'zip([A, B], [v1, v2])', 'enumerate([v1])', 'map(const, [(A, v1)])', '[gen([A, v1])]', '[OnlyIter([A, v2])]', '[Old([A, v2])]',
         'Row({A: v1, B: v2})', "Row({'ab': v1, 'cd': v2}, ['ab', 'cd'])", 'Row({})', 'Row({}, [(A, v1)])', 'KeysGen({B: v3})', 'KeysAttr(lambda: [A])', "KeysAttr(lambda: iter('ab'), [(A, v1)])", 'KeysHidden([(A, v2)])']
BADPAIRS = BADITER + ['[A]', '[(A,)]', '[(A, v1, v2)]', "['a']", "'ab'", '[()]', '[5]', '[None]', '[(UH, v1)]', '[([], v1)]', 'range(2)', '{A, B}', 'plist([A])', '[gen([A])]', '[BadIter()]',
            'KeysGen({B: v3}, [A])', 'KeysAttr(lambda: 5)', 'KeysAttr(5, [(A, v1)])', 'KeysAttr(None, [(A, v1)])', 'KeysAttr(lambda: [A, [], B])', 'KeysFail([(A, v1)])', 'KeysHidden([A])', 'type(Row({}))']
def grab(it):
    "The items of an iterable as the library's own kinds show them."
    return [x for x in it]
def pairs_(d, it):
    "What a mapping takes from the argument: all of it or, when a pair is refused, what came before."
    if hasattr(it, 'keys'):
        for k in it.keys(): d[k] = it[k]
    else:
        for (k, v) in it: d[k] = v
def pairs_p(d, it, **kw):
    e = dict(d)
    pairs_(e, it); e.update(kw)
    for (k, v) in e.items(): d[k] = v
def s_update(s, *its):
    t = s.copy()
    for it in its:
        for x in it: t.add(x)
    s.d = t.d
def s_update_t(s, *its):
    for it in its:
        for x in it: s.add(x)
def s_minus(s, *its):
    t = s.copy()
    for it in its:
        for x in it: hash(x); t.discard(x)
    s.d = t.d
def s_minus_t(s, *its):
    for it in its:
        for x in it: hash(x); s.discard(x)
def s_remove(s, it):
    t = s.copy()
    for x in it: t.remove(x)
    s.d = t.d
def s_remove_t(s, it):
    for x in it: s.remove(x)
def set_ops(k, thin=1):
    tr = k[0] == 't'
    o = []
    v = 't' if tr else 'p'
    for it in SETARGS[::thin]: o.append((f"{v} = {k}({it})", f"_s = MSet(); s_update_t(_s, {it}); {v} = _s"))
    for a in ('A, B', '[], []', 'x=1', '[A], x=1', 'iterable=[A]'): o.append((f"{v} = {k}({a})", "raise TypeError"))
    for it in SETARGS[::thin]:
        if tr:
            o += [(f"t.update({it})", f"s_update_t(t, {it})"), (f"t.addall({it})", f"s_update_t(t, {it})"), (f"t.discardall({it})", f"s_minus_t(t, {it})"), (f"t.difference_update({it})", f"s_minus_t(t, {it})"), (f"t.removeall({it})", f"s_remove_t(t, {it})"),
                  (f"t.update([A], {it})", f"s_update_t(t, [A], {it})")]
        else:
            o += [(f"p = p.addall({it})", f"s_update(p, {it})"), (f"p = p.discardall({it})", f"s_minus(p, {it})"), (f"p = p.removeall({it})", f"s_remove(p, {it})"), (f"p = p.union({it})", f"s_update(p, {it})"), (f"p = p.difference({it})", f"s_minus(p, {it})"),
                  (f"p = p.union([A], {it})", f"s_update(p, [A], {it})"), (f"p = p.difference({it}, [B])", f"s_minus(p, {it}, [B])"), (f"p = p.union()", "ok()"), ("p = p.difference()", "ok()")]
    v = 't' if tr else 'p'
    for e in ('[]', '{}', 'UH', 'tlist()', 'tdict()', '[A]', 'bytearray()'):
        for m in ('add', 'discard', 'remove'): o.append((f"{v}.{m}({e})", f"hash({e}); ok()"))
        o.append((f"r = {e} in {v}", f"hash({e}); r = False"))
    for it in ('5', 'None', 'A', '[A]', '(A,)', "'ab'", 'gen([A])', 'range(2)', 'plist([A])', 'Old([A])'):
        for op in ('|', '&', '-', '^', '<', '<=', '>', '>='): o.append((f"{v} {op} {it}", "raise TypeError")); o.append((f"{it} {op} {v}", "raise TypeError"))
        for op in ('==', '!='): o.append((f"r = {v} {op} {it}", f"r = {op == '!='}"))
    for m in ('add', 'discard', 'remove', 'addall', 'discardall', 'removeall', 'isdisjoint', 'issubset', 'issuperset'):
        for a in ('', 'A, B'): o.append((f"{v}.{m}({a})", "raise TypeError"))
    for m in ('clear', 'pop', 'copy'): o.append((f"{v}.{m}(A)", "raise TypeError"))
    return o
def map_ops(k, thin=1):
    tr = k[0] == 't'
    o = []
    v = 't' if tr else 'p'
    for it in (PAIRS + BADPAIRS)[::thin]: o += [(f"{v} = {k}({it})", f"_d = {{}}; pairs_(_d, {it}); {v} = _d"), (f"{v} = {k}({it}, x=v2, it=v3, d=v4)", f"_d = {{}}; pairs_(_d, {it}); _d.update(dict(x=v2, it=v3, d=v4)); {v} = _d")]
    for a in ('A, B', '[], []', '[], [], x=1'): o.append((f"{v} = {k}({a})", "raise TypeError"))
    for it in (PAIRS + BADPAIRS)[::thin]:
        if tr: o += [(f"r = t.update({it})", f"pairs_(t, {it}); r = None"), (f"t.update({it}, x=v2)", f"pairs_(t, {it}); t.update(x=v2)")]
        else: o += [(f"p = p.update({it})", f"pairs_p(p, {it})"), (f"p = p.update({it}, x=v2, it=v3, d=v4)", f"pairs_p(p, {it}); p.update(dict(x=v2, it=v3, d=v4))")]
    if not tr:
        for it in SETARGS[::thin]:
            o += [(f"p = p.dropall({it})", f"d_dropall_(p, {it})"), (f"p = p.deleteall({it})", f"d_deleteall_(p, {it})"), (f"p = p.setall({it}, VALS)", f"d_setall_(p, {it}, VALS)"), *([(f"p = p.setall(VALS, {it})", f"d_setall_(p, VALS, {it})")] if 'tlist()' not in it else [])]
    for e in ('[]', '{}', 'UH', 'tlist()', 'tdict()', '[A]', 'bytearray()', '(A, [])'):
        if tr: o += [(f"t[{e}] = v1", f"hash({e})"), (f"del t[{e}]", f"hash({e})"), (f"t.pop({e})", f"hash({e})"), (f"t.pop({e}, v1)", f"hash({e})"), (f"t.setdefault({e})", f"hash({e})"), (f"t.setdefault({e}, v1)", f"hash({e})")]
        else: o += [(f"p.set({e}, v1)", f"hash({e})"), (f"p.drop({e})", f"hash({e})"), (f"p.delete({e})", f"hash({e})"), (f"p.pop({e})", f"hash({e})"), (f"p.pop({e}, v1)", f"hash({e})"), (f"p.setdefault({e})", f"hash({e})"), (f"p.setdefault({e}, v1)", f"hash({e})")]
        o += [(f"{v}[{e}]", f"hash({e})"), (f"{v}.get({e})", f"hash({e})"), (f"{v}.get({e}, v1)", f"hash({e})"), (f"{e} in {v}", f"hash({e})"), (f"{e} in {v}.keys()", f"hash({e})")]
    for i in (f'KK[{j}]' for j in range(len(KK))):
        # any hashable object is a key
        o.append((f"t[{i}] = v3" if tr else f"p = p.set({i}, v3)", f"{v}[{i}] = v3"))
        o.append((f"r = {v}.get({i}, v7)", f"r = {v}.get({i}, v7)"))
        o.append((f"r = t.pop({i}, v7)" if tr else f"(r, p) = p.pop({i}, v7)", f"r = {v}.pop({i}, v7)"))
    for (m, a) in (('get', ''), ('get', 'A, B, C'), ('pop', ''), ('pop', 'A, B, C'), ('setdefault', ''), ('setdefault', 'A, B, C'), ('popitem', 'A'), ('keys', 'A'), ('values', 'A'), ('items', 'A'), ('clear', 'A'), ('copy', 'A')) + ((('set', 'A'), ('set', 'A, v1, v2'), ('drop', ''), ('drop', 'A, B'), ('delete', ''), ('delete', 'A, B'), ('setall', '[A]'), ('dropall', '')) if not tr else ()):
        o.append((f"{v}.{m}({a})", "raise TypeError"))
    return o
def d_dropall_(d, it):
    e = dict(d)
    for k in it: hash(k); e.pop(k, None)
    for k in list(d):
        if k not in e: del d[k]
def d_deleteall_(d, it):
    e = dict(d)
    for k in it: hash(k); del e[k]
    for k in list(d):
        if k not in e: del d[k]
def d_setall_(d, ks, vs):
    e = dict(d)
    for (k, v) in zip(ks, vs): e[k] = v
    for (k, v) in e.items(): d[k] = v
KK = [Ix(0), IntSub(0), Np(1), True, 1.0, 'x', StrSub('x'), None, Ellipsis, (0, 1), TupSub((1,)), pc.plist(), int, fractions.Fraction(1)]
COMMON = dict(KK=KK, Ix=Ix, IntSub=IntSub, Np=Np, IxBad=IxBad, IxRaise=IxRaise, IxFloat=IxFloat, NotIx=NotIx, Old=Old, OnlyIter=OnlyIter, BadIter=BadIter, RaiseIter=RaiseIter, LyingLen=LyingLen, NegLen=NegLen, HasKeysOnly=HasKeysOnly, Row=Row, KeysGen=KeysGen, KeysAttr=KeysAttr, KeysHidden=KeysHidden, KeysFail=KeysFail, MyMap=MyMap, Filling=Filling, NoLen=NoLen, FillingMap=FillingMap, NoLenMap=NoLenMap, StrSub=StrSub, TupSub=TupSub, gen=gen, const=const, first=first,
              Fraction=fractions.Fraction, Decimal=decimal.Decimal, deque=collections.deque, UserList=collections.UserList, UserDict=collections.UserDict, ChainMap=collections.ChainMap, OrderedDict=collections.OrderedDict, defaultdict=collections.defaultdict, Counter=collections.Counter, grab=grab)
import types
COMMON['MappingProxyType'] = types.MappingProxyType
BS = [Ix(0), Ix(1), Ix(-1), IntSub(1), Np(1), Np(-1), Np(2), True, False, 10**20, Ix(-10**20), 1.0, 'a', None, IxBad(), IxRaise(), NotIx(), ()]
def L(x): return pc.lazy(const, x)
def gi(): return dict(COMMON, L=L, mul=mul, rmul=rmul, imul=imul, sl=lambda p: sl(p, BS), lz=lambda p: lz(p, BS))
def gm():
    # the library's kinds are arguments in the model too
    return dict(COMMON, L=L, l_drop=l_drop, l_mul=l_mul, sl=lambda p: sl(p, BS), lz=lambda p: lz_model(p, BS), pairs_=pairs_, pairs_p=pairs_p, s_update=s_update, s_update_t=s_update_t, s_minus=s_minus, s_minus_t=s_minus_t, s_remove=s_remove, s_remove_t=s_remove_t, d_dropall_=d_dropall_, d_deleteall_=d_deleteall_, d_setall_=d_setall_,
                **{k: getattr(pc, k) for k in ('plist', 'tlist', 'llist', 'tllist', 'pset', 'tset', 'pdict', 'tdict', 'ldict', 'tldict')})
def spaces(d, thin):
    th = d > 2
    js = []
    for k in ('plist', 'llist', 'tlist', 'tllist'):
        tr = k[0] == 't'; v = 't' if tr else 'p'; P = {'tlist': 'plist', 'tllist': 'llist'}.get(k, k)
        B = 'L(B)' if 'll' in k else 'B'; T = '.transient()' if tr else ''
        seeds = [[(f"{v} = {k}()", f"{v} = []")], [(f"{v} = {k}([A, {B}, A2])", f"{v} = [A, B, A2]")], [(f"{v} = {P}([{B}]).prepend(A).prepend(A2){T}", f"{v} = [A2, A, B]")], [(f"{v} = {P}([D, D, {B}, A]).delete(0).delete(0){T}", f"{v} = [B, A]")]]
        pr = [(f"type({v}).__name__", f"'{k}'"), (f"list({v})", f"list({v})"), (f"sl({v})", f"sl({v})")]
        if k == 'llist': pr.append(("lz(p)", "lz(p)"))
        js += split(Space(k, seeds, seq_ops(k, thin), pr, depth=d, mutable=tr, gi=gi, gm=gm, within=f'len({v}) <= 8', limit=100000 if th else 20000), 8)
    for k in ('pset', 'tset'):
        tr = k[0] == 't'; v = 't' if tr else 'p'; T = '.transient()' if tr else ''
        seeds = [[(f"{v} = {k}()", f"{v} = MSet()")], [(f"{v} = {k}([A, B, D])", f"{v} = MSet([A, B, D])")], [(f"{v} = pset([C, A2, G]).discard(C){T}", f"{v} = MSet([A2, G])")], [(f"{v} = {k}([C, B, A, 'a'])", f"{v} = MSet([C, B, A, 'a'])")]]
        pr = [(f"type({v}).__name__", f"'{k}'"), (f"list({v})", f"list({v})"), (f"len({v})", f"len({v})")]
        js += split(Space(k, seeds, set_ops(k, thin), pr, depth=d, mutable=tr, gi=gi, gm=gm, limit=100000 if th else 20000), 8)
    for k in ('pdict', 'ldict', 'tdict', 'tldict'):
        tr = k[0] == 't'; v = 't' if tr else 'p'; P = {'tdict': 'pdict', 'tldict': 'ldict'}.get(k, k); T = '.transient()' if tr else ''
        w = 'L(v2)' if 'ld' in k else 'v2'
        seeds = [[(f"{v} = {k}()", f"{v} = {{}}")], [(f"{v} = {k}([(A, {w}), (B, v1)])", f"{v} = {{A: v2, B: v1}}")], [(f"{v} = {P}([(C, v1), (A2, {w}), ('a', v3)]).drop(C){T}", f"{v} = {{A2: v2, 'a': v3}}")]]
        pr = [(f"type({v}).__name__", f"'{k}'"), (f"list({v}.items())", f"list({v}.items())"), (f"len({v})", f"len({v})")]
        js += split(Space(k, seeds, map_ops(k, thin), pr, depth=d, mutable=tr, gi=gi, gm=gm, limit=100000 if th else 20000), 8)
    return js
def jobs(tier): return spaces(2, 1) + (spaces(3, 3) if tier != 'quick' else [])
