"""C31: wherever the language and the standard library take a list, set or dict by its interface, the collections do as well."""
import array, bisect, collections, collections.abc as cabc, copy, functools, heapq, inspect, io, itertools, math, operator, random, statistics, string, struct, textwrap, types, urllib.parse
from ..core import Space, split
from .. import core, syms, model
import pcollections as pc
TECHNIQUE = 'explicit-state exploration on the real code of the programs of up to three steps made of edits and uses by the language and the standard library, against list, set and dict'
BOUNDS = {
    'quick': "all ten kinds and subclasses of them, histories of <= 2 steps from 6-9 starts (empty, symbols, numbers, strings, nested, pairs, straddling, 40 items; lazy values in the lazy kinds): every use in a menu of about 120 for sequences, 60 for sets and 90 for mappings "
             "(unpacking, star arguments, match statements, loops, comprehensions, formatting, operators with built-ins, built-in functions, itertools, functools, operator, collections, heapq, bisect, random, statistics, array, string, struct, eval and exec with a mapping as namespace, ...) "
             "after every edit; result, exception type and the contents afterwards compared",
    'thorough': "as quick with histories of <= 3 steps and every start built in three ways",
}
ASSUMPTIONS = ["uses that CPython restricts to the built-in types themselves (str.translate tables as dict displays, heapq on lists, % with a tuple, json) are not included",
               "what subclasses give back in a derived collection is compared by contents, not by type"]
def L(x): return pc.lazy(const, x)
def const(x): return x
# --- subclasses ----------------------------------------------------------------------------------------------
def sub(K):
    class S(K):
        "With a method and nothing else."
        def total(self): return len(self)
    S.__name__ = S.__qualname__ = 'S' + K.__name__
    return S
SUBS = {'S' + k: sub(getattr(pc, k)) for k in ('plist', 'pdict', 'pset', 'llist', 'ldict', 'tlist', 'tdict', 'tset', 'tllist', 'tldict')}
# --- uses that need more than an expression -----------------------------------------------------------------
class U:
    "Uses; each takes the collection and gives something made of built-in types."
    @staticmethod
    def star(*a, **k): return ([*a], {**k})
    @staticmethod
    def named(a=None, b=None, **k): return [a, b, k]
    @staticmethod
    def match_seq(p):
        match p:
            case []: return 'none'
            case [x]: return ['one', x]
            case [x, y]: return ['two', x, y]
            case [x, *r, z]: return ['more', x, r, z]
            case _: return 'no sequence'
    @staticmethod
    def match_nested(p):
        match p:
            case [[x, *_], *r]: return ['nested', x, len(r)]
            case [int(x), *r]: return ['int', x, r]
            case [str() as x, *_]: return ['str', x]
            case {}: return 'mapping'
            case _: return 'else'
    @staticmethod
    def match_map(p):
        match p:
            case {'a': x, 'b': y, **r}: return ['ab', x, y, r]
            case {'a': x}: return ['a', x]
            case {1: x, **r}: return ['1', x, r]
            case {}: return 'mapping'
            case [*_]: return 'sequence'
            case _: return 'else'
    @staticmethod
    def match_class(p):
        match p:
            case cabc.Mapping(): return 'Mapping'
            case cabc.Sequence(): return 'Sequence'
            case cabc.Set(): return 'Set'
            case _: return 'else'
    @staticmethod
    def loop(p):
        out = []
        for (i, x) in enumerate(p):
            if i == 7: break
            out.append(x)
        else: out.append('all')
        return out
    @staticmethod
    def yf(p):
        def g(): yield from p
        return [x for x in g()]
    @staticmethod
    def two(p):
        (a, b) = p
        return [a, b]
    @staticmethod
    def three(p):
        a, *b, c = p
        return [a, b, c]
    @staticmethod
    def inner(p):
        ((a, b), *r) = p
        return [a, b, r]
    @staticmethod
    def slice_into(p, l, i, j):
        l[i:j] = p
        return l
    @staticmethod
    def ext_into(p, l):
        l[::2] = p
        return l
    @staticmethod
    def iadd(p, l):
        l += p
        return l
    @staticmethod
    def ext(p, l):
        l.extend(p)
        return l
    @staticmethod
    def upd(p, d):
        d.update(p)
        return d
    @staticmethod
    def ior(p, d):
        d |= p
        return d
    @staticmethod
    def setupd(p, m):
        s = {1, 'a', syms.A}
        getattr(s, m)(p)
        return s
    @staticmethod
    def two_iters(p):
        i, j = iter(p), iter(p)
        next(i, None)
        return [list(i), list(j), list(i), next(i, 'end')]
    @staticmethod
    def iter_of_iter(p):
        i = iter(p)
        return [iter(i) is i, list(zip(i, i))]
    @staticmethod
    def abcs(p): return [n for n in ('Hashable', 'Iterable', 'Iterator', 'Reversible', 'Sized', 'Container', 'Collection', 'Sequence', 'Set', 'Mapping', 'Callable', 'Generator') if isinstance(p, getattr(cabc, n)) and n != 'Hashable']
    @staticmethod
    def groups(p): return [[k, list(g)] for (k, g) in itertools.groupby(p)]
    @staticmethod
    def tee(p):
        (a, b) = itertools.tee(p)
        return [list(a), list(b)]
    @staticmethod
    def fprint(p, star):
        f = io.StringIO()
        if star: print(*p, sep='|', file=f)
        else: f.writelines(p)
        return f.getvalue()
    @staticmethod
    def ev(p, src): return eval(src, {}, p)
    @staticmethod
    def ex(p, src): exec(src, {'__builtins__': {}}, p)
    @staticmethod
    def ex_read(p, src):
        out = []
        exec(src, {'out': out}, p)
        return out
    @staticmethod
    def bind(p):
        def f(a, b=2, **k): pass
        return inspect.signature(f).bind(**p).arguments
    @staticmethod
    def mk(p): return {k: v for (k, v) in vars(type('X', (), dict(p))).items() if not k.startswith('__')}
    @staticmethod
    def shuffle(p, n): random.Random(n).shuffle(p)
    @staticmethod
    def swap(p): p[0], p[-1] = p[-1], p[0]
    @staticmethod
    def aug(p, k): p[k] += 1
    @staticmethod
    def augl(p): p[0] *= 2
    @staticmethod
    def drain(p):
        out = []
        while p: out.append(p.pop())
        return out
    @staticmethod
    def drain0(p):
        out = []
        while len(p): out.append(p.pop(0))
        return out
    @staticmethod
    def drainset(p):
        out = set()
        while p: out.add(p.pop())
        return out
    @staticmethod
    def drainmap(p):
        out = set()
        while p: out.add(p.popitem()[0])
        return out
    @staticmethod
    def moving(p):
        "Binary insertion of everything in order."
        xs = list(p); p.clear()
        for x in xs: bisect.insort(p, x)
    @staticmethod
    def delwhile(p):
        for i in range(len(p) - 1, -1, -1):
            if i % 2: del p[i]
    @staticmethod
    def count_in(p):
        for x in ('a', 'b', 'a'): p[x] = p.get(x, 0) + 1
    @staticmethod
    def group_in(p):
        for (k, v) in (('x', 1), ('y', 2), ('x', 3)): p.setdefault(k, []).append(v)
    @staticmethod
    def chainmap(p, m):
        c = collections.ChainMap({'z': 0}, m) if m is not None else collections.ChainMap(p)
        c = c.new_child(); c.maps.append(p)
        return [c.get('a', 'no'), 'a' in c, len(c), sorted(map(repr, c)), c.get('z')]
    @staticmethod
    def chain_write(p):
        c = collections.ChainMap(p, {'q': 1})
        c['a'] = 5; c['w'] = c['q']
        del c['a']
        return c.pop('w')
    @staticmethod
    def merged(a, b): return list(heapq.merge(a, b))
    @staticmethod
    def template(p): return string.Template('$a-${b}').substitute(p)
    @staticmethod
    def vf(p): return string.Formatter().vformat('{a}{b!r}', (), p)
    @staticmethod
    def vfl(p): return string.Formatter().vformat('{0}{1!r}', p, {})
    @staticmethod
    def total(p): return len(p)
    @staticmethod
    def partial(p): return functools.partial(U.named, **p)()
    @staticmethod
    def userlist(p): return list(collections.UserList(p))
    @staticmethod
    def lru(p, x):
        @functools.lru_cache
        def f(k): return [k]
        return [f(x) is f(x)]
    @staticmethod
    def bykey(p): return {x: i for (i, x) in enumerate(p)}
    @staticmethod
    def bis(p): return [bisect.bisect_left(p, 2), bisect.bisect_right(p, 2), bisect.bisect(p, 2, 0, len(p) // 2), bisect.bisect_left(p, -2, key=operator.neg)]
    @staticmethod
    def moment(p): return [statistics.mean(p), statistics.median(p), statistics.mode(p), statistics.pvariance(p)]
    @staticmethod
    def wr(p): return textwrap.fill(' '.join(p), 5)
    @staticmethod
    def trans(p): return '\0\1a'.translate(p)
    @staticmethod
    def rnd(p): return [random.Random(3).choice(p), random.Random(4).sample(p, 2), random.Random(5).choices(p, k=3)]
    @staticmethod
    def copies(p): return list(copy.copy(p)) + list(copy.deepcopy(p))
    @staticmethod
    def exc(p):
        try: raise ValueError(*p)
        except ValueError as e: return list(e.args)
    @staticmethod
    def dd(p):
        d = collections.defaultdict(int, p)
        return [dict(d), d['none']]
SEQ = [
    # language
    '[*p]', '(*p,)', '{*p}', '[0, *p, *p]', 'U.star(*p)', 'U.star(1, *p, 2, *p)', 'U.two(p)', 'U.three(p)', 'U.inner(p)', 'U.match_seq(p)', 'U.match_nested(p)', 'U.match_map(p)', 'U.match_class(p)', 'U.loop(p)', 'U.yf(p)',
    '[x for x in p]', '{x for x in p}', '{x: x for x in p}', '[(x, y) for x in p for y in p]', '[x for x in p[1:] if x]', 'not p', 'p or 7', 'bool(p and 1)', '1 if p else 2', 'A in p', '1 not in p', "'a' in p", 'p[0]', 'p[-1]', 'p[1:][:1]', 'len(p[::2])',
    "f'{len(p):3}'", "'{0[0]}'.format(p)", "'{}{}'.format(*p)", 'U.exc(p)',
    # built-in functions and types
    'list(p)', 'tuple(p)', 'set(p)', 'frozenset(p)', 'dict(p)', 'dict.fromkeys(p)', 'dict.fromkeys(p, 1)', 'dict(enumerate(p))', 'dict(zip(p, p))', 'list(enumerate(p, 3))', 'list(zip(p, p[1:]))', 'list(zip(p, range(9), strict=True))', 'list(map(const, p))', 'list(map(pair, p, p))', 'list(filter(None, p))', 'list(reversed(p))',
    'sorted(p)', 'sorted(p, reverse=True)', 'sorted(p, key=str)', 'sorted(p, key=p.index)', 'min(p)', 'max(p)', 'max(p, default=3)', 'min(p, key=str)', 'max(*p)', 'sum(p)', 'sum(p, 2)', 'sum(p, [])', 'any(p)', 'all(p)', 'len(p)', 'next(iter(p))', "next(iter(p), 'none')", 'next(reversed(p), 0)', 'bytes(p)', 'bytearray(p)', 'slice(*p)', 'range(*p)',
    "''.join(p)", "','.join(map(str, p))", 'str.join(str(len(p)), p)', "'abcab'.count(*p)", "U.fprint(p, 0)", "U.fprint(p, 1)", 'isinstance(p, (list, cabc.Sequence))', 'U.abcs(p)', 'callable(p)', 'issubclass(type(p), cabc.Sequence)', 'issubclass(type(p), cabc.Set)', 'p.__len__()', 'p.__contains__(1)', 'list(p.__iter__())', 'p.__getitem__(0)', 'list(p.__reversed__())', 'divmod(*p)', 'complex(*p)', 'U.two_iters(p)', 'U.iter_of_iter(p)', 'length_hint(iter(p))',
    # with built-in collections
    'U.slice_into(p, [1, 2, 3], 1, 2)', 'U.slice_into(p, [1], 1, 1)', 'U.ext_into(p, [1, 2, 3])', 'U.iadd(p, [1])', 'U.ext(p, [A])', 'U.setupd(p, "update")', 'U.setupd(p, "difference_update")', 'U.setupd(p, "intersection_update")', 'U.setupd(p, "symmetric_difference_update")', '{1, A}.union(p)', '{1, A}.issubset(p)', '{1, A}.issuperset(p)', '{1}.isdisjoint(p)', '{A, 2}.intersection(p)', 'U.upd(p, {})', 'U.ior(p, {1: 2})', 'deque(p)', 'list(deque(p, 2))', 'deque([1]) == p', 'Counter(p)', 'Counter(p).most_common(1)', 'OrderedDict(p)', 'U.userlist(p)', 'UserList([1]) == p', 'ntup(*p)', 'ntup._make(p)', 'array("i", p)', 'OrderedDict.fromkeys(p)',
    # itertools, functools, operator, ...
    'list(chain(p, p))', 'list(chain.from_iterable(p))', 'list(islice(p, 1, None))', 'list(islice(cycle(p), 5))', 'list(product(p, repeat=2))', 'list(permutations(p, 2))', 'list(combinations(p, 2))', 'U.groups(p)', 'U.tee(p)', 'list(accumulate(p))', 'list(pairwise(p))', 'list(zip_longest(p, [1]))', 'list(compress(p, cycle([1, 0])))', 'list(takewhile(bool, p))', 'list(starmap(pair, p))', 'list(batched(p, 2))',
    'reduce(pair, p)', 'reduce(pair, p, 0)', 'itemgetter(0)(p)', 'itemgetter(0, -1)(p)', 'itemgetter(slice(1, 3))(p) == p[1:3]', 'indexOf(p, 1)', 'countOf(p, A)', 'op_contains(p, A)', 'getitem(p, -1)', 'methodcaller("count", A)(p)', 'methodcaller("index", A)(p)', 'truth(p)', 'U.merged(p, p)', 'nsmallest(2, p)', 'nlargest(2, p, key=str)', 'U.bis(p)', 'U.rnd(p)', 'U.moment(p)', 'fsum(p)', 'prod(p)', 'hypot(*p)', 'gcd(*p)', 'dist(p, p)', 'sumprod(p, p)', 'struct_pack("4i", *p)', 'U.wr(p)', 'U.trans(p)', 'os_join(*p)', 'U.copies(p)', 'U.vfl(p)', 'U.bykey(p)', 'urlencode(p)', 'commonprefix(p)', 'type(p) is type(p[:0])',
]
SEQMUT = ['r = U.shuffle(t, 1)', 'r = U.shuffle(t, 2)', 'r = U.swap(t)', 'r = U.augl(t)', 'r = U.drain(t)', 'r = U.drain0(t)', 'r = insort(t, 2)', 'r = insort_left(t, 0)', 'r = U.moving(t)', 'r = U.delwhile(t)', 't[0], t[1] = t[1], t[0]', 'for t[0] in (1, 2): pass', 't[-1], r = 1, 2', 'with open_ctx(5) as t[0]: pass', 'setitem(t, 0, A)', 'delitem(t, 0)', 't.extend(map(const, list(t)))', 'r = [t.append(x) for x in list(t)]', 'r = list(map(t.append, "ab"))', 'deque(map(t.remove, list(t)), 0); r = 0', 't.append(len(t))']
SET = ['[*p]', '{*p}', 'U.star(*p)', 'U.loop(p)', 'U.yf(p)', 'U.match_seq(p)', 'U.match_map(p)', 'U.match_class(p)', 'U.two(p)', 'U.three(p)', '[x for x in p]', '{x: x for x in p}', 'not p', 'bool(p or 7)', 'A in p', '1 not in p', 'list(p)', 'tuple(p)', 'set(p)', 'frozenset(p)', 'dict.fromkeys(p)', 'dict(zip(p, p))', 'list(enumerate(p))', 'list(map(const, p))', 'list(filter(p.__contains__, [A, 1, "a"]))', 'sorted(p)', 'sorted(p, key=str)', 'min(p)', 'max(p, default=3)', 'sum(p)', 'any(p)', 'all(p)', 'len(p)', 'next(iter(p), 0)', 'bytes(p)', "''.join(p)", 'U.abcs(p)', 'callable(p)', 'p[0]', 'reversed(p)', 'p + p', 'p * 2', 'U.two_iters(p)', 'U.iter_of_iter(p)', 'length_hint(iter(p))',
       'U.slice_into(p, [1, 2, 3], 1, 2)', 'U.iadd(p, [1])', 'U.ext(p, [A])', 'U.setupd(p, "update")', 'U.setupd(p, "difference_update")', 'U.setupd(p, "intersection_update")', 'U.setupd(p, "symmetric_difference_update")', '{1, A}.union(p)', '{1, A}.issubset(p)', '{1, A}.issuperset(p)', '{1}.isdisjoint(p)', '{A, 2}.intersection(p)', '{A, 2}.symmetric_difference(p)', 'frozenset([A, 1]).difference(p)',
       'deque(p)', 'Counter(p)', 'list(chain(p, p))', 'list(islice(p, 1, None))', 'list(product(p, repeat=2))', 'list(combinations(p, 2))', 'U.tee(p)', 'list(accumulate(p))', 'reduce(pair, p, 0)', 'op_contains(p, A)', 'countOf(p, A)', 'methodcaller("isdisjoint", {1})(p)', 'truth(p)', 'nsmallest(2, p)', 'array("i", p)', 'U.fprint(p, 1)', 'max(*p)', 'U.bykey(p)', "'{}'.format(*p)", 'p["a"]', 'iter(p) is iter(p)']
SETBIN = ['set(p) == p', 'p == set(p)', 'frozenset(p) == p', 'set(p) | p == p', 'p <= set(p)', 'set(p) < p', 'p >= {A}', 'set(p) - p == set()', 'p ^ set(p) == set()', 'p & {A, 1} == {A, 1} & p', '{A: 1}.keys() & p == p & {A}', '{A: 1}.keys() <= p', 'p == {x: 1 for x in p}.keys()', 'p.isdisjoint({})', 'isinstance(p, cabc.Set)', 'issubclass(type(p), cabc.Sequence)', 'p != frozenset(p)', 'p in [set(p)]', '[p].index(set(p))']
SETMUT = ['r = U.drainset(t)', 't |= {1: 0, A: 0}.keys()', 't |= dict.fromkeys([1, 2]).keys()', 't &= {1, A}', 't -= {A}', 't ^= {A: 0, 5: 0}.keys()', 'r = deque(map(t.add, "ab"), 0)', 'r = [t.discard(x) for x in list(t)]', 't -= t', 't ^= t', 't |= t', 't &= t']
MAP = ['[*p]', '{**p}', '{1: 2, **p, "a": 0}', 'U.star(*p)', 'U.star(**p)', 'U.star(1, **p)', 'U.named(**p)', 'U.named(b=9, **p)', 'U.partial(p)', 'U.bind(p)', 'U.loop(p)', 'U.match_map(p)', 'U.match_seq(p)', 'U.match_nested(p)', 'U.match_class(p)', 'U.two(p)', '[x for x in p]', '{v: k for (k, v) in p.items()}', '[(k, p[k]) for k in p]', 'not p', 'bool(p or 7)', '"a" in p', 'A not in p', 'p["a"]', 'p[A]',
       "'%(a)s %(b)r' % p", "'%(a)s' % p", "'{a}{b}'.format(**p)", "'{a}'.format_map(p)", "'{0[a]}'.format(p)", 'U.template(p)', 'U.vf(p)', 'U.ev(p, "a")', 'U.ev(p, "[a, b]")', 'U.ev(p, "len(str(b))")', 'U.ex_read(p, "out.append(a)")', 'U.ex_read(p, "if b: out.append(b)")',
       'dict(p)', 'dict(p, a=7)', 'dict(**p)', 'dict(p.items())', 'list(p)', 'tuple(p)', 'set(p)', 'dict.fromkeys(p)', 'list(p.items())', 'list(p.values())', 'list(p.keys())', 'list(reversed(list(p)))', 'sorted(p)', 'sorted(p.items(), key=str)', 'max(p, key=p.get)', 'max(p.values(), default=0)', 'min(p)', 'sum(p.values())', 'any(p)', 'all(p.values())', 'len(p)', 'next(iter(p), 0)', 'next(iter(p.items()), 0)', 'list(zip(*p.items()))', 'list(zip(p.keys(), p.values()))', 'list(map(p.get, ["a", A, 1]))', 'list(filter(p.__contains__, ["a", A, 1]))', 'list(map(p.__getitem__, p))', "''.join(p)", 'U.abcs(p)', 'callable(p)', 'isinstance(p, (dict, cabc.Mapping))', 'U.two_iters(p)', 'U.two_iters(p.items())', 'U.iter_of_iter(p.values())', 'length_hint(iter(p))',
       'U.upd(p, {})', 'U.upd(p, {"a": 0, "z": 1})', 'U.ior(p, {"z": 1})', 'U.upd(p.items(), {"a": 0})', 'OrderedDict(p)', 'OrderedDict(p.items())', 'U.dd(p)', 'UserDict(p).data', 'Counter(p)', 'Counter(p.values())', 'U.chainmap(p, None)', 'U.chainmap(p, {"a": 3})', 'dict(ChainMap(p))', 'dict(ChainMap({"a": 0}, p))', 'dict(MappingProxyType(p))', 'MappingProxyType(p)["a"]', 'vars(SimpleNamespace(**p))', 'U.mk(p)', 'U.iadd(p, [1])', 'U.ext(p.values(), [A])', 'U.setupd(p, "update")', '{1, "a"} & p.keys()', '{1, "a"}.union(p)', '{"a"}.issubset(p)', 'p.keys() == set(p)', 'p.keys() >= {"a"}', '{"a": 1}.items() & p.items()', 'p.items() == set(p.items())', 'p == dict(p)', 'dict(p) == p', 'p != {}', '{"a": 1} == p', 'OrderedDict(p) == p', 'p in [dict(p)]', 'deque(p)', 'list(chain(p, p.values()))', 'list(islice(p.items(), 1, None))', 'itemgetter("a")(p)', 'itemgetter("a", "b")(p)', 'op_contains(p, "a")', 'getitem(p, "a")', 'methodcaller("get", "q", 3)(p)', 'urlencode(p)', 'U.trans(p)', 'reduce(pair, p.items(), 0)', 'issubclass(type(p), cabc.Mapping)', 'issubclass(type(p), cabc.Sequence)', 'isinstance(p.keys(), cabc.Set)', 'isinstance(p.keys(), cabc.KeysView)', 'isinstance(p.items(), cabc.Set)', 'isinstance(p.items(), cabc.ItemsView)', 'isinstance(p.values(), cabc.Collection)', 'isinstance(p.values(), cabc.ValuesView)', 'U.copies(p)', 'p < p', 'p + p', 'p * 2', 'p[0:1]', 'reduce(getitem, ["a", 0], p)']
MAPMUT = ['r = U.drainmap(t)', 'r = U.count_in(t)', 'r = U.group_in(t)', 'r = U.aug(t, "a")', 'r = U.aug(t, 1)', 'r = U.ex(t, "c = a; a = 5")', 'r = U.ex(t, "del a")', 'r = U.ex(t, "for q in (1, 2): pass")', 'r = U.ex(t, "x = y = 1\\ndel x")', 'r = U.chain_write(t)', 'for t["k"] in (1, 2): pass', 't["a"], t["b"] = 1, 2', '(t["q"], *t["w"]) = (1, 2, 3)', 'setitem(t, "a", 4)', 'delitem(t, "a")', 'with open_ctx(5) as t["a"]: pass', 'r = [t.pop(k) for k in list(t)]', 'r = deque(map(t.__delitem__, list(t)), 0)', 't.update(zip("ab", (1, 2)))', 't.update({"a": 4}, z=3)', 't.update(ChainMap({"c": 1}))', 't["n"] = len(t)', 'r = list(map(t.setdefault, ["a", "m"]))']
class _Ctx:
    def __init__(self, x): self.x = x
    def __enter__(self): return self.x
    def __exit__(self, *a): return False
def pair(a, b): return (a, b)
def random_choice(p): return random.Random(1).choice(p)
def length_hint(it):
    "At most what is to come: a hint may be anything, but must be a length."
    n = operator.length_hint(it, 0)
    return n >= 0
NTup = collections.namedtuple('NTup', 'x y')
import os.path
NAMES = dict(U=U, cabc=cabc, pair=pair, const=const, L=L, random_choice=random_choice, length_hint=length_hint, deque=lambda *a: list(collections.deque(*a)), Counter=collections.Counter, OrderedDict=collections.OrderedDict, UserList=collections.UserList, UserDict=collections.UserDict, ChainMap=collections.ChainMap, MappingProxyType=types.MappingProxyType, SimpleNamespace=types.SimpleNamespace, ntup=NTup,
             array=lambda *a: array.array(*a).tolist(), struct_pack=struct.pack, os_join=os.path.join, commonprefix=os.path.commonprefix, urlencode=urllib.parse.urlencode, open_ctx=_Ctx, setitem=operator.setitem, delitem=operator.delitem, itemgetter=operator.itemgetter, methodcaller=operator.methodcaller, indexOf=operator.indexOf, countOf=operator.countOf, op_contains=operator.contains, getitem=operator.getitem, truth=operator.truth,
             reduce=functools.reduce, insort=bisect.insort, insort_left=bisect.insort_left, nsmallest=heapq.nsmallest, nlargest=heapq.nlargest, fsum=math.fsum, prod=math.prod, hypot=math.hypot, gcd=math.gcd, dist=math.dist, sumprod=math.sumprod,
             **{n: getattr(itertools, n) for n in ('chain', 'islice', 'cycle', 'product', 'permutations', 'combinations', 'accumulate', 'pairwise', 'zip_longest', 'compress', 'takewhile', 'starmap', 'batched')})
def norm(x, d=0):
    "What a use gave, put into lists, tuples and the like so that the library's answer and the built-in one can be compared."
    if isinstance(x, model.MSet): x = set(x)
    if type(x) in (list, tuple): return type(x)(norm(y, d + 1) for y in x)
    if isinstance(x, (set, frozenset)): return {norm(y, d + 1) for y in x}
    if isinstance(x, dict): return {norm(k, d + 1): norm(v, d + 1) for (k, v) in x.items()}
    if type(x) is bytearray: return bytes(x)
    if type(x) is slice: return norm((x.start, x.stop, x.step))
    if type(x) is range: return list(x)
    if type(x) is complex: return str(x)
    if isinstance(x, NTup): return ['ntup', norm(x.x), norm(x.y)]
    return x
def gi(): return dict(NAMES, norm=norm, **SUBS)
def gm():
    return dict(NAMES, norm=norm, L=const)
EDITS = {
    'plist': [("p = p.append(A)", "p.append(A)"), ("p = p.prepend(2)", "p.insert(0, 2)"), ("p = p.delete(0)", "del p[0]"), ("p = p.delete()", "del p[-1]"), ("p = p.set(0, 'a')", "p[0] = 'a'"), ("p = p.reverse()", "p.reverse()"), ("p = p[1:]", "p = p[1:]"), ("p = p.clear()", "p.clear()"), ("p = p + p", "p = p + p"), ("p = p.transient().persistent()", "ok()")],
    'tlist': [("t.append(A)", "t.append(A)"), ("t.insert(0, 2)", "t.insert(0, 2)"), ("del t[0]", "del t[0]"), ("del t[-1]", "del t[-1]"), ("t[0] = 'a'", "t[0] = 'a'"), ("t.reverse()", "t.reverse()"), ("t.clear()", "t.clear()"), ("t.extend(list(t))", "t.extend(list(t))")],
    'pset': [("p = p.add(A)", "p.add(A)"), ("p = p.add('a')", "p.add('a')"), ("p = p.discard(1)", "p.discard(1)"), ("p = p.discard(A)", "p.discard(A)"), ("p = p.clear()", "p.clear()"), ("p = p.transient().persistent()", "ok()")],
    'tset': [("t.add(A)", "t.add(A)"), ("t.add('a')", "t.add('a')"), ("t.discard(1)", "t.discard(1)"), ("t.clear()", "t.clear()")],
    'pdict': [("p = p.set('a', 1)", "p['a'] = 1"), ("p = p.set('b', A)", "p['b'] = A"), ("p = p.set(A, 2)", "p[A] = 2"), ("p = p.drop('a')", "p.pop('a', None)"), ("p = p.delete('a')", "del p['a']"), ("p = p.clear()", "p.clear()"), ("p = p.update(b='x')", "p.update(b='x')"), ("p = p.transient().persistent()", "ok()")],
    'tdict': [("t['a'] = 1", "t['a'] = 1"), ("t['b'] = A", "t['b'] = A"), ("t[A] = 2", "t[A] = 2"), ("del t['a']", "del t['a']"), ("t.clear()", "t.clear()")],
}
STARTS = {
    'seq': ['', 'A', 'A, B, A2', '3, 1, 2, 1', "'a', 'b', 'a'", '[2, 1], [3]', "('a', 1), ('b', 2)", '1, 2', *(["*range(40)"])],
    'set': ['', 'A', 'A, B, D', '3, 1, 2', "'a', 'b'", '(1, 2), (2, 1)', '*range(40)'],
    'map': ['', "('a', 1)", "('a', 1), ('b', 2)", "(A, B), (D, 'x')", "(1, 3), (0, 'z'), ('b', 2)", "('b', [5]), ('a', 'xy'), ('c', None)", "*[(f'k{i}', i) for i in range(40)]"],
}
def ops(k):
    tr = k.lstrip('S')[0] == 't'
    v = 't' if tr else 'p'
    base = {'plist': 'plist', 'llist': 'plist', 'tlist': 'tlist', 'tllist': 'tlist', 'pset': 'pset', 'tset': 'tset', 'pdict': 'pdict', 'ldict': 'pdict', 'tdict': 'tdict', 'tldict': 'tdict'}[k.lstrip('S')]
    import re
    rd = lambda e: re.sub(r'\bp\b', v, e)
    o = list(EDITS[base])
    if k.lstrip('S') in ('llist',): o += [("p = p.append(L(2))", "p.append(2)")]
    if k.lstrip('S') in ('ldict',): o += [("p = p.set('a', L(3))", "p['a'] = 3")]
    if k.lstrip('S') in ('tllist',): o += [("t.append(L(2))", "t.append(2)")]
    if k.lstrip('S') in ('tldict',): o += [("t['a'] = L(3)", "t['a'] = 3")]
    if base in ('plist', 'tlist'):
        o += [(f"r = norm({rd(e)})",) * 2 for e in SEQ]
        if tr: o += [(e, e) for e in SEQMUT]
        else: o += [("r = U.lru(p, p)", "hash(tuple(p)); r = [True]")]
    elif base in ('pset', 'tset'):
        o += [(f"r = norm({rd(e)})", f"r = norm({rd(e)})") for e in SET if e not in SETM] + [(f"r = norm({rd(e)})", rd(SETM[e])) for e in SETM] + [(f"r = norm({rd(e)})", f"r = norm({SB(e, v)})") for e in SETBIN]
        if tr: o += [(e, m) for (e, m) in zip(SETMUT, SETMUT_M)]
    else:
        o += [(f"r = norm({rd(e)})",) * 2 for e in MAP]
        if tr: o += [(e, e) for e in MAPMUT]
    return o
SETM = {'methodcaller("isdisjoint", {1})(p)': 'r = 1 not in p', 'p[0]': 'raise TypeError', 'reversed(p)': 'raise TypeError', 'p + p': 'raise TypeError', 'p * 2': 'raise TypeError', 'p["a"]': 'raise TypeError', 'iter(p) is iter(p)': 'r = False', 'U.match_class(p)': "r = 'Set'", 'U.abcs(p)': "r = ['Iterable', 'Sized', 'Container', 'Collection', 'Set']"}
def SB(e, v):
    import re
    return re.sub(r'\bp\b', f'set({v})', e)
SETMUT_M = ['r = set(t); t.clear()', 't.update([1, A])', 't.update([1, 2])', 's_iand(t, [1, A])', 't.discard(A)', 's_ixor(t, [A, 5])', 't.update("ab"); r = []', 'r = [None] * len(t); t.clear()', 't.clear()', 't.clear()', 'ok()', 'ok()']
def jobs(tier):
    th = tier != 'quick'
    js = []
    for k0 in ('plist', 'llist', 'tlist', 'tllist', 'pset', 'tset', 'pdict', 'ldict', 'tdict', 'tldict'):
        for k in (k0, 'S' + k0):
            tr = k0[0] == 't'; v = 't' if tr else 'p'
            kind = 'seq' if 'list' in k else 'set' if 'set' in k else 'map'
            seeds = []
            for c in STARTS[kind]:
                m = {'seq': f"[{c}]", 'set': f"MSet([{c}])", 'map': f"dict([{c}])"}[kind]
                lz = c
                if 'll' in k and c and '*' not in c and '[' not in c and '(' not in c:
                    xs = c.split(', '); lz = ', '.join(f'L({x})' if i % 2 == 0 else x for (i, x) in enumerate(xs))
                if 'ld' in k and c == "('a', 1), ('b', 2)": lz = "('a', L(1)), ('b', 2)"
                if 'ld' in k and c == "('a', 1)": lz = "('a', L(1))"
                seeds.append([(f"{v} = {k}([{lz}])", f"{v} = {m}")])
                if kind == 'seq' and not tr and c and th: seeds.append([(f"{v} = {k}([{lz}, 1]).delete().prepend(0).delete(0)", f"{v} = {m}")])
            pr = [(f"list({v}.items())", f"list({v}.items())") if kind == 'map' else (f"list({v})", f"list({v})"), (f"len({v})", f"len({v})")]
            if k[0] != 'S': pr.append((f"type({v}).__name__", f"'{k}'"))
            js += split(Space(k, seeds, ops(k), pr, depth=3 if th else 2, mutable=tr, gi=gi, gm=gm, within=f'len({v}) <= 12 or len({v}) in (40, 41)', limit=100000), 6 if th else 1)
    return js
