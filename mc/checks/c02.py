"""C02: indexing, slicing, iterating and searching any sequence agree with list."""
from ..core import Space, split, mcopy
from .. import menus, reads, syms, sweep, cases, core
import pcollections as pc
import itertools
BOUNDS = {
    'quick': "plist, tlist, llist, tllist: all contents up to 4 items over elements with equal and self-unequal members, reached by "
             "appending, prepending, inserting and deleting at either end (so with every internal offset); in every state every integer "
             "index in [-n-2, n+1], every slice with bounds in [-n-2, n+2] and 8 steps, and every index(value, start, stop); "
             "searches and comparisons of all lists of <= 3 of 8 items whose == raises, gives non-booleans or answers for some only; "
             "a reduced set of reads at the sizes 31-34 and 1023-1056",
    'thorough': "as quick with contents up to 5 items and 5 edits",
}
ASSUMPTIONS = ["elements are opaque apart from == (data independence)"]
RULE = "a case is one list of odd items, built one way; distinct by construction"
ELS = [syms.A, syms.A2, syms.B, syms.N, syms.v0]
def const(x): return x
def L(x): return pc.lazy(const, x)
def gi(): return dict(reads=lambda p: reads.seq_reads(p, ELS), reads_lite=lambda p: reads.seq_reads(p, ELS[:3] + ELS[-1:], False), L=L)
def gm(): return dict(reads=lambda p: reads.seq_reads(p, ELS), reads_lite=lambda p: reads.seq_reads(p, ELS[:3] + ELS[-1:], False), L=lambda x: x)
PR = [("reads(p)", "reads(p)"), ("type(p).__name__", "kind")]
def pedits(lz):
    W = (lambda x: f'L({x})') if lz else (lambda x: x)
    o = []
    for x in ('A', W('B'), 'N'):
        o += [(f"p = p.append({x})", f"p.append({x})"), (f"p = p.prepend({x})", f"p.insert(0, {x})")]
    o += [("p = p.append(A2)", "p.append(A2)"), (f"p = p.set(0, {W('A2')})", "p[0] = A2"), ("p = p.insert(1, A)", "p.insert(1, A)"),
          (f"p = p.insert(-1, {W('B')})", "p.insert(-1, B)"),
          ("p = p.delete(0)", "del p[0]"), ("p = p.delete(-1)", "del p[-1]"), ("p = p.delete(1)", "del p[1]")]
    return o
def tedits(lz):
    W = (lambda x: f'L({x})') if lz else (lambda x: x)
    o = []
    for x in ('A', W('B'), 'N'):
        o += [(f"p.append({x})", f"p.append({x})"), (f"p.prepend({x})", f"p.insert(0, {x})")]
    o += [("p.append(A2)", "p.append(A2)"), (f"p[0] = {W('A2')}", "p[0] = A2"), ("p.insert(1, A)", "p.insert(1, A)"),
          (f"p.insert(-1, {W('B')})", "p.insert(-1, B)"),
          ("del p[0]", "del p[0]"), ("del p[-1]", "del p[-1]"), ("del p[1]", "del p[1]"),
          ("p = type(p)(p.persistent())", "ok()")]
    return o
ES = syms.ES
def sreads(p):
    "Reads whose bounds scale with the size."
    n = len(p)
    out = []
    def rd(label, fn): out.append((label, reads.o(fn)))
    rd('len', lambda: len(p)); rd('list', lambda: list(p)); rd('reversed', lambda: list(reversed(p))); rd('bool', lambda: bool(p)); rd('indexes', lambda: [p[i] for i in range(-n, n)])
    rd('two iterators', lambda: [x for ab in zip(iter(p), iter(p)) for x in ab]); rd('unpack', lambda: [*p]); rd('tuple', lambda: tuple(p))
    for i in (n, -n - 1, n + 1, 2 * n + 1, 10**9): rd(f'[{i}]', lambda: p[i])
    pos = sorted({0, 1, 2, n // 3, n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1, 31, 32, 33})
    for e in [ES[i] for i in sorted({0, 1, n // 2, max(0, n - 1), n})]:
        rd(f'in {e}', lambda: e in p); rd(f'count {e}', lambda: p.count(e)); rd(f'index {e}', lambda: p.index(e))
        for i in pos:
            rd(f'index {e},{i}', lambda: p.index(e, i)); rd(f'index {e},{-i}', lambda: p.index(e, -i))
            rd(f'index {e},0,{i}', lambda: p.index(e, 0, i)); rd(f'index {e},{i},-1', lambda: p.index(e, i, -1))
    b = [None] + sorted({x for i in pos for x in (i, -i)})
    for s in b:
        for e in b:
            for st in ((None, -1, 2, -3) if n < 20 else (None, -2)): rd(f'[{s}:{e}:{st}]', lambda: reads.slice_(p, s, e, st))
    for st in (1, 2, 3, 5, 7, 32, n, n - 1, n + 1, -1, -2, -3, -7, -n, -n - 1):
        if st: rd(f'[::{st}]', lambda: reads.slice_(p, None, None, st))
    return out
from .c01 import BUILTINS
BV = [None, 1, True, '', 0, False, syms.N, syms.N2, 0.0, -1, -2, -1.0, (), [], (1, 2), 'ab', b'', Ellipsis, 1.0, 2]
def breads(p): return reads.seq_reads(p, BV, False)
class Picky:
    "Cannot be compared to anything but itself."
    def __init__(self, i): self.i = i
    def __eq__(self, o): raise ValueError(self.i)
    __hash__ = None
    def __repr__(self): return f'Picky({self.i})'
class Quiet:
    "Equal to some, and says nothing about the others."
    def __init__(self, *eq): self.eq = eq
    def __eq__(self, o): return True if any(o is x for x in self.eq) else NotImplemented
    __hash__ = None
    def __repr__(self): return f'Quiet{self.eq}'
class Truthy:
    "Whose == gives an object, not a boolean, sometimes one without truth."
    def __init__(self, r): self.r = r
    def __eq__(self, o): return self.r
    __hash__ = None
    def __repr__(self): return f'Truthy({self.r!r})'
class NoBool:
    def __bool__(self): raise KeyError('no truth')
    def __repr__(self): return 'NoBool'
ODD = [syms.A, syms.B, Picky(0), Picky(1), Quiet(syms.A), Truthy([]), Truthy('x'), Truthy(NoBool())]
ODDN = ['A', 'B', 'Picky(0)', 'Picky(1)', 'Quiet(A)', 'Truthy([])', "Truthy('x')", 'Truthy(NoBool())']
def odd_case(kind, how, idx, depth):
    "Searches of a list in which comparisons may fail or give odd results."
    items = [ODD[i] for i in idx]
    cls = getattr(pc, kind)
    h = len(items) // 2
    if how == 'new': p = cls(items)
    elif how == 'grown':
        p = cls(items[h:])
        for x in reversed(items[:h]):
            if kind[0] == 't': p.prepend(x)
            else: p = p.prepend(x)
    else: p = cls([pc.lazy(const, x) for x in items])
    names = f"{kind}({', '.join(ODDN[i] for i in idx)}) ({how})"
    n = len(items)
    def rem(q, x):
        if isinstance(q, list) or kind[0] == 't':
            q = q.copy(); q.remove(x); return [id(y) for y in q]
        return [id(y) for y in q.remove(x)]
    fs = [(f"{ODDN[j]} in", lambda p, j=j: ODD[j] in p) for j in range(len(ODD))] + [(f"index {ODDN[j]}", lambda p, j=j: p.index(ODD[j])) for j in range(len(ODD))] + [(f"count {ODDN[j]}", lambda p, j=j: p.count(ODD[j])) for j in range(len(ODD))]
    fs += [(f"index {ODDN[j]}, 1", lambda p, j=j: p.index(ODD[j], 1)) for j in range(len(ODD))] + [(f"index {ODDN[j]}, 0, -1", lambda p, j=j: p.index(ODD[j], 0, -1)) for j in range(len(ODD))] + [(f"remove {ODDN[j]}", lambda p, j=j: rem(p, ODD[j])) for j in range(len(ODD))]
    for o in ([items] + [[*items[:i], x, *items[i + 1:]] for i in range(n) for x in (syms.A, Picky(2), Truthy([]), Truthy(1))]):
        fs += [(f"== {o}", lambda p, o=o: p == o), (f"!= {o}", lambda p, o=o: p != o), (f"== {cls.__name__}({o})", lambda p, o=o: p == (o if type(p) is list else cls(o)))]
    for (nm, f) in fs:
        a = cases.attempt(lambda: f(p)); b = cases.attempt(lambda: f(items))
        if a[0] == 'exc' and isinstance(a[1], BaseException): a = ('exc', type(a[1]))
        if b[0] == 'exc' and isinstance(b[1], BaseException): b = ('exc', type(b[1]))
        if a != b or type(a[1]) is not type(b[1]): return f"{nm} with {names}: {a}; specified: {b}"
    return None
def odd_cases(th):
    return [(k, h, c, 0) for k in ('plist', 'tlist', 'llist', 'tllist') for h in ('new', 'grown') + (('lazy',) if 'll' in k else ()) for n in range(5 if th else 4) for c in itertools.product(range(len(ODD)), repeat=n)]
def jobs(tier):
    th = tier != 'quick'
    js = []
    for (k, lz, tr) in (('plist', 0, 0), ('llist', 1, 0), ('tlist', 0, 1), ('tllist', 1, 1)):
        seeds = [[(f"p = {k}()", "p = []"), ("_k = 0", "_k = 0")]]
        seeds.append([(f"p = {k}([A, {'L(B)' if lz else 'B'}, A2])", "p = [A, B, A2]")])
        s = Space(k, [sd + [("kind = %r" % k, "kind = %r" % k)] for sd in seeds], tedits(lz) if tr else pedits(lz), PR,
                  depth=4 if th else 3, mutable=bool(tr or lz), within=f'len(p) <= {4 if th else 3}', gi=gi, gm=gm, limit=60000)
        js += split(s, 14)
        big = []
        for n in (31, 32, 33, 34, 65, 1023, 1024, 1025, 1056):
            mk = f"[VALS[i % 8] for i in range({n})]"
            big.append([(f"p = {k}({mk})", f"p = {mk}"), ("kind = %r" % k, "kind = %r" % k)])
            big.append([(f"p = {k}({mk}[3:])", f"p = {mk}[3:]"), ("kind = %r" % k, "kind = %r" % k)] +
                       [(("p.prepend(v%d)" if tr else "p = p.prepend(v%d)") % i, f"p.insert(0, v{i})") for i in (2, 1, 0)])
        ops = [("p.prepend(A)", "p.insert(0, A)"), ("del p[0]", "del p[0]")] if tr else \
              [("p = p.prepend(A)", "p.insert(0, A)"), ("p = p.delete(0)", "del p[0]")]
        js += split(Space(k + '-large', big, ops, [("reads_lite(p)", "reads_lite(p)")], depth=0, mutable=bool(tr or lz), gi=gi, gm=gm))
        js += sweep.sweep(k + '-sizes', sweep.list_seeds(k, sweep.SMALL[5:] + (sweep.LARGE if th else sweep.LARGE[:5])), [], [("sreads(p)", "sreads(p)")], gi=dict(sreads=sreads), gm=dict(sreads=sreads), mutable=True, depth=0)
        for (i, e) in enumerate(BUILTINS):
            cont = [c for n in range(4) for c in itertools.product(e, repeat=n)]
            sd = [[(f"p = {k}([{', '.join(c)}])", f"p = [{', '.join(c)}]")] for c in cont]
            js += sweep.sweep(f'{k}-builtins{i}', sd, [], [("breads(p)", "breads(p)")], gi=dict(breads=breads), gm=dict(breads=breads), mutable=True, depth=0, k=2)
    js += cases.chunks('odd', 'c02:odd_case', odd_case, odd_cases(th), 16)
    return js
