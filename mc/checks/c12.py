"""C12: sequence equality and ordering are those of list."""
import itertools
from .. import core, cases, syms, sweep
from ..cases import attempt
from ..core import Space, split
import pcollections as pc
TECHNIQUE = 'explicit-state exploration of pairs of sequences on the real code, plus exhaustive enumeration of operand pairs, against list'
BOUNDS = {
    'quick': "every pair of contents of <= 2 items over 6 elements (equal, self-unequal and unorderable ones included) and of <= 3 items over 3, and of <= 2 over 15 elements with odd orderings (weak orders, only <, only >, results that are no booleans, failing comparisons), for every pair of the kinds plist, llist, tlist, tllist, list "
             "(lazy kinds with lazy values), under ==, !=, <, <=, >, >=; numbers and nested sequences; every sequence against 9 other types; pairs reached by histories of <= 3 edits; every size 0-72 and 14 sizes up to 1025, in 8 representations, against equal contents, contents differing in the first, middle or last item, one item more and one less",
    'thorough': "as quick with contents of <= 3 items over 6 elements, and histories of <= 4 edits",
}
ASSUMPTIONS = ["where Python asks the right operand (a list on the left, or a base type of the right one), a < b means b > a as for user-defined types"]
RULE = "a case is one pair of operand expressions under all six comparisons in both directions; distinct by construction"
G = core.impl_globals(dict(sweep.GI, L=lambda x: pc.lazy(const, x)))
def const(x): return x
class W:
    "Ordered by p, equal only to itself: neither less nor greater, but <= and >=, for equal p."
    def __init__(self, p): self.p = p
    def __lt__(self, o): return self.p < o.p
    def __le__(self, o): return self.p <= o.p
    def __gt__(self, o): return self.p > o.p
    def __ge__(self, o): return self.p >= o.p
class LT:
    "Has only <."
    def __init__(self, p): self.p = p
    def __lt__(self, o): return self.p < o.p
class GT:
    "Has only > and ==."
    def __init__(self, p): self.p = p
    def __gt__(self, o): return self.p > o.p
    def __eq__(self, o): return self.p == o.p
class RAW:
    "Comparisons whose results are no booleans."
    def __lt__(self, o): return 'less'
    def __le__(self, o): return ''
    def __gt__(self, o): return None
    def __ge__(self, o): return 2
    def __eq__(self, o): return []
class YES:
    "All comparisons true (== with itself only)."
    def __lt__(self, o): return True
    __le__ = __gt__ = __ge__ = __lt__
class ERR:
    "Equality or ordering fails."
    def __init__(self, eq, lt): self.eq, self.l = eq, lt
    def __eq__(self, o):
        if self.eq: raise KeyError('eq')
        return False
    def __lt__(self, o):
        if self.l: raise ValueError('lt')
        return True
    def __gt__(self, o): raise IndexError('gt')
    def __le__(self, o): return NotImplemented
G.update(W1=W(1), W1b=W(1), W2=W(2), LT1=LT(1), LT2=LT(2), GT1=GT(1), GT1b=GT(1), GT2=GT(2), RAW1=RAW(), RAW2=RAW(), YES1=YES(), YES2=YES(), ERR1=ERR(1, 0), ERR2=ERR(0, 1), ERR3=ERR(0, 0))
ODD = ('W1', 'W1b', 'W2', 'LT1', 'LT2', 'GT1', 'GT1b', 'GT2', 'RAW1', 'RAW2', 'YES1', 'YES2', 'ERR1', 'ERR2', 'ERR3')
OPS = ['==', '!=', '<', '<=', '>', '>=']
REFL = ['==', '!=', '>', '>=', '<', '<=']
def ev2(a, b, ops=OPS): return [attempt(lambda: eval(f"a {op} b", {'a': a, 'b': b})) for op in ops]
def reflected(l, r):
    "Python asks the right operand first (b > a for a < b): the same for all but odd elements."
    return type(l) is list or type(r) is not type(l) and issubclass(type(r), type(l))
def case(lx, rx, lm, rm):
    l, r = cases.ev(lx, G), cases.ev(rx, G)
    a, b = cases.ev(lm, G), cases.ev(rm, G)
    x, y = ev2(l, r), ev2(b, a, REFL) if reflected(l, r) else ev2(a, b)
    for (op, u, v) in zip(OPS, x, y):
        if u[0] != v[0] or u[1] is not v[1] and u[1] != v[1] or u[0] == 'ok' and type(u[1]) is not type(v[1]):
            return f"{lx} {op} {rx}: {u[1]}; specified: {v[1]}"
    return None
def case_other(lx, rx):
    l, r = cases.ev(lx, G), cases.ev(rx, G)
    for (a, b) in ((l, r), (r, l)):
        for (op, u) in zip(OPS, ev2(a, b)):
            want = ('ok', op == '!=') if op in ('==', '!=') else ('exc', 'TypeError')
            if u != want: return f"{lx} {op} {rx}: {u[1]}; specified: {want[1]}"
    return None
KINDS = ('plist', 'llist', 'tlist', 'tllist')
def render(kind, s):
    if kind in ('llist', 'tllist'): return f"{kind}([{', '.join('L(%s)' % x if i % 2 == 0 else x for (i, x) in enumerate(s))}])"
    if kind == 'list': return f"[{', '.join(s)}]"
    return f"{kind}([{', '.join(s)}])"
def jobs(tier):
    th = tier != 'quick'
    cs = []
    def pairs(alpha, n, kinds):
        cont = [s for k in range(n + 1) for s in itertools.product(alpha, repeat=k)]
        for (a, b) in kinds:
            for s in cont:
                for t in cont: cs.append((render(a, s), render(b, t), render('list', s), render('list', t)))
    allk = [(a, b) for a in KINDS + ('list',) for b in KINDS + ('list',) if (a, b) != ('list', 'list')]
    pairs(('A', 'A2', 'B', 'N', 'U', 'V'), 2, allk)
    pairs(('A', 'B', 'N'), 3, allk)
    if th: pairs(('A', 'A2', 'B', 'N', 'U', 'V'), 3, [('plist', 'plist'), ('plist', 'list'), ('list', 'tlist'), ('tllist', 'llist')])
    pairs(ODD, 1, allk)
    k3 = [('plist', 'plist'), ('tlist', 'list'), ('list', 'plist'), ('llist', 'tllist'), ('list', 'tllist')]
    pairs(('W1', 'W1b', 'LT1', 'GT1', 'GT1b', 'RAW1', 'YES1', 'ERR2'), 2, allk if th else k3)
    pairs(('W1', 'W1b', 'W2', 'A'), 3, k3 if th else k3[:2])
    nums = ('1', 'True', '2', '1.5', 'float("nan")', '-1')
    pairs(nums, 2, [('plist', 'plist'), ('tlist', 'plist'), ('list', 'llist')])
    js = cases.chunks('pairs', 'c12', case, cs, 48)
    nest = [('plist([plist([A]), B])', '[[A], B]'), ('plist([[A], A])', '[[A], A]'), ('tlist([tlist([A]), A])', '[[A], A]'), ('llist([L([A]), B])', '[[A], B]'), ('plist([[]])', '[[]]'), ('plist([plist()])', '[[]]'),
            ('plist([[A, B]])', '[[A, B]]'), ('tllist([L(tlist([A, B])), A])', '[[A, B], A]'), ('[[A]]', '[[A]]'), ('[plist([B])]', '[[B]]'), ('plist()', '[]')]
    js += [core.FuncJob('nested', cases.enumerate_cases, 'c12', case, [(a, b, am, bm) for (a, am) in nest for (b, bm) in nest if not (a[0] == '[' == b[0])])]
    lib = ['plist()', 'plist([A])', 'tlist()', 'tlist([A, B])', 'llist()', 'llist([L(A)])', 'tllist()', 'tllist([L(A)])']
    oth = ['()', '(A,)', '(A, B)', '""', '"A"', 'None', '5', 'range(0)', '{}', 'set()', 'iter([])', 'b""', 'pset([A])', 'pdict()', 'object()']
    js += [core.FuncJob('other-types', cases.enumerate_cases, 'c12:case_other', case_other, [(l, o) for l in lib for o in oth])]
    bigs = []
    for n in (31, 32, 33, 1024):
        e = f"[VALS[i % 8] for i in range({n})]"
        for (k, w) in (('plist', 'tlist'), ('llist', 'plist'), ('tllist', 'list')):
            for d in ([], [0], [n - 1], [n // 2], ['+']):
                if d == ['+']: m = f"({e} + [A])"
                elif d: m = f"({e}[:{d[0]}] + [B] + {e}[{d[0] + 1}:])"
                else: m = e
                bigs.append((f"{k}({e})", f"{w}({m})", e, m)); bigs.append((f"{k}({e}[1:]){'.prepend(v0)' if k[0] != 't' else ''}", f"{w}({m})", e if k[0] != 't' else e + '[1:]', m))
    js += [core.FuncJob('large', cases.enumerate_cases, 'c12', case, bigs)]
    sw = []
    for n in sweep.sizes(tier):
        reps = [f"plist(ES[:{n}])", f"pre(plist, ES[:{n}])", f"strad(plist, ES[:{n}])", f"tlist(ES[:{n}])", f"llist(LS({n}))", f"strad(llist, LS({n}))", f"off(tllist and llist, LS({n})).transient()", f"shrunk(plist, ES[:{n}]).transient()"]
        if n > 300: reps = reps[:1] + reps[2:5]
        m = f"ES[:{n}]"
        others = [(k(f"ES[:{n}]"), m) for k in (lambda x: f"plist({x})", lambda x: x, lambda x: f"tlist({x})")]
        for i in dict.fromkeys((0, n // 2, n - 1)):
            if 0 <= i < n:
                e = f"ES[:{i}] + [D] + ES[{i + 1}:{n}]"
                others += [(f"plist({e})", e), (f"llist({e})", e)]
        others += [(f"plist(ES[:{n + 1}])", f"ES[:{n + 1}]"), (f"plist(ES[:{max(0, n - 1)}])", f"ES[:{max(0, n - 1)}]")]
        for a in reps:
            for (b, bm) in others: sw.append((a, b, m, bm))
    js += cases.chunks('sizes', 'c12', case, sw, 16)
    for (kp, kq) in (('plist', 'tlist'), ('llist', 'tllist'), ('plist', 'llist')):
        ops = []
        for (v, k) in (('p', kp), ('q', kq)):
            tr = k[0] == 't'
            for x in ('A', 'L(B)' if 'll' in k else 'B', 'N'):
                y = x.replace('L(', '(')
                ops += [(f"{v}.append({x})" if tr else f"{v} = {v}.append({x})", f"{v}.append({y})"), (f"{v}.prepend({x})" if tr else f"{v} = {v}.prepend({x})", f"{v}.insert(0, {y})")]
            ops += [(f"del {v}[0]" if tr else f"{v} = {v}.delete(0)", f"del {v}[0]"), (f"{v}[0] = A2" if tr else f"{v} = {v}.set(0, A2)", f"{v}[0] = A2"), (f"{v}.pop()" if tr else f"{v} = {v}.delete()", f"{v}.pop()")]
        seeds = [[(f"p = {kp}([A])", "p = [A]"), (f"q = {kq}()", "q = []")], [(f"p = {kp}([A, B, N])", "p = [A, B, N]"), (f"q = {kq}([A, B])", "q = [A, B]")]]
        f = lambda p, q: ev2(p, q) + ev2(q, p) + ev2(p, p)
        js += split(Space(f'{kp}-{kq}', seeds, ops, [("cmp(p, q)", "cmp(p, q)"), ("cmp(p, [A, B])", "cmp(p, [A, B])")], depth=4 if th else 3, mutable=True, gi=dict(cmp=f, L=G['L']), gm=dict(cmp=f, L=lambda x: x), limit=60000), 4)
    return js
