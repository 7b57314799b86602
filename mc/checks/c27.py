"""C27: comparison and printing helpers keep their documented contracts."""
import itertools, math
from .. import core, cases, syms, menus, minimal, sweep
from ..core import Space, split
from ..cases import attempt
import pcollections as pc
from pcollections.util import setcmp, seqcmp, seqstr
TECHNIQUE = 'exhaustive enumeration of inputs of the real helpers against executable specifications, plus explicit-state exploration of the printed forms of the collections'
BOUNDS = {
    'quick': "setcmp on all pairs of subsets of 4 elements in two orders for all pairs of 9 kinds of set; seqcmp on all pairs of contents of <= 2 items over 6 elements (equal, self-unequal, unorderable included) and <= 3 over 3 for all pairs of 9 kinds of sequence; both on all pairs with 12 other types; "
             "seqstr on all sequences of <= 6 elements of widths 0-3 (<= 3 of 0-7) x 4 separators x every maxlen from 3 to the full length + 1, for lists, generators, sets, mappings, with and without tostr; invalid maxlen; str and repr of all ten kinds for all contents of <= 4 elements "
             "of 7 widths, with lazy values, and in every state reached by histories of <= 3 updates; "
             "setcmp on all pairs of 22 sizes up to 129 and every overlap, seqcmp and printed forms on every size 0-72 and 14 sizes up to 1025, seqstr on up to 33 elements; printing 24 kinds of collections and views of 1-40 items of which the first, middle or last raises one of 7 types of exception",
    'thorough': "as quick with <= 7 elements of widths 0-3 (<= 5 of 0-7), and histories of <= 4 updates",
}
ASSUMPTIONS = ["printed elements depend only on repr; orderings among elements are consistent"]
RULE = "a case is one call (one pair of operands, or one sequence under all maxlen); distinct by construction"
def const(x): return x
def L(x): return pc.lazy(const, x)
def R(x):
    l = pc.lazy(const, x); l()
    return l
class Wide:
    "Prints as w letters."
    def __init__(self, w, c='x'): self.t = c * w
    def __repr__(self): return self.t
    def __eq__(self, o): return isinstance(o, Wide) and self.t == o.t
    def __hash__(self): return hash(self.t)
def W(*ws): return [Wide(w, 'abcdefgh'[i % 8]) for (i, w) in enumerate(ws)]
G = core.impl_globals(dict(sweep.GI, **minimal.ALL, W=W, range=range))
# ---- setcmp ------------------------------------------------------------------------------------------
def setcmp_case(lx, rx):
    l, r = cases.ev(lx, G), cases.ev(rx, G)
    a, b = set(l), set(r)
    w = 0 if a == b else -1 if a < b else 1 if a > b else None if not a & b else ...
    l0, r0 = list(map(id, l)), list(map(id, r))
    o = attempt(lambda: setcmp(l, r))
    if o[0] != 'ok' or o[1] is not w: return f"setcmp({lx}, {rx}) is {o[1]}; specified: {w}"
    if list(map(id, l)) != l0 or list(map(id, r)) != r0: return f"setcmp({lx}, {rx}) changed an operand"
    return None
# ---- seqcmp ------------------------------------------------------------------------------------------
def seqspec(l, r):
    for (a, b) in zip(l, r):
        if a is b or a == b: continue
        if a < b: return -1
        if b < a: return 1
        return math.nan
    return (len(l) > len(r)) - (len(l) < len(r))
def seqcmp_case(lx, rx, lm, rm):
    l, r, a, b = [cases.ev(x, G) for x in (lx, rx, lm, rm)]
    o = attempt(lambda: seqcmp(l, r))
    w = attempt(lambda: seqspec(a, b))
    same = o == w or (o[0] == w[0] == 'ok' and o[1] != o[1] and w[1] != w[1])
    return None if same else f"seqcmp({lx}, {rx}) is {o[1]}; specified: {w[1]}"
def reject_case(fn, lx, rx):
    f = {'setcmp': setcmp, 'seqcmp': seqcmp}[fn]
    for (x, y) in ((lx, rx), (rx, lx)):
        o = attempt(lambda: f(cases.ev(x, G), cases.ev(y, G)))
        if o != ('exc', 'TypeError'): return f"{fn}({x}, {y}) is {o[1]}; specified: TypeError"
    return None
# ---- seqstr ------------------------------------------------------------------------------------------
def spec(parts, maxlen, sep=', '):
    "The full text if it fits, otherwise the longest prefix that fits together with an ellipsis."
    full = sep.join(parts)
    if maxlen is None or len(full) <= maxlen: return full
    for k in range(len(parts), -1, -1):
        t = sep.join(parts[:k] + ['...'])
        if len(t) <= maxlen: return t
def tos(x): return f'<{x!r}>'
def seqstr_case(ws, sep, form):
    els = W(*ws)
    mk = {'list': lambda: els, 'gen': lambda: (x for x in els), 'plist': lambda: pc.plist(els), 'tlist': lambda: pc.tlist(els), 'tuple': lambda: tuple(els), 'tostr': lambda: els,
          'dict': lambda: {i: x for (i, x) in enumerate(els)}, 'pdict': lambda: pc.pdict(enumerate(els)), 'tdict': lambda: pc.tdict(enumerate(els)), 'dict-tostr': lambda: {i: x for (i, x) in enumerate(els)}}[form]
    kw = dict(tostr=tos) if 'tostr' in form else {}
    if sep != ', ': kw['sep'] = sep
    f = kw.get('tostr', repr)
    parts = [f"{f(i)}: {f(x)}" for (i, x) in enumerate(els)] if 'dict' in form else [f(x) for x in els]
    full = sep.join(parts)
    what = f"seqstr({form} of {parts}, sep={sep!r}"
    for m in [None] + list(range(3, len(full) + 2)):
        for call in ((lambda: seqstr(mk(), m, **kw)), (lambda: seqstr(mk(), maxlen=m, **kw))) + (((lambda: seqstr(mk(), **kw)),) if m is None else ()):
            o = attempt(call)
            w = spec(parts, m, sep)
            if o != ('ok', w): return f"{what}, maxlen={m}) is {o[1]!r}; specified: {w!r}"
    return None
def maxlen_case(mx):
    o = attempt(lambda: seqstr([1, 2, 3], maxlen=cases.ev(mx, G)))
    return None if o == ('exc', 'TypeError') else f"seqstr([1, 2, 3], maxlen={mx}) is {o[1]!r}; specified: TypeError"
# ---- str and repr ------------------------------------------------------------------------------------
DELIM = {'plist': '[|%s|]', 'llist': '[|%s|]', 'tlist': '[<%s>]', 'tllist': '[<%s>]', 'pset': '{|%s|}', 'tset': '{<%s>}', 'pdict': '{|%s|}', 'ldict': '{|%s|}', 'tdict': '{<%s>}', 'tldict': '{<%s>}'}
def printed(p):
    "What is wrong with the printed forms of p."
    if not isinstance(p, (pc.abc.Persistent, pc.abc.Transient)): return 'ok'
    k = type(p).__name__
    hide = k in ('llist', 'ldict', 'tldict')
    raw = pc.holdlazy(p) if hide else p
    def one(x, short): return '<lazy>' if short and hide and isinstance(x, pc.lazy) else repr(x)
    for (f, m) in ((str, 60), (repr, None)):
        items = [f"{one(a, m)}: {one(b, m)}" for (a, b) in raw.items()] if hasattr(raw, 'items') else [one(a, m) for a in raw]
        w = DELIM[k] % spec(items, m)
        o = attempt(lambda: f(p))
        if o != ('ok', w): return f"{f.__name__} is {o[1]!r}; specified: {w!r}"
        if m and len(o[1]) > m + 4: return f"{f.__name__} has length {len(o[1])}"
        if m and attempt(lambda: f'{p}') != o: return f"format differs from str"
    return 'ok'
def print_case(expr):
    p = cases.ev(expr, G)
    e = printed(p)
    return None if e == 'ok' else f"{expr}: {e}"
def gi(): return dict(printed=printed, L=L, R=R)
def gm(): return dict(printed=printed, L=const, R=const)
def strip(x): return x.replace('L(', '(').replace('R(', '(')
class RE(Exception): pass
class RK(KeyError): pass
class RI(IndexError): pass
class RA(AttributeError): pass
class RT(TypeError): pass
class RS(StopIteration): pass
class RB(BaseException): pass
RAISE = {x.__name__: x for x in (RE, RK, RI, RA, RT, RS, RB)}
class RX:
    "An item that cannot be printed."
    def __init__(self, i, x): self.i, self.x = i, x
    def __repr__(self):
        if self.x is None: return 'i'
        raise self.x
def rxs(n, i, x): return [RX(j, x if j == i else None) for j in range(n)]
FORMS = {k: (lambda xs, k=k: getattr(pc, k)(xs)) for k in ('plist', 'llist', 'tlist', 'tllist', 'pset', 'tset')}
FORMS.update({k: (lambda xs, k=k: getattr(pc, k)(enumerate(xs))) for k in ('pdict', 'ldict', 'tdict', 'tldict')})
FORMS.update({k + ' keys': (lambda xs, k=k: getattr(pc, k)([(x, 1) for x in xs])) for k in ('pdict', 'tdict')})
FORMS.update({f'{k}.{m}()': (lambda xs, k=k, m=m: getattr(getattr(pc, k)([(x, y) for (x, y) in (zip(xs, xs) if m == 'keys' else enumerate(xs))]), m)()) for k in ('pdict', 'tdict', 'ldict') for m in ('keys', 'values', 'items')})
FORMS.update(list=list, iter=iter, dict=lambda xs: dict(enumerate(xs)))
def raising_case(k, n, i, f, x):
    e = RAISE[x]()
    c = FORMS[k](rxs(n, i, e))
    if f == 'tostr' and k in ('list', 'iter'): c = FORMS[k](rxs(n, i, None))
    def tostr(y):
        if getattr(y, 'i', None) == i: raise e
        return 'y'
    fs = {'repr': repr, 'str': str, 'format': lambda c: f'{c}', 'seqstr': pc.util.seqstr, 'seqstr60': lambda c: pc.util.seqstr(c, maxlen=2000), 'tostr': lambda c: pc.util.seqstr(c, tostr=tostr if k in ('list', 'iter') else repr)}
    if k in ('list', 'iter', 'dict') and f in ('repr', 'str', 'format'): return None
    try: r = fs[f](c)
    except (Exception, RB) as g:
        if g is e or isinstance(g, RuntimeError) and g.__cause__ is e: return None
        return f"{f} of {k} with {n} items of which number {i} cannot be printed raises {g!r}, not the item's {e!r}"
    if f in ('str', 'format') and n > 20 and i > 18: return None      # beyond the ellipsis
    return f"{f} of {k} with {n} items of which number {i} cannot be printed ({e!r}) gives {r!r}"
def jobs(tier):
    th = tier != 'quick'
    js = []
    # setcmp
    K = ('set', 'frozenset', 'pset', 'tset', 'PSet', 'ITSet')
    subs = ['[' + ', '.join(s) + ']' for k in range(5) for s in itertools.combinations(('A', 'B', 'D', 'G'), k)]
    subs += ['[' + ', '.join(s[::-1]) + ']' for k in (2, 3, 4) for s in itertools.combinations(('A2', 'B', 'D', 'G'), k)]
    sets = [(k, s, f"{k}({s})") for k in K for s in subs] + [('v', s, f"{d}([(x, 1) for x in {s}]).keys()") for d in ('dict', 'pdict', 'tdict') for s in subs[:16]]
    js += cases.chunks('setcmp', 'c27:setcmp_case', setcmp_case, [(a[2], b[2]) for a in sets for b in sets], 16)
    # seqcmp
    def cont(alpha, n): return ['[' + ', '.join(s) + ']' for k in range(n + 1) for s in itertools.product(alpha, repeat=k)]
    KS = ('plist', 'tlist', 'llist', 'tllist', 'list', 'tuple', 'PSeq', 'ITSeq', 'lz')
    mk = lambda k, s: f"llist([L(x) for x in {s}])" if k == 'lz' else s if k == 'list' else f"{k}({s})"
    cs = [(mk(a, s), mk(b, t), s, t) for a in KS for b in KS for s in cont(('A', 'A2', 'B', 'N', 'U', 'V'), 2) for t in cont(('A', 'A2', 'B', 'N', 'U', 'V'), 2)]
    cs += [(mk(a, s), mk(b, t), s, t) for (a, b) in (('plist', 'plist'), ('tlist', 'list'), ('tuple', 'llist')) for s in cont(('A', 'B', 'D'), 3) for t in cont(('A', 'B', 'D'), 3)]
    nums = cont(('1', 'True', '2', '0.5', 'float("nan")'), 2) + ['"ab"', '"abc"', '"b"', '""', 'range(2)', 'range(1, 3)', 'b"a"']
    cs += [(a, b, a, b) for a in nums for b in nums] + [(f"plist({a})", b, a, b) for a in nums for b in nums]
    js += cases.chunks('seqcmp', 'c27:seqcmp_case', seqcmp_case, cs, 24)
    sw = []
    SZ = (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 40, 48, 63, 64, 65, 100, 129) + ((1024, 1025) if th else ())
    for n in SZ:
        for m in SZ:
            for o in dict.fromkeys((0, 1, min(n, m) // 2, min(n, m) - 1, min(n, m))):
                if o >= 0: sw += [(f"{k}(ES[:{n}])", f"{l}(ES[{n - o}:{n - o + m}])") for (k, l) in (('pset', 'pset'), ('tset', 'frozenset'), ('set', 'pset'), ('PSet', 'tset'))]
    for n in sweep.CHAINS:
        for m in sweep.CHAINS: sw += [(f"pset(CH[:{n}])", f"tset(CH[{n // 2}:{n // 2 + m}])"), (f"tset(CH[:{n}])", f"set(CH[:{m}])")]
    js += cases.chunks('setcmp-sizes', 'c27:setcmp_case', setcmp_case, sw, 16)
    sw = []
    for n in sweep.sizes(tier):
        m = f"ES[:{n}]"
        for e in [m, f"ES[:{n + 1}]", f"ES[:{max(0, n - 1)}]"] + [f"ES[:{i}] + [{x}] + ES[{i + 1}:{n}]" for i in dict.fromkeys((0, n // 2, n - 1)) if 0 <= i < n for x in ('A', 'Z', 'N')]:
            sw += [(a, b, m, e) for (a, b) in ((f"plist({m})", f"tlist({e})"), (f"strad(llist, LS({n}))", f"plist({e})"), (m, f"llist({e})"), (f"tuple({m})", f"strad(plist, {e})"))]
    js += cases.chunks('seqcmp-sizes', 'c27:seqcmp_case', seqcmp_case, sw, 8)
    other = ['None', '5', 'iter([])', '{}', 'pdict()', 'object()', 'gen([])', 'L([])', '1.5']
    js += cases.chunks('reject', 'c27:reject_case', reject_case, [('setcmp', a, b) for a in ('set()', 'pset([A])', 'tset()', 'frozenset([B])', '[]') for b in other + ['[]', '()', '""', 'plist()', 'tlist([A])']]
                       + [('seqcmp', a, b) for a in ('[]', 'plist([A])', 'tlist()', '(A,)', '"a"', 'set()') for b in other + ['set()', 'frozenset()', 'pset()', 'tset([A])']], 2)
    # seqstr
    wid = [ws for k in range(7 if not th else 8) for ws in itertools.product(range(4), repeat=k)] + [ws for k in range(4 if not th else 6) for ws in itertools.product(range(8), repeat=k)]
    wid = list(dict.fromkeys(wid))
    js += cases.chunks('seqstr', 'c27:seqstr_case', seqstr_case, [(ws, s, 'list') for ws in wid for s in (', ', '', ' | ')], 24)
    small = [ws for k in range(4) for ws in itertools.product((0, 1, 3, 6), repeat=k)]
    js += cases.chunks('seqstr-forms', 'c27:seqstr_case', seqstr_case, [(ws, s, f) for ws in small for s in (', ', '', ' | ', '\n') for f in ('gen', 'plist', 'tlist', 'tuple', 'tostr', 'dict', 'pdict', 'tdict', 'dict-tostr')], 8)
    js += cases.chunks('maxlen', 'c27:maxlen_case', maxlen_case, [(m,) for m in ('2', '1', '0', '-1', '-10', '3.0', '"5"', 'True', 'False', '[]', '10.5', 'A')], 1)
    kinds = [(k, n, i) for k in FORMS for n in (1, 2, 3, 40) for i in dict.fromkeys((0, n // 2, n - 1))]
    js += cases.chunks('raising', 'c27:raising_case', raising_case, [(k, n, i, f, x) for (k, n, i) in kinds for f in ('repr', 'str', 'format', 'seqstr', 'seqstr60', 'tostr') for x in RAISE], 4)
    # printed forms
    widths = (0, 1, 14, 19, 28, 29, 30, 31, 56, 57, 60, 61)
    pr = []
    cw = [ws for k in range(4) for ws in itertools.product(widths, repeat=k)] + [ws for k in (4,) for ws in itertools.product(widths[1:9], repeat=k)] + [(1,) * n for n in (18, 19, 20, 21, 22, 40)] + [(0,) * n for n in (29, 30, 31, 32)]
    for ws in cw:
        e = f"W(*{ws})" if len(ws) <= 8 else f"(W({ws[0]}) * {len(ws)})"
        pr += [(f"{k}({e})",) for k in ('plist', 'tlist')]
        if len(ws) <= 3 or len(ws) > 8:
            pr += [(f"{k}({e})",) for k in ('llist', 'tllist', 'pset', 'tset')] + [(f"{k}(enumerate({e}))",) for k in ('pdict', 'tdict', 'ldict', 'tldict')]
        if len(ws) <= 3:
            pr += [(f"{k}([(L if i % 2 else R)(x) if i != 1 else x for (i, x) in enumerate({e})])",) for k in ('llist', 'tllist')] + [(f"{k}([(i, (L if i % 2 else R)(x) if i != 1 else x) for (i, x) in enumerate({e})])",) for k in ('ldict', 'tldict', 'pdict')]
    for n in sweep.sizes(tier):
        pr += [(f"{k}(ES[:{n}])",) for k in ('plist', 'tlist', 'llist', 'tllist', 'pset', 'tset')] + [(f"{r}(plist, ES[:{n}])",) for r in ('strad', 'off')] + [(f"strad(llist, LS({n}))",), (f"llist(LS({n})).transient()",), (f"sdisc(pset, ES[:{n}])",), (f"ddisc(ldict, LV({n}))",)]
        pr += [(f"{k}({'LV' if 'l' in k else 'SV'}({n}))",) for k in ('pdict', 'tdict', 'ldict', 'tldict')]
    js += cases.chunks('printed', 'c27:print_case', print_case, pr, 16)
    js += cases.chunks('seqstr-long', 'c27:seqstr_case', seqstr_case, [((w,) * n, s, f) for n in (7, 8, 9, 12, 16, 17, 31, 32, 33) for w in (0, 1, 2, 3, 5) for s in (', ', '') for f in ('list', 'gen', 'pdict')], 16)
    d = 4 if th else 3
    PR = lambda v: [(f"printed({v})", f"printed({v})")]
    def sp(k, seeds, ops, var, w):
        js.extend(split(Space(k, seeds, [(a, strip(b)) for (a, b) in ops], PR(var), depth=d, mutable=var == 't', gi=gi, gm=gm, within=f'len({var}) <= {w}', limit=400000 if th else 20000), 4))
    for (k, t, lz) in (('plist', 'tlist', 0), ('llist', 'tllist', 1)):
        x, y = ('L(B)', 'R(A2)') if lz else ('B', 'A2')
        po = [o for o in menus.pl_updates(els=('A', x, y), cls=k, tcls=t, idx=(0, -1, 1)) if '.remove(R(' not in o[0]]
        to = [o for o in menus.tl_updates(els=('A', x, y), idx=(0, -1, 1)) if '.remove(R(' not in o[0]]
        big = f"[VALS[i % 8] for i in range({{n}})]"
        sp(k, [[(f"p = {k}()", "p = []")], [(f"p = {k}([A, {x}, {y}])", "p = [A, B, A2]")], [(f"p = {k}({big.format(n=14)})", f"p = {big.format(n=14)}")]], po, 'p', 16)
        sp(t, [[(f"t = {t}()", "t = []")], [(f"t = {k}([A, {x}, {y}]).transient()", "t = [A, B, A2]")], [(f"t = {t}({big.format(n=14)})", f"t = {big.format(n=14)}")]], to, 't', 16)
    for (k, t, lz) in (('pdict', 'tdict', 0), ('ldict', 'tldict', 1)):
        v = ('v1', 'L(v2)') if lz else ('v1', 'v2')
        s = lambda c, x: [[(f"{x} = {c}()", f"{x} = {{}}")], [(f"{x} = {c}([(C, v1), (A, {v[1]}), (B, v3)])", f"{x} = {{C: v1, A: v2, B: v3}}")], [(f"{x} = {c}([(i, VALS[i]) for i in range(8)])", f"{x} = dict([(i, VALS[i]) for i in range(8)])")]]
        sp(k, s(k, 'p'), menus.pd_updates(vals=v, cls=k, tcls=t), 'p', 16)
        sp(t, s(t, 't'), menus.td_updates(vals=v), 't', 16)
    s = lambda c, x: [[(f"{x} = {c}()", f"{x} = MSet()")], [(f"{x} = {c}([A, B, D])", f"{x} = MSet([A, B, D])")], [(f"{x} = {c}(range(20))", f"{x} = MSet(range(20))")]]
    sp('pset', s('pset', 'p'), menus.ps_updates(), 'p', 30)
    sp('tset', s('tset', 't'), menus.ts_updates(), 't', 30)
    return js
