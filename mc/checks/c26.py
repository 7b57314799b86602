"""C26: the abstract classes give correct default behaviour to any implementation."""
import itertools, copy, pickle, json
from .. import core, cases, syms, menus, reads, minimal
from ..core import Space, split
from ..cases import attempt
import pcollections as pc
TECHNIQUE = 'explicit-state exploration of update histories of minimal implementations, plus enumeration of operand pairs, against list/set/dict'
BOUNDS = {
    'quick': "two families of minimal implementations (tuples/dicts in slots; __init__-based with a reversed list and linear search) of all six abstract classes: all histories of <= 3 updates (<= 4 for persistent sets) from 2-3 starts, "
             "in every state every default read, hash, printed form, JSON, pickle and copy; all pairs of operands (own kind, other family, the library's and Python's own kinds) over small contents under all comparison and set operators and methods",
    'thorough': "as quick with one more update",
}
ASSUMPTIONS = ["the implementation's required methods do what their documentation says; its constructor accepts any iterable (mappings: mapping or pairs), transients included"]
RULE = "a case is one operation on a pair of operand expressions; distinct by construction"
G = core.impl_globals(minimal.ALL)
def persistent_text(kind, items):
    return {'S': '[|%s|]', 'E': '{|%s|}', 'M': '{|%s|}', 's': '[<%s>]', 'e': '{<%s>}', 'm': '{<%s>}'}[kind] % items
def text(p, native):
    """(str, repr, json) of a collection, or of the native one as a collection of that kind."""
    tr = not isinstance(p, pc.abc.Persistent)
    if isinstance(p, pc.abc.PersistentMapping) or isinstance(p, pc.abc.TransientMapping): k, it = 'm' if tr else 'M', ', '.join(f'{x!r}: {y!r}' for (x, y) in p.items())
    elif isinstance(p, pc.abc.PersistentSet) or isinstance(p, pc.abc.TransientSet): k, it = 'e' if tr else 'E', ', '.join(map(repr, p))
    else: k, it = 's' if tr else 'S', ', '.join(map(repr, p))
    return persistent_text(k, it)
def printed(p):
    if not isinstance(p, (pc.abc.Persistent, pc.abc.Transient)): return 'ok'
    w = text(p, None)
    if repr(p) != w: return f'repr is {repr(p)}; specified: {w}'
    if len(w) <= 64 and str(p) != w: return f'str is {str(p)}; specified: {w}'
    if len(str(p)) > 64: return f'str is {str(p)}'
    return 'ok'
def ident(x): return id(x) if isinstance(x, syms.Sym) else repr(x)
def cont(p): return [(ident(k), ident(v)) for (k, v) in p.items()] if hasattr(p, 'items') else [ident(x) for x in p]
def copies(p):
    if not isinstance(p, (pc.abc.Persistent, pc.abc.Transient)): return 'ok'
    c = cont(p)
    fs = [(f'pickle{i}', lambda i=i: pickle.loads(pickle.dumps(p, i))) for i in (0, 2, 5)] + [('copy', lambda: copy.copy(p)), ('deepcopy', lambda: copy.deepcopy(p)), ('.copy()', lambda: p.copy())]
    for (n, f) in fs:
        o = attempt(f)
        if o[0] == 'exc': return f'{n} raised {o[1]}'
        q = o[1]
        if type(q) is not type(p): return f'{n} is a {type(q).__name__}'
        try: d = cont(q)
        except AttributeError as e: return f'{n} is unusable: {e}'
        if d != c or not (q == p) or q != p: return f'{n} has contents {q!r}'
        if isinstance(p, pc.abc.Transient):
            if q is p: return f'{n} is the same object'
            q.clear()
            if cont(p) != c or len(q): return f'clearing the {n} changed the original'
        elif hash(q) != hash(p): return f'{n} has another hash'
        elif n == '.copy()' and q is not p: return f'{n} is another object'
    return 'ok'
def hashed(p):
    if not isinstance(p, pc.abc.Persistent): return 'ok'
    if isinstance(p, pc.abc.PersistentMapping): q = [pc.pdict(p), minimal.PMap(p), minimal.IMap(p)]
    elif isinstance(p, pc.abc.PersistentSet): q = [pc.pset(p), minimal.PSet(p), minimal.ISet(p), frozenset(p)]
    else: q = [pc.plist(p), minimal.PSeq(p), minimal.ISeq(p)]
    for x in q:
        if not (x == p and p == x) or x != p or p != x: return f'not equal to the {type(x).__name__} with the same contents'
        if hash(x) != hash(p): return f'hash differs from that of the equal {type(x).__name__}'
    return 'ok'
def guarded(p):
    "Assignment to attributes and items is rejected by the persistent kinds."
    if not isinstance(p, pc.abc.Persistent): return 'ok'
    c = cont(p)
    def a1(): p.x = 1
    def a2(): p[0] = 1
    def a3(): p[syms.A] = 1
    for f in (a1, a2, a3):
        o = attempt(f)
        if o != ('exc', 'TypeError'): return f'assignment: {o[1]}'
        if cont(p) != c: return 'assignment changed the collection'
    return 'ok'
def js(p):
    if not isinstance(p, (pc.abc.Persistent, pc.abc.Transient)) or isinstance(p, (pc.abc.PersistentSet, pc.abc.TransientSet)): return 'ok'
    want = attempt(lambda: json.dumps(dict(p.items()) if hasattr(p, 'items') else list(p)))
    got = attempt(lambda: p.__json__())
    return 'ok' if want == got else f'__json__ is {got}; specified: {want}'
def gi(): return dict(minimal.ALL, rd_s=lambda p: reads.seq_reads(p, SE, False), rd_e=lambda p: reads.set_reads(p, EE), rd_m=lambda p: nomap(p), views=views, printed=printed, copies=copies, hashed=hashed, guarded=guarded, js=js)
def gm():
    ok = lambda p: 'ok'
    return dict(rd_s=lambda p: reads.seq_reads(p, SE, False), rd_e=lambda p: reads.set_reads(p, EE), rd_m=lambda p: nomap(p), views=views, printed=ok, copies=ok, hashed=ok, guarded=ok, js=ok)
SE = (syms.A, syms.B, syms.A2, syms.D)
EE = (syms.A, syms.B, syms.C, syms.D, syms.A2, syms.G)
def nomap(p): return [x for x in reads.map_reads(p, EE) if not x[0].startswith('reversed')]
def nms(s): return ' '.join(sorted(x.eqc if isinstance(x, syms.Sym) else x[0].eqc if isinstance(x, tuple) and isinstance(x[0], syms.Sym) else repr(x) for x in s))
def views(p):
    (A, B, C) = (syms.A, syms.B, syms.C)
    k, i, v = p.keys(), p.items(), p.values()
    return [len(k), len(i), len(v), A in k, C in k, (A, syms.v1) in i, (A, syms.v2) in i, (C, None) in i, syms.v1 in v, syms.v7 in v, nms(k & {A, C}), nms(k | {C, A}), nms(k - {A}), nms(k ^ {A, C}), k == {A, B}, k <= {A, B, C}, k.isdisjoint([C]), nms(i & {(A, syms.v1)})]
PROBES = [(f"{f}(%s)", f"{f}(%s)") for f in ('printed', 'copies', 'hashed', 'guarded', 'js')]
# ---- pairs -------------------------------------------------------------------------------------------
CMP = ('==', '!=', '<', '<=', '>', '>=')
def both(op, l, r): return attempt(lambda: eval(f"l {op} r", {'l': l, 'r': r}))
def seq_case(lx, rx, lm, rm):
    l, r, a, b = [cases.ev(x, G) for x in (lx, rx, lm, rm)]
    for op in CMP:
        u, v = both(op, l, r), both(op, a, b)
        if u != v or (u[0] == 'ok' and type(u[1]) is not bool): return f"{lx} {op} {rx}: {u[1]}; specified: {v[1]}"
    return None
def cat_case(lx, rx, lm, rm):
    "+ of two sequences, of which the left one decides the kind."
    l, r, a, b = [cases.ev(x, G) for x in (lx, rx, lm, rm)]
    u = both('+', l, r)
    if u[0] == 'exc': return f"{lx} + {rx} raised {u[1]}"
    if not core.same(u[1], a + b): return f"{lx} + {rx} is {u[1]!r}; specified: {a + b}"
    want = type(l) if not isinstance(l, list) else type(r)
    if type(u[1]) is not want: return f"{lx} + {rx} is a {type(u[1]).__name__}"
    if not core.same(l, a) or not core.same(r, b): return f"{lx} + {rx} changed an operand"
    return None
def other_case(lx, rx):
    "Comparison with something of another kind."
    l, r = cases.ev(lx, G), cases.ev(rx, G)
    for (x, y) in ((l, r), (r, l)):
        for op in CMP:
            u = both(op, x, y)
            want = ('ok', op == '!=') if op in ('==', '!=') else ('exc', 'TypeError')
            if u != want: return f"{lx} {op} {rx}: {u[1]}; specified: {want[1]}"
    return None
BIN = ('|', '&', '-', '^'); METH = ('union', 'intersection', 'difference', 'symmetric_difference'); PRED = ('isdisjoint', 'issubset', 'issuperset')
UPD = {'update': '|', 'intersection_update': '&', 'difference_update': '-', 'symmetric_difference_update': '^', '|=': '|', '&=': '&', '-=': '-', '^=': '^'}
def set_case(op, lx, rx):
    l, r = cases.ev(lx, G), cases.ev(rx, G)
    L0, R0 = cont(l), cont(r)
    a, b = set(l), set(r)
    what = f"{lx} {op} {rx}"
    tr = isinstance(l, (pc.abc.TransientSet, set))
    if op in BIN or op in CMP: w, u = both(op, a, b), both(op, l, r)
    elif op in METH or op in PRED: w, u = attempt(lambda: getattr(a, op)(b)), attempt(lambda: getattr(l, op)(r))
    else:
        w = both(UPD[op], a, b)
        d = {'l': l, 'r': r}
        u = attempt(lambda: exec(f"l {op} r", d) if op[-1] == '=' else getattr(l, op)(r))
        if u[0] == 'ok':
            if tr and d['l'] is not l: return f"{what}: rebinds the name to another object"
            u = ('ok', d['l'])
            if tr: L0 = None
    if w[0] != u[0]: return f"{what}: {u}; specified: {w}"
    if isinstance(w[1], bool):
        if u[1] is not w[1]: return f"{what}: {u[1]!r}; specified: {w[1]}"
    else:
        if not core.same(u[1], w[1]): return f"{what}: {u[1]!r}; specified: {w[1]!r}"
        own = l if isinstance(l, (pc.abc.PersistentSet, pc.abc.TransientSet)) else r
        if type(u[1]) is not type(own): return f"{what}: is a {type(u[1]).__name__}"
        if isinstance(u[1], pc.abc.TransientSet) and op not in UPD and (u[1] is l or u[1] is r): return f"{what}: returns its operand"
    if L0 is not None and cont(l) != L0: return f"{what}: changed the left operand"
    if l is not r and cont(r) != R0: return f"{what}: changed the right operand"
    return None
def iter_case(meth, lx, args, want):
    "The named methods with any iterable, or several."
    l = cases.ev(lx, G)
    c = cont(l)
    u = attempt(lambda: getattr(l, meth)(*cases.ev(args, G)))
    w = cases.ev(want, dict(G, S=set(l)))
    if u[0] == 'exc': return f"{lx}.{meth}{args} raised {u[1]}"
    if isinstance(w, bool): return None if u[1] is w else f"{lx}.{meth}{args} is {u[1]!r}"
    if not core.same(u[1], w) or type(u[1]) is not type(l): return f"{lx}.{meth}{args} is {u[1]!r}; specified: {w!r}"
    if cont(l) != c: return f"{lx}.{meth}{args} changed the set"
    return None
def map_case(lx, rx, lm, rm):
    l, r, a, b = [cases.ev(x, G) for x in (lx, rx, lm, rm)]
    for op in ('==', '!='):
        u, v = both(op, l, r), both(op, a, b)
        if u != v: return f"{lx} {op} {rx}: {u[1]}; specified: {v[1]}"
    if a == b:
        hs = {hash(x) for x in (l, r) if isinstance(x, pc.abc.Persistent)}
        if len(hs) > 1: return f"{lx} and {rx} are equal but their hashes differ"
    return None
def jobs(tier):
    th = tier != 'quick'
    js_ = []
    x = 2 if th else 1
    for (fam, (PS, TS, PE, TE, PM, TM)) in minimal.FAMILIES.items():
        def sp(name, seeds, ops, probes, var, depth, w):
            pr = [(a % var, b % var) for (a, b) in probes + PROBES] + [(f"type({var}).__name__", f"'{name}'")]
            js_.extend(split(Space(name, seeds, ops, pr, depth=depth, mutable=(var == 't'), gi=gi, gm=gm, within=f'len({var}) <= {w}', limit=30000), 4))
        sp(PS, [[(f"p = {PS}()", "p = []")], [(f"p = {PS}([B, A, A2])", "p = [B, A, A2]")]], menus.pl_updates(cls=PS, tcls=TS, idx=range(-3, 4)), [("rd_s(%s)", "rd_s(%s)")], 'p', 2 + x, 4)
        sp(TS, [[(f"t = {TS}()", "t = []")], [(f"t = {PS}([B, A, A2]).transient()", "t = [B, A, A2]")]], menus.tl_updates(idx=range(-3, 4)), [("rd_s(%s)", "rd_s(%s)"), ("list(%s.persistent())", "list(%s)")], 't', 2 + x, 4)
        sp(PE, [[(f"p = {PE}()", "p = MSet()")], [(f"p = {PE}([B, D, A])", "p = MSet([B, D, A])")]], menus.ps_updates(cls=PE, tcls=TE), [("rd_e(%s)", "rd_e(%s)")], 'p', 3 + x, 9)
        tso = [(a.replace('tset(t)', f'{TE}(t)').replace('tset([B])', f'{TE}([B])').replace('pset([C', f'{PE}([C'), b) for (a, b) in menus.ts_updates()]
        tso += [("r = t.removeall([A, C])", "s_removeall_t(t, [A, C])"), ("r = t.removeall(())", "ok()")]
        sp(TE, [[(f"t = {TE}()", "t = MSet()")], [(f"t = {PE}([B, D, A]).transient()", "t = MSet([B, D, A])")]], tso, [("rd_e(%s)", "rd_e(%s)"), ("list(%s.persistent())", "list(%s)")], 't', 2 + x, 9)
        sp(PM, [[(f"p = {PM}()", "p = {}")], [(f"p = {PM}([(B, v1), (D, v2), (A, v1)])", "p = {B: v1, D: v2, A: v1}")]], [(a.replace('pdict(', PM + '('), b) for (a, b) in menus.pd_updates(cls=PM, tcls=TM)] + [('p = p.update(self=v3, arg=v4)', 'p.update(self=v3, arg=v4)')], [("rd_m(%s)", "rd_m(%s)"), ("views(%s)", "views(%s)")], 'p', 2 + x, 9)
        sp(TM, [[(f"t = {TM}()", "t = {}")], [(f"t = {PM}([(B, v1), (D, v2), (A, v1)]).transient()", "t = {B: v1, D: v2, A: v1}")]], menus.td_updates() + [('t.update(self=v3, arg=v4)', 't.update(self=v3, arg=v4)')], [("rd_m(%s)", "rd_m(%s)"), ("views(%s)", "views(%s)"), ("list(%s.persistent().items())", "list(%s.items())")], 't', 2 + x, 9)
        # pairs
        cs, ct = [], []
        con = [s for k in range(3) for s in itertools.product(('A', 'A2', 'B', 'N', 'U', 'V'), repeat=k)] + list(itertools.product(('A', 'B'), repeat=3))
        lst = lambda s: '[' + ', '.join(s) + ']'
        for own in (PS, TS):
            for o in (PS, TS, 'ISeq', 'plist', 'tlist', 'llist', 'list'):
                for s in con:
                    for t in con:
                        r = f"{o}({lst(t)})"
                        cs.append((f"{own}({lst(s)})", r, lst(s), lst(t))); cs.append((r, f"{own}({lst(s)})", lst(t), lst(s)))
        js_ += cases.chunks(fam + '-seq', 'c26:seq_case', seq_case, cs, 16)
        small = ['[]', '[A]', '[B, A]', '[A, A2, B]']
        for own in (PS, TS):
            for s in small:
                for t in small:
                    ct += [(f"{own}({s})", t, s, t), (t, f"{own}({s})", t, s), (f"{own}({s})", f"{own}({t})", s, t), (f"{own}({s})", f"plist({t})", s, t), (f"plist({t})", f"{PS}({s})", t, s)]
                    if own == TS: ct += [(f"{own}({s})", f"tlist({t})", s, t), (f"tlist({t})", f"{own}({s})", t, s), (f"{own}({s})", f"{PS}({t})", s, t)]
        js_ += cases.chunks(fam + '-cat', 'c26:cat_case', cat_case, ct, 2)
        oth = ['()', '(A,)', '""', '"A"', 'None', '5', 'range(0)', '{}', 'set()', 'iter([])', 'pset([A])', 'pdict()', 'object()']
        co = [(f"{own}({s})", o) for own in (PS, TS) for s in small[:3] for o in oth]
        co += [(f"{own}({s})", o) for own in (PE, TE) for s in small[:3] for o in ('()', '[]', '[A]', '"A"', 'None', '5', '{}', 'plist([A])', 'pdict()', 'iter([])')]
        js_ += cases.chunks(fam + '-other', 'c26:other_case', other_case, co, 2)
        sets = [lst(s) for k in range(4) for s in itertools.permutations(('A', 'B', 'D'), k)]
        cset = []
        for own in (PE, TE):
            for o in (PE, TE, 'ISet', 'PSet', 'pset', 'tset', 'set', 'frozenset'):
                for s in sets:
                    for t in sets:
                        for op in BIN + CMP + PRED:
                            cset.append((op, f"{own}({s})", f"{o}({t})"))
                            if o not in ('pset', 'tset', 'ISet', 'PSet') and op not in PRED: cset.append((op, f"{o}({t})", f"{own}({s})"))
                            elif op in CMP + PRED: cset.append((op, f"{o}({t})", f"{own}({s})"))
                        for op in METH: cset.append((op, f"{own}({s})", f"{o}({t})"))
                        for op in (UPD if own == TE else [k for k in UPD if k[-1] == '=']): cset.append((op, f"{own}({s})", f"{o}({t})"))
        js_ += cases.chunks(fam + '-set', 'c26:set_case', set_case, cset, 16)
        ci = []
        for own in (PE, TE):
            for s in sets:
                e = f"{own}({s})"
                ci += [('union', e, '([A, C], gen([D]))', 'S | {A, C, D}'), ('union', e, '()', 'S | set()'), ('difference', e, '([A, C], gen([D]))', 'S - {A, C, D}'), ('difference', e, '()', 'S | set()'), ('intersection', e, '()', 'S | set()'),
                       ('intersection', e, '({A, B}, pset([A, D]))', 'S & {A}'), ('issubset', e, '([A, B, C],)', 'S <= {A, B, C}'), ('issubset', e, '(gen([D]),)', 'S <= {D}'), ('issuperset', e, '(gen([A]),)', 'S >= {A}'), ('issuperset', e, '((),)', 'True'),
                       ('isdisjoint', e, '([A, C],)', 'S.isdisjoint([A, C])'), ('isdisjoint', e, '(gen([]),)', 'True'), ('isdisjoint', e, '(plist([D]),)', 'S.isdisjoint([D])')]
        js_ += cases.chunks(fam + '-methods', 'c26:iter_case', iter_case, ci, 2)
        mp = ['{}', '{A: v1}', '{A2: v1}', '{A: v2}', '{B: v1, A: v1}', '{A: v1, B: v1}', '{A: v1, B: None}', '{C: v1, A: v1}']
        cm = []
        for own in (PM, TM):
            for o in (PM, TM, 'PMap', 'IMap', 'pdict', 'tdict', 'ldict', 'dict'):
                for s in mp:
                    for t in mp: cm += [(f"{own}({s})", f"{o}({t})", s, t), (f"{o}({t})", f"{own}({s})", t, s)]
            for s in mp: cm += [(f"{own}({s})", o, s, o) for o in ('None', '[]', '[A]', 'set()', '5', '(A,)')]
        js_ += cases.chunks(fam + '-map', 'c26:map_case', map_case, cm, 4)
    return js_
