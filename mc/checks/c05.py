"""C05: set algebra and set comparison agree with Python sets for all operand kinds."""
import itertools
from .. import core, cases, syms, sweep
from ..cases import attempt
import pcollections as pc
TECHNIQUE = 'explicit-state exploration of pairs of sets on the real code, plus exhaustive enumeration of operand pairs, against Python sets'
BOUNDS = {
    'quick': "every pair of operands of the kinds pset, tset, set, frozenset (at least one of the library's) holding any subset of {A, B, D} (A, B with one hash, "
             "D with another, A possibly replaced by an equal A2), in both insertion orders and with a discarded extra element, under all 26 operators and methods; "
             "all triples for the methods taking several arguments; all non-set operands of a list for comparisons and operators; "
             "all pairs of 22 sizes up to 129 with none, one, half, all but one and all of the smaller set in common, (nearly) equal sets of every size 0-72, and sets of up to 33 elements with one common hash",
    'thorough': "as quick over the subsets of {A, B, C, D}",
}
ASSUMPTIONS = ["elements are opaque apart from == and hash; results depend on which elements are common, so 3-4 elements suffice for each overlap pattern"]
RULE = "a case is one operation on one pair (triple) of operand expressions; cases are distinct by construction"
G = core.impl_globals(sweep.GI)
def expected(l, r, op):
    a, b = set(l), set(r)
    return {'|': lambda: a | b, '&': lambda: a & b, '-': lambda: a - b, '^': lambda: a ^ b,
            'union': lambda: a | b, 'intersection': lambda: a & b, 'difference': lambda: a - b, 'symmetric_difference': lambda: a ^ b,
            'update': lambda: a | b, 'intersection_update': lambda: a & b, 'difference_update': lambda: a - b, 'symmetric_difference_update': lambda: a ^ b,
            '|=': lambda: a | b, '&=': lambda: a & b, '-=': lambda: a - b, '^=': lambda: a ^ b,
            '==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
            'isdisjoint': lambda: a.isdisjoint(b), 'issubset': lambda: a <= b, 'issuperset': lambda: a >= b}[op]()
BIN = ['|', '&', '-', '^']
CMP = ['==', '!=', '<', '<=', '>', '>=']
METH = ['union', 'intersection', 'difference', 'symmetric_difference']
PRED = ['isdisjoint', 'issubset', 'issuperset']
UPD = ['update', 'intersection_update', 'difference_update', 'symmetric_difference_update', '|=', '&=', '-=', '^=']
ids = lambda s: [id(x) for x in s]
def case(op, lx, rx):
    l, r = cases.ev(lx, G), cases.ev(rx, G)
    if op == 'self':
        return None
    ln, rn = list(l), list(r)
    old_l, old_r = ids(l), ids(r)
    exp = expected(ln, rn, op)
    what = f"{lx} {op} {rx}"
    if op in BIN or op in CMP: o = attempt(lambda: eval(f"l {op} r", {'l': l, 'r': r}))
    elif op in METH or op in PRED: o = attempt(lambda: getattr(l, op)(r))
    else:
        d = {'l': l, 'r': r}
        if op.endswith('='): o = attempt(lambda: exec(f"l {op} r", d))
        else: o = attempt(lambda: getattr(l, op)(r))
        if o[0] == 'ok' and op.endswith('='):
            res = d['l']
            if type(l) is pc.tset and res is not l: return f"{what}: rebinds the name to another object"
            o = ('ok', res)
        elif o[0] == 'ok': o = ('ok', l)
    if o[0] == 'exc': return f"{what}: raised {o[1]}; specified: {exp!r}"
    res = o[1]
    try:
        if isinstance(exp, bool):
            if type(res) is not bool or res != exp: return f"{what}: {res!r}; specified: {exp!r}"
        else:
            m = list(res)
            if set(m) != exp or len(m) != len(exp) or len(res) != len(exp): return f"{what}: members {m!r}; specified: {exp!r}"
            if any(x not in res for x in exp): return f"{what}: a member is not found in the result"
            if type(l) in (pc.pset, pc.tset) and type(res) is not type(l): return f"{what}: is a {type(res).__name__}"
            if op in BIN and type(l) not in (pc.pset, pc.tset) and type(res) is not type(r): return f"{what}: is a {type(res).__name__}"
            if not set(ids(m)) <= set(old_l) | set(old_r): return f"{what}: an element of neither operand"
        if op not in UPD or type(l) is pc.pset or type(l) is frozenset:
            if ids(l) != old_l or len(l) != len(ln): return f"{what}: changed its left operand"
        if r is not l and (ids(r) != old_r or len(r) != len(rn)): return f"{what}: changed its right operand"
        if not isinstance(exp, bool):
            # independence of the result and the operands (a later edit of one is not seen in the others)
            if type(res) is pc.tset and op not in UPD:
                res.add(syms.Z); res.discard(ln[0] if ln else None)
                if ids(l) != old_l or ids(r) != old_r: return f"{what}: the result shares state with an operand"
            if type(l) is pc.tset and op not in UPD and type(res) is pc.pset:
                l.add(syms.Z)
                if ids(res) != ids(m): return f"{what}: the result shares state with its left operand"
            if isinstance(l, set) and (op not in UPD):
                k = ids(res); l.add(syms.Z)
                if ids(res) != k: return f"{what}: the result shares state with its left operand"
            if isinstance(r, set):
                k = ids(res); r.add(syms.Z)
                if ids(res) != k: return f"{what}: the result shares state with its right operand"
            if type(r) is pc.tset and r is not l:
                k = ids(res); r.add(syms.Z)
                if ids(res) != k: return f"{what}: the result shares state with its right operand"
    except core.Hang: return f"{what}: reading the result never ends"
    except Exception as e:
        return f"{what}: using the result raised {type(e).__name__}: {e}"
    return None
def case3(op, lx, rx, sx):
    l, r, s = (cases.ev(x, G) for x in (lx, rx, sx))
    ol = [ids(x) for x in (l, r, s)]
    a, b, c = set(l), set(r), set(s)
    exp = {'union': a | b | c, 'difference': a - b - c, 'intersection': a & b & c, 'symmetric_difference': a ^ b ^ c}[op]
    what = f"{lx}.{op}({rx}, {sx})"
    o = attempt(lambda: getattr(l, op)(r, s))
    if o[0] == 'exc': return f"{what}: raised {o[1]}"
    m = list(o[1])
    if set(m) != exp or len(m) != len(exp): return f"{what}: members {m!r}; specified {exp!r}"
    if type(o[1]) is not type(l): return f"{what}: is a {type(o[1]).__name__}"
    if [ids(x) for x in (l, r, s)] != ol: return f"{what}: changed an operand"
    return None
def case_other(op, lx, rx):
    l, r = cases.ev(lx, G), cases.ev(rx, G)
    what = f"{lx} {op} {rx}"
    m = list(l)
    if op in ('==', '!='):
        for e in (f"l {op} r", f"r {op} l"):
            o = attempt(lambda: eval(e, {'l': l, 'r': r}))
            if o != ('ok', op == '!='): return f"{what}: {o[1]}; specified: {op == '!='}"
    elif op in BIN or op in CMP:
        for e in (f"l {op} r", f"r {op} l"):
            o = attempt(lambda: eval(e, {'l': l, 'r': r}))
            if o != ('exc', 'TypeError'): return f"{what} ({e}): {o[1]}; specified: TypeError"
    else:   # methods that take any iterable
        o = attempt(lambda: getattr(l, op)(r)); e = attempt(lambda: expected(m, r, op))
        if o[0] == 'ok' and op in METH: o = ('ok', set(o[1]))
        if o != e: return f"{what}: {o[1]}; specified: {e[1]}"
    if list(map(id, l)) != list(map(id, m)): return f"{what}: changed its left operand"
    return None
def case_special(op, lx, rx): return case(op, lx, rx)
def operands(els, rich=True):
    out = []
    subs = [s for n in range(len(els) + 1) for s in itertools.combinations(els, n)]
    subs += [tuple('A2' if x == 'A' else x for x in s) for s in subs if 'A' in s]
    for s in subs:
        e = ', '.join(s); rv = ', '.join(s[::-1])
        lib = [f"pset([{e}])", f"tset([{e}])"]
        if rich:
            if len(s) > 1: lib += [f"pset([{rv}])", f"tset([{rv}])"]
            lib += [f"pset([G, {e}]).discard(G)", f"pset([{e}]).transient()"]
        out += [(x, True) for x in lib] + [(f"set([{e}])", False), (f"frozenset([{e}])", False)]
    return out
def jobs(tier):
    th = tier != 'quick'
    ops = operands(['A', 'B', 'C', 'D'] if th else ['A', 'B', 'D'])
    cs = []
    for (l, a) in ops:
        for (r, b) in ops:
            if not (a or b): continue
            for op in BIN + CMP: cs.append((op, l, r))
            if a:
                for op in METH + PRED: cs.append((op, l, r))
                if 'tset' in l or 'transient' in l:
                    for op in UPD: cs.append((op, l, r))
                elif l.startswith('pset'):
                    for op in ('|=', '&=', '-=', '^='): cs.append((op, l, r))
            elif l.startswith('set') and b:
                for op in ('update', 'difference_update', 'isdisjoint', 'issubset', 'issuperset', 'union', 'intersection', 'difference', 'symmetric_difference', '|=', '&=', '-=', '^='): cs.append((op, l, r))
    js = cases.chunks('pairs', 'c05', case, cs, 32)
    small = [o for (o, a) in operands(['A', 'B', 'D'], False)]
    c3 = [(op, l, r, s) for l in small if l.startswith('pset') or l.startswith('tset') for r in small for s in small for op in METH
          if not (op == 'symmetric_difference' and l.startswith('tset'))]
    js += chunks3(c3)
    oth = [(op, l, r) for l in ('pset()', 'tset()', 'pset([A, B])', 'tset([A, D])') for r in ('[]', '[A, B]', '(A,)', 'None', '5', '""', '{A: 1}', 'plist([A, B])', 'pdict({A: 1})', 'object()')
           for op in BIN + CMP]
    oth += [(op, l, r) for l in ('pset()', 'tset()', 'pset([A, B])', 'tset([A, D])') for r in ('[]', '[A, B]', '(A, A, B)', '{A: 1, D: 2}', 'plist([A, B])', 'pdict({A: 1})', 'tlist([D])', '[C]')
            for op in ('union', 'difference', 'isdisjoint', 'issubset', 'issuperset')]
    js += [core.FuncJob('other-types', cases.enumerate_cases, 'c05:case_other', case_other, oth)]
    # key views as operands of a set of the library
    views = [f"{k}({{{', '.join(f'{x}: 1' for x in e)}}}).keys()" for k in ('dict', 'pdict', 'tdict', 'ldict', 'tldict') for e in ((), ('A',), ('A2', 'D'), ('B', 'A', 'D'))]
    libs = [o for (o, a) in operands(['A', 'B', 'D'], False) if a]
    js += cases.chunks('views', 'c05', case, [(op, l, r) for l in libs for r in views for op in BIN + CMP + METH + PRED + (UPD if l[0] == 't' else [])], 8)
    # sizes at the boundaries of the trie nodes, and special elements
    big = ['pset(range(32))', 'tset(range(33))', 'pset(range(1, 1025))', 'set(range(31))', 'frozenset(range(1000, 1060))', 'pset(range(1023))', 'tset([5, A, B])', 'set()']
    big += ['pset([None, 0, -1, -2])', 'tset([False, -2, None])', 'set([None, -1])', 'pset([N, A])', 'tset([N, B])', 'frozenset([N])', 'pset([1, "x", ()])', 'tset([True, ""])']
    cs = [(op, l, r) for l in big for r in big if 'pset' in l + r or 'tset' in l + r for op in BIN + CMP + (METH + PRED if l[1:4] == 'set' else [])]
    js += cases.chunks('large-special', 'c05', case_special, cs, 8)
    # pairs of sizes, with every kind of overlap
    sw = []
    SZ = (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 40, 48, 63, 64, 65, 100, 129) + ((1024, 1025) if th else ())
    for n in SZ:
        for m in SZ:
            for o in dict.fromkeys((0, 1, min(n, m) // 2, min(n, m) - 1, min(n, m))):     # how many are common
                if o < 0: continue
                a, b = f"ES[:{n}]", f"ES[{n - o}:{n - o + m}]"
                ls = (f"pset({a})", f"sdisc(pset, {a}).transient()")
                rs = (f"pset({b})", f"tset({b})", f"set({b})", f"sdisc(pset, {b})")
                for (l, r) in ((ls[0], rs[0]), (ls[1], rs[1]), (ls[0], rs[2]), (ls[1], rs[3]), (rs[2], ls[0])):
                    for op in BIN + CMP: sw.append((op, l, r))
                for (l, r) in ((ls[0], rs[1]), (ls[1], rs[0])):
                    for op in METH + PRED + (UPD if l is ls[1] else []): sw.append((op, l, r))
    for n in sweep.sizes(tier)[:73 if not th else None]:      # (nearly) equal sets of every size
        for (b, _) in ((f"ES[:{n}]", 0), (f"ES[1:{n + 1}]", 0), (f"ES[:{max(0, n - 1)}]", 0), (f"ES[:{n + 1}]", 0), (f"ES[:{n // 2}] + [D] + ES[{n // 2 + 1}:{n}]", 0)):
            for (l, r) in ((f"pset(ES[:{n}])", f"pset({b})"), (f"tset(ES[:{n}])", f"sdisc(pset, {b})")):
                for op in BIN + CMP + PRED: sw.append((op, l, r))
    for n in sweep.CHAINS:
        for m in sweep.CHAINS:
            for (l, r) in ((f"pset(CH[:{n}])", f"tset(CH[{n // 2}:{n // 2 + m}])"), (f"tset(CH[:{n}])", f"pset(CH[:{m}][::-1])"), (f"pset(CH[:{n}])", f"set(CH[1:{m}])")):
                for op in BIN + CMP + METH + PRED + (UPD if l[0] == 't' else []): sw.append((op, l, r))
    js += cases.chunks('sizes', 'c05', case, sw, 24)
    # an operand used with itself
    selfs = [o for (o, a) in operands(['A', 'B', 'D']) if a]
    js += [core.FuncJob('self', cases.enumerate_cases, 'c05:case_self', case_self, [(op, o) for o in selfs for op in BIN + CMP + METH + PRED + UPD if not (op in UPD and o.startswith('pset') and 'transient' not in o and op[-1] != '=')])]
    return js + pair_jobs(th)
# pairs of sets reached by histories of edits, every binary operation in every state
def eqc(s): return frozenset(getattr(x, 'eqc', x) for x in s)
def algebra(p, q):
    out = []
    lib = not isinstance(p, (set, core.model.MSet))
    if not lib: p, q = set(p), set(q)
    for (a, b) in ((p, q), (q, p)):
        for op in BIN:
            r = eval(f"a {op} b", {'a': a, 'b': b})
            out.append((op, tuple(sorted(eqc(r))), len(r), (type(r) is type(a)) if lib else True))
        for op in CMP: out.append((op, eval(f"a {op} b", {'a': a, 'b': b})))
        for m in METH:
            r = getattr(a, m)(b)
            out.append((m, tuple(sorted(eqc(r))), len(r), (type(r) is type(a)) if lib else True))
        for m in PRED: out.append((m, getattr(a, m)(b)))
    out.append(('hash', hash(p if isinstance(p, set) is False else frozenset(p)) == hash(q if isinstance(q, set) is False else frozenset(q)) if p == q else None))
    return out
def pair_jobs(th):
    js = []
    for (kp, kq) in (('pset', 'pset'), ('pset', 'tset'), ('tset', 'tset')):
        ops = []
        for (v, k) in (('p', kp), ('q', kq)):
            for x in ('A', 'B', 'D', 'A2'):
                if k == 'pset':
                    ops += [(f"{v} = {v}.add({x})", f"{v}.add({x})"), (f"{v} = {v}.discard({x})", f"{v}.discard({x})")]
                else:
                    ops += [(f"{v}.add({x})", f"{v}.add({x})"), (f"{v}.discard({x})", f"{v}.discard({x})")]
        if kq == 'tset': ops += [("q |= p", "q.update(p)"), ("q -= p", "s_discardall(q, p)"), ("q ^= p", "s_ixor(q, p)"), ("q &= p", "s_iand(q, p)"), (f"q = tset(p)", "q = p.copy()")]
        if kp == 'pset' == kq: ops += [("p = p | q", "p.update(q)"), ("p = p - q", "s_discardall(p, q)"), ("p = p ^ q", "s_ixor(p, q)"), ("p = p & q", "s_iand(p, q)"), ("q = p", "q = p.copy()")]
        seeds = [[(f"p = {kp}()", "p = MSet()"), (f"q = {kq}()", "q = MSet()")], [(f"p = {kp}([A, B])", "p = MSet([A, B])"), (f"q = {kq}([D, B])", "q = MSet([D, B])")]]
        s = core.Space(f'{kp}-{kq}', seeds, ops, [("algebra(p, q)", "algebra(p, q)")], depth=4 if th else 3, mutable=True, gi=dict(algebra=algebra), gm=dict(algebra=algebra), limit=60000)
        js += core.split(s, 4)
    return js
def case_self(op, x):
    v = cases.ev(x, G); m = list(v)
    exp = expected(m, m, op)
    d = {'l': v}
    if op.endswith('=') and op not in CMP: o = attempt(lambda: (exec(f"l {op} l", d), d['l'])[1])
    elif op in BIN + CMP: o = attempt(lambda: eval(f"l {op} l", d))
    else:
        o = attempt(lambda: getattr(v, op)(v))
        if op in UPD: o = (o[0], v) if o[0] == 'ok' else o
    if o[0] == 'exc': return f"x {op} x with x = {x}: raised {o[1]}"
    if (o[1] != exp) if isinstance(exp, bool) else (set(o[1]) != exp or len(o[1]) != len(exp)): return f"x {op} x with x = {x}: {o[1]!r}; specified: {exp!r}"
    return None
def chunks3(c3):
    k = 16
    return [core.FuncJob(f'triples/{i}', cases.enumerate_cases, 'c05:case3', case3, c3[i * len(c3) // k:(i + 1) * len(c3) // k]) for i in range(k)]
