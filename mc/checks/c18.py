"""C18: apart from laziness, llist and ldict are plist and pdict of the results."""
import itertools
from .. import core, syms, menus, reads, sweep, huge
from ..core import Space, split
from ..reads import o
import pcollections as pc
from pcollections.util import seqcmp, setcmp
BOUNDS = {
    'quick': "llist, tllist, ldict, tldict whose items are every pattern of waiting lazy, evaluated lazy and plain values (0-3 items), after all histories of <= 2 updates each; in every state all reads "
             "(every index, slice, view, get, count, index, membership, iteration; comparisons and hash against the plain collection of the results) and the kinds of all results are compared with the reference; "
             "the same for every representation of the sizes 0-40, 63-65 and 129 with waiting, evaluated and plain items, and for keys with one common hash; every operation once on collections of 2049, 4097, 32769 and 33800 items",
    'thorough': "as quick with histories of <= 3 updates from the patterns of 3 items and <= 2 from those of 4; huge collections at 17 sizes from 2047 to 65537",
}
ASSUMPTIONS = ["a lazy passed as an argument (setdefault, get default) may be handed back", "lazy functions return non-lazy values"]
RULE = "a case of a huge collection is one operation on one representation of one size; distinct by construction"
huge_case = huge.case
def const(x): return x
def L(x): return pc.lazy(const, x)
def R(x):
    "An evaluated lazy."
    l = pc.lazy(const, x); l()
    return l
PLAIN = {pc.llist: pc.plist, pc.tllist: pc.tlist, pc.ldict: pc.pdict, pc.tldict: pc.tdict}
def kinds(p):
    """What is not of the kind it should be."""
    out = []
    T = type(p)
    def rd(label, fn, want):
        x = o(fn)
        if x[0] == 'exc': out.append((label, x))
        elif not all(type(y) is w for (y, w) in zip(x[1] if type(x[1]) is tuple else (x[1],), want if type(want) is tuple else (want,))): out.append((label, [type(y).__name__ for y in (x[1] if type(x[1]) is tuple else (x[1],))]))
    n = len(p)
    A = syms.A
    if T is pc.llist:
        for i in range(-n, n):
            for f in ('delete', 'drop'): rd(f'{f}({i})', lambda: getattr(p, f)(i), T)
            rd(f'pop({i})[1]', lambda: p.pop(i)[1], T); rd(f'set({i})', lambda: p.set(i, A), T); rd(f'insert({i})', lambda: p.insert(i, L(A)), T)
        for i in (n, -n - 1, 50): rd(f'drop({i})', lambda: p.drop(i), T); rd(f'insert({i})', lambda: p.insert(i, A), T)
        for f in ('clear', 'copy', 'sort', 'reverse', 'ready_all'): rd(f, getattr(p, f), T)
        for x in ([], [A], (L(A),), pc.plist([A]), pc.tlist([A]), pc.llist([L(A)]), pc.tllist([A]), ''): rd(f'extend({x})', lambda: p.extend(x), T)
        for x in ([], [A], pc.llist(), pc.llist([L(A)])): rd(f'+ {type(x)} {len(x)}', lambda: p + x, T)
        for x in ([], [A]): rd(f'{type(x)} {len(x)} +', lambda: x + p, T)
        rd('* 0', lambda: p * 0, T); rd('* 1', lambda: p * 1, T); rd('* 2', lambda: p * 2, T); rd('2 *', lambda: 2 * p, T); rd('append', lambda: p.append(A), T); rd('prepend', lambda: p.prepend(A), T)
        if n: rd('remove', lambda: p.remove(p[-1]), T)
        rd('transient', p.transient, pc.tllist); rd('as_plist', p.as_plist, pc.plist); rd('holdlazy', lambda: pc.holdlazy(p), pc.plist); rd('round trip', lambda: p.transient().persistent(), T); rd('plist', lambda: pc.plist(p), pc.plist)
        for s in (slice(None), slice(1, None), slice(None, None, -1), slice(9, None), slice(0, 0)): rd(f'{s}', lambda: p[s], T)
        rd('transient slice', lambda: p.transient()[1:], pc.tllist); rd('transient copy', lambda: p.transient().copy(), pc.tllist); rd('transient + []', lambda: p.transient() + [A], pc.tllist); rd('[] + transient', lambda: [A] + p.transient(), pc.tllist); rd('transient * 2', lambda: p.transient() * 2, pc.tllist)
    elif T is pc.tllist:
        rd('persistent', p.persistent, pc.llist); rd('copy', p.copy, T); rd('[1:]', lambda: p[1:], T); rd('+ [A]', lambda: p + [A], T); rd('* 2', lambda: p * 2, T); rd('llist', lambda: pc.llist(p), pc.llist); rd('plist', lambda: pc.plist(p), pc.plist); rd('tlist', lambda: pc.tlist(p), pc.tlist)
    elif T is pc.ldict:
        for k in list(p) + [A, syms.G]:
            rd(f'drop({k})', lambda: p.drop(k), T); rd(f'pop({k}, d)', lambda: p.pop(k, 1)[1], T); rd(f'set({k})', lambda: p.set(k, L(A)), T); rd(f'setdefault({k})', lambda: p.setdefault(k, L(A)), T)
            if k in p: rd(f'delete({k})', lambda: p.delete(k), T); rd(f'deleteall({k})', lambda: p.deleteall([k]), T)
            rd(f'dropall({k})', lambda: p.dropall([k]), T); rd(f'setall({k})', lambda: p.setall([k], [A]), T); rd(f'update({k})', lambda: p.update({k: A}), T); rd(f'update(pdict {k})', lambda: p.update(pc.pdict({k: L(A)})), T)
        for f in ('clear', 'copy', 'update', 'ready_all'): rd(f, getattr(p, f), T)
        rd('dropall', lambda: p.dropall(list(p)), T); rd('deleteall', lambda: p.deleteall(list(p)), T); rd('update(x=)', lambda: p.update(x=1), T)
        if n: rd('popitem', lambda: p.popitem(), (tuple, T))
        rd('transient', p.transient, pc.tldict); rd('as_pdict', p.as_pdict, pc.pdict); rd('holdlazy', lambda: pc.holdlazy(p), pc.pdict); rd('round trip', lambda: p.transient().persistent(), T); rd('pdict', lambda: pc.pdict(p), pc.pdict)
        rd('transient copy', lambda: p.transient().copy(), pc.tldict)
    elif T is pc.tldict:
        rd('persistent', p.persistent, pc.ldict); rd('copy', p.copy, T); rd('as_tdict', p.as_tdict, pc.tdict); rd('holdlazy', lambda: pc.holdlazy(p), pc.tdict); rd('ldict', lambda: pc.ldict(p), pc.ldict); rd('pdict', lambda: pc.pdict(p), pc.pdict); rd('tdict', lambda: pc.tdict(p), pc.tdict)
    return out
def names(x): return [y.name if isinstance(y, syms.Sym) else repr(y) for y in x]
def like_plain(p):
    """Differences between p and the plain collection of its results under comparison, hashing and conversion."""
    out = []
    T = type(p)
    seq = T in (pc.llist, pc.tllist)
    pers = T in (pc.llist, pc.ldict)
    cont = list(p) if seq else list(p.items())
    q = PLAIN[T](cont)
    others = []
    if seq:
        for c in (cont, cont[:-1], cont + [syms.A], [syms.B] + cont[1:], [syms.A2 if x is syms.A else x for x in cont], []):
            others += [pc.plist(c), pc.llist(map(L, c)), pc.tlist(c), pc.tllist(map(L, c)), list(c), tuple(c)]
    else:
        for c in (cont, cont[:-1], cont + [(syms.G, 1)], cont[::-1], [(k, syms.v7) for (k, v) in cont], []):
            others += [pc.pdict(c), pc.ldict([(k, L(v)) for (k, v) in c]), pc.tdict(c), dict(c)]
    def d(label, f):
        a, b = o(f, p), o(f, q)
        if a[0] != b[0] or a[1] != b[1] or type(a[1]) is not type(b[1]): out.append((label, a, b))
    for (i, x) in enumerate(others):
        d(f'== {i}', lambda p: p == x); d(f'!= {i}', lambda p: p != x); d(f'{i} ==', lambda p: x == p)
        if seq:
            d(f'< {i}', lambda p: p < x); d(f'<= {i}', lambda p: p <= x); d(f'> {i}', lambda p: p > x); d(f'>= {i}', lambda p: p >= x); d(f'{i} <', lambda p: x < p); d(f'{i} >', lambda p: x > p); d(f'seqcmp {i}', lambda p: seqcmp(p, x)); d(f'cmpseq {i}', lambda p: seqcmp(x, p))
    if pers: d('hash', hash); d('in set', lambda p: p in {q}); d('in set 2', lambda p: q in {p})
    if seq:
        d('list', lambda p: names(list(p))); d('tuple', lambda p: names(tuple(p))); d('plist', lambda p: names(pc.plist(p))); d('reversed', lambda p: names(reversed(p))); d('sorted', lambda p: names(sorted(p))); d('star', lambda p: names([*p])); d('set', lambda p: sorted(names(set(p))))
        d('tlist', lambda p: names(pc.tlist(p))); d('pset', lambda p: names(pc.pset(p))); d('max', lambda p: max(p).eqc); d('mutable copy', lambda p: names((p.transient() if pers else p).copy())); d('zip', lambda p: names(x for (x, _) in zip(p, range(2))))
    else:
        f = lambda it: [(k.name, v.name if isinstance(v, syms.Sym) else repr(v)) for (k, v) in it]
        d('dict', lambda p: f(dict(p).items())); d('**', lambda p: f({**p}.items())); d('pdict', lambda p: f(pc.pdict(p).items())); d('tdict', lambda p: f(pc.tdict(p).items())); d('values', lambda p: names(p.values())); d('items', lambda p: f(p.items())); d('reversed', lambda p: names(reversed(p)))
        d('dict.update', lambda p: f((lambda e: e.update(p) or e)({}).items())); d('pdict.update', lambda p: f(pc.pdict().update(p).items())); d('list(items) in set', lambda p: sorted(f(set(p.items())))); d('items &', lambda p: sorted(f(p.items() & set(cont[:1])))); d('items ==', lambda p: p.items() == dict(cont).items())
        if pers: d('popitem', lambda p: f([p.popitem()[0]]))
        d('pop', lambda p: names([p.pop(cont[0][0])[0] if pers else p.copy().pop(cont[0][0])])); d('match', lambda p: names(x for x in [matchmap(p)]))
    return out
def matchmap(p):
    match p:
        case {0: _}: return 0
        case {**rest}: return len(rest)
EMPTY = dict(kinds=lambda p: [], like=lambda p: [], L=lambda x: x, R=lambda x: x)
def patterns(n, els):
    for f in itertools.product(('L(%s)', 'R(%s)', '%s'), repeat=n):
        yield [a % b for (a, b) in zip(f, els)]
def strip(x): return x.replace('L(', '(').replace('R(', '(')
E_ = (syms.A, syms.B, syms.A2)
K_ = (syms.A, syms.B, syms.C, syms.D, syms.A2)
def gi(rd): return dict(kinds=kinds, like=like_plain, reads=rd, L=L, R=R)
def gm(rd): return dict(EMPTY, reads=rd)
def sr(p): return reads.seq_reads(p, E_, deep=False)
def mr(p): return reads.map_reads(p, K_)
def sr1(p): return reads.seq_reads(p, (syms.ES[0], syms.ES[31], syms.D), deep=False)
def mr1(p): return reads.map_reads(p, syms.ES[:40] + [syms.A])
def jobs(tier):
    th = tier != 'quick'
    js = []
    spaces = [(2, range(0, 4))] if not th else [(3, range(0, 4)), (2, range(4, 5))]
    for (d, ns) in spaces:
        t = '' if d != 2 or not th else '-long'
        sl, st, sd, sdt = [], [], [], []
        for n in ns:
            for it in patterns(n, ('A', 'B', 'A2', 'B')):
                e, m = ', '.join(it), strip(', '.join(it))
                sl.append([(f"p = llist([{e}])", f"p = [{m}]")])
                st.append([(f"t = tllist([{e}])", f"t = [{m}]")])
            for it in patterns(n, ('v1', 'v2', 'v1', 'v3')):
                e = ', '.join(f"({k}, {v})" for (k, v) in zip(('A', 'B', 'D', 'C'), it))
                sd.append([(f"p = ldict([{e}])", f"p = dict([{strip(e)}])")])
                sdt.append([(f"t = tldict([{e}])", f"t = dict([{strip(e)}])")])
        sl.append([("p = llist([L(B)]).prepend(R(A)).prepend(A2)", "p = [A2, A, B]")]); sl.append([("_x = L(A); p = llist([_x, _x, B])", "p = [A, A, B]")])
        st.append([("t = llist([L(B)]).prepend(R(A)).prepend(A2).transient()", "t = [A2, A, B]")])
        sd.append([("_x = L(v1); p = ldict({B: _x, A: _x})", "p = {B: v1, A: v1}")]); sdt.append([("t = ldict({B: L(v1), A: R(v2)}).transient()", "t = {B: v1, A: v2}")])
        lim = 6000 if th else 100000
        ops = [x for x in menus.pl_updates(els=('A', 'L(B)', 'R(A2)'), idx=(0, 1, -1, 3), lite=True, cls='llist', tcls='tllist') if '.remove(R(' not in x[0]]
        pm = lambda ops: [(a, strip(b)) for (a, b) in ops]
        pr = [("type(p).__name__", "'llist'"), ("reads(p)", "reads(p)"), ("kinds(p)", "kinds(p)"), ("like(p)", "like(p)")]
        js += split(Space('llist' + t, sl, ops, pr, depth=d, mutable=True, within='len(p) <= 4', gi=gi(sr), gm=gm(sr), limit=lim))
        ops = [x for x in menus.tl_updates(els=('A', 'L(B)', 'R(A2)'), idx=(0, 1, -1, 3), lite=True) if '.remove(R(' not in x[0]]
        pr = [("type(t).__name__", "'tllist'"), ("reads(t)", "reads(t)"), ("kinds(t)", "kinds(t)"), ("like(t)", "like(t)")]
        js += split(Space('tllist' + t, st, ops, pr, depth=d, mutable=True, within='len(t) <= 4', gi=gi(sr), gm=gm(sr), limit=lim))
        ops = menus.pd_updates(keys=('A', 'B', 'C', 'A2'), vals=('L(v1)', 'R(v2)'), cls='ldict', tcls='tldict')
        pr = [("type(p).__name__", "'ldict'"), ("reads(p)", "reads(p)"), ("kinds(p)", "kinds(p)"), ("like(p)", "like(p)")]
        js += split(Space('ldict' + t, sd, pm(ops), pr, depth=d, mutable=True, within='len(p) <= 4', gi=gi(mr), gm=gm(mr), limit=lim))
        ops = menus.td_updates(keys=('A', 'B', 'C', 'A2'), vals=('L(v1)', 'R(v2)'))
        pr = [("type(t).__name__", "'tldict'"), ("reads(t)", "reads(t)"), ("kinds(t)", "kinds(t)"), ("like(t)", "like(t)")]
        js += split(Space('tldict' + t, sdt, pm(ops), pr, depth=d, mutable=True, within='len(t) <= 4', gi=gi(mr), gm=gm(mr), limit=lim))
    sz = tuple(range(0, 41)) + (63, 64, 65, 129) + ((256, 257, 1025) if th else ())
    PRB = lambda v, k: [(f"type({v}).__name__", f"'{k}'"), (f"reads({v})", f"reads({v})"), (f"kinds({v})", f"kinds({v})"), (f"like({v})", f"like({v})")]
    for k in ('llist', 'tllist'):
        v = 'p' if k == 'llist' else 't'
        js += sweep.sweep(k + '-sizes', sweep.list_seeds(k, sz, v), [], PRB(v, k), gi(sr1), gm(sr1), mutable=True, depth=0)
    for k in ('ldict', 'tldict'):
        v = 'p' if k == 'ldict' else 't'
        js += sweep.sweep(k + '-sizes', sweep.dict_seeds(k, sz, v) + sweep.chain_seeds(k, v), [], PRB(v, k), gi(mr1), gm(mr1), mutable=True, depth=0)
    js += huge.jobs('c18', 'llist', tier)
    js += huge.jobs('c18', 'ldict', tier)
    return js
