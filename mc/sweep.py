"""Spaces that sweep the sizes: every operation from every representation of every size up to a bound."""
from . import syms, core, menus
from .core import Space, SpaceJob
import pcollections as pc
ES = syms.ES
def const(x): return x
MADE = None           # a dict in which what every lazy object made here will compute is noted, if wanted
def made(l, x):
    if MADE is not None: MADE[id(l)] = (l, x)
    return l
def L(x): return made(pc.lazy(const, x), x)
def R(x):
    l = pc.lazy(const, x); l()
    return l
def LS(n, k=0): return [L(x) if i % 3 == 1 else R(x) if i % 7 == 2 else x for (i, x) in enumerate(ES[k:k + n])]
def LV(n, k=0): return [(ES[i], L(ES[i + 1]) if i % 3 == 1 else R(ES[i + 1]) if i % 7 == 2 else ES[i + 1]) for i in range(k, k + n)]
def SV(n, k=0): return [(ES[i], ES[i + 1]) for i in range(k, k + n)]
def pre(K, xs):
    "Builds a persistent list by prepending."
    p = K()
    for x in xs[::-1]: p = p.prepend(x)
    return p
def strad(K, xs):
    "Half of it appended, half prepended."
    h = len(xs) // 2
    p = K(xs[h:])
    for x in xs[:h][::-1]: p = p.prepend(x)
    return p
def off(K, xs):
    "Three more at the front, deleted again."
    p = K([syms.D] * 3 + list(xs))
    for _ in range(3): p = p.delete(0)
    return p
def one(K, xs):
    "All but one prepended."
    p = K(xs[-1:])
    for x in xs[:-1][::-1]: p = p.prepend(x)
    return p
def shrunk(K, xs):
    "Twice as large once."
    p = K(list(xs) + [syms.D] * len(xs))
    for _ in range(len(xs)): p = p.delete()
    return p
def far(K, xs):
    "Seventy more at the front, deleted again: no item of the first trie nodes is left."
    p = K([syms.D] * 70 + list(xs))
    for _ in range(70): p = p.delete(0)
    return p
def neg(K, xs):
    "Prepended to forty that are deleted again: all internal positions are negative."
    p = K([syms.D] * 40)
    for x in list(xs)[::-1]: p = p.prepend(x)
    for _ in range(40): p = p.delete()
    return p
def hollow(K, xs):
    "A set or mapping to which ninety others were added, in between as well, and taken away."
    xs = list(xs); m = isinstance(K(), pc.abc.PersistentMapping)
    t = K().transient()
    def put(i): (t.__setitem__(('hollow', i), 0) if m else t.add(('hollow', i)))
    def cut(i): (t.__delitem__(('hollow', i)) if m else t.discard(('hollow', i)))
    for i in range(40): put(i)
    for (j, x) in enumerate(xs):
        if m: t[x[0]] = x[1]
        else: t.add(x)
        if j % 5 == 2:
            put(40 + j)
    for i in range(200, 250): put(i)
    for i in range(40): cut(i)
    for j in range(2, len(xs), 5): cut(40 + j)
    for i in range(200, 250): cut(i)
    return t.persistent()
def sdisc(K, xs):
    "A set that lost elements in front, in between and behind."
    xs = list(xs); h = len(xs) // 2
    p = K([syms.A, syms.B] + xs[:h] + [syms.C] + xs[h:] + [syms.D])
    for x in (syms.A, syms.C, syms.B, syms.D): p = p.discard(x)
    return p
def sadd(K, xs):
    p = K()
    for x in xs: p = p.add(x)
    return p
def ddisc(K, xs):
    xs = list(xs); h = len(xs) // 2
    p = K([(syms.A, 1), (syms.B, 2)] + xs[:h] + [(syms.C, 3)] + xs[h:] + [(syms.D, 4)])
    for x in (syms.A, syms.C, syms.B, syms.D): p = p.drop(x)
    return p
def dadd(K, xs):
    p = K()
    for (k, v) in xs: p = p.set(k, v)
    return p
def tadd(K, xs):
    t = K()
    for x in xs: t.add(x)
    return t
def tset_(K, xs):
    t = K()
    for (k, v) in xs: t[k] = v
    return t
GI = dict(L=L, R=R, LS=LS, LV=LV, SV=SV, pre=pre, strad=strad, off=off, one=one, shrunk=shrunk, far=far, neg=neg, hollow=hollow, sdisc=sdisc, sadd=sadd, ddisc=ddisc, dadd=dadd, tadd=tadd, tset_=tset_)
GM = dict(L=lambda x: x, R=lambda x: x, LS=lambda n, k=0: ES[k:k + n], LV=SV, SV=SV)
SMALL = tuple(range(0, 73))
LARGE = (96, 100, 127, 128, 129, 200, 255, 256, 257, 513, 1000, 1023, 1024, 1025)
ODD = (0, 1, 2, 3, 5, 8, 31, 32, 33, 34, 64, 65)      # sizes for which the less likely representations are tried too
def sizes(tier): return SMALL + LARGE
def list_seeds(kind, sizes, var='p'):
    lz = 'll' in kind
    tr = kind[0] == 't'
    P = {'tlist': 'plist', 'tllist': 'llist'}.get(kind, kind)
    out = []
    for n in sizes:
        xs = f"LS({n})" if lz else f"ES[:{n}]"
        m = f"{var} = ES[:{n}]"
        reps = [f"{kind}({xs})"] + [f"{r}({P}, {xs}){'.transient()' if tr else ''}" for r in (('pre', 'strad', 'off', 'one', 'shrunk') if n > 1 else ('pre',) if n else ())]
        if n in ODD: reps += [f"{r}({P}, {xs}){'.transient()' if tr else ''}" for r in ('far', 'neg')]
        if n > 300: reps = reps[:3]
        for r in reps: out.append([(f"{var} = {r}", m)])
    return out
CHAINS = (4, 5, 6, 7, 8, 9, 12, 16, 17, 33)
def chain_seeds(kind, var='p'):
    "Sets and mappings whose members all have the same hash."
    out = []
    for n in CHAINS:
        xs = f"CH[:{n}]"
        if 'set' in kind: out += [[(f"{var} = {kind}({xs})", f"{var} = MSet({xs})")], [(f"{var} = sdisc(pset, {xs})" + ('.transient()' if kind[0] == 't' else ''), f"{var} = MSet({xs})")]]
        else:
            m = f"[(x, VALS[i % 8]) for (i, x) in enumerate({xs})]"
            P = {'tdict': 'pdict', 'tldict': 'ldict'}.get(kind, kind)
            out += [[(f"{var} = {kind}({m})", f"{var} = dict({m})")], [(f"{var} = ddisc({P}, {m})" + ('.transient()' if kind[0] == 't' else ''), f"{var} = dict({m})")]]
    return out
CE = ('CH[1]', 'A', 'CH[3]', 'CH[0]', 'CH[2]', 'D', 'CH[8]')
RC = syms.CH[:18] + [syms.A, syms.D]
def set_seeds(kind, sizes, var='p'):
    tr = kind[0] == 't'
    out = []
    for n in sizes:
        xs = f"ES[:{n}]"
        reps = [f"{kind}({xs})", f"sdisc(pset, {xs}){'.transient()' if tr else ''}"] + ([f"sadd(pset, {xs})"] if not tr else [f"tadd(tset, {xs})", f"pset({xs}).transient()"])
        if n > 300: reps = reps[:2]
        if n in ODD: reps.append(f"hollow(pset, {xs}){'.transient()' if tr else ''}")
        for r in reps: out.append([(f"{var} = {r}", f"{var} = MSet({xs})")])
    return out
def dict_seeds(kind, sizes, var='p'):
    tr = kind[0] == 't'
    lz = 'l' in kind.replace('list', '')
    P = {'tdict': 'pdict', 'tldict': 'ldict'}.get(kind, kind)
    out = []
    for n in sizes:
        xs = f"LV({n})" if lz else f"SV({n})"
        reps = [f"{kind}({xs})", f"ddisc({P}, {xs}){'.transient()' if tr else ''}"] + ([f"dadd({P}, {xs})"] if not tr else [f"tset_({kind}, {xs})", f"{P}({xs}).transient()"])
        if n > 300: reps = reps[:2]
        if n in ODD: reps.append(f"hollow({P}, {xs}){'.transient()' if tr else ''}")
        for r in reps: out.append([(f"{var} = {r}", f"{var} = dict(SV({n}))")])
    return out
class Batch:
    "Several small jobs run in one process."
    def __init__(self, label, jobs): self.label, self.jobs = label, jobs
    def run(self):
        tot = None
        for j in self.jobs:
            r = j.run()
            if tot is None: tot = r; tot['label'] = self.label; continue
            for k in ('states', 'transitions', 'probes', 'leaves'): tot[k] += r[k]
            tot['maxdepth'] = max(tot['maxdepth'], r['maxdepth'])
            tot['outcomes'].update(r['outcomes']); tot['violations'] += r['violations']; tot['capped'] |= r['capped']
            if len(tot['samples']) < 6: tot['samples'] += r['samples']
            if len(tot['violations']) >= 3: break
        return tot
def batches(space, k=24):
    "Jobs for a space with many seeds."
    js = [SpaceJob(space, i) for i in range(len(space.seeds))]
    return [Batch(f"{space.name}/batch{i}", js[i::k]) for i in range(k) if js[i::k]]
def merge(gi, gm):
    "Adds the builders to the globals of a check."
    f = lambda a, b: dict(b, **(a() if callable(a) else a or {}))
    return (lambda: f(gi, GI)), (lambda: f(gm, GM))
def sweep(name, seeds, ops, probes, gi=None, gm=None, mutable=False, snaps=(), depth=1, k=24):
    (gi, gm) = merge(gi, gm)
    return batches(Space(name, seeds, ops, probes, depth=depth, mutable=mutable, gi=gi, gm=gm, snaps=snaps), k)
