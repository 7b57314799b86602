"""The elements and keys that the explored collections hold.

A symbol has a name, an equality class, a hash and a position in the ordering, all fixed, so that
"the same object", "an equal object" and "an object with an equal hash" are three different things.
HOOK, when set, is called at every call-back the library makes into a symbol (C21, C25).
"""
HOOK = None
class Sym:
    __slots__ = ('name', 'eqc', 'h', '__weakref__')
    def __init__(self, name, eqc, h):
        self.name, self.eqc, self.h = name, eqc, h
    def __eq__(self, other):
        if HOOK is not None: HOOK('eq')
        if isinstance(other, Sym):
            return self.eqc == other.eqc
        return NotImplemented
    def __ne__(self, other):
        if HOOK is not None: HOOK('ne')
        if isinstance(other, Sym):
            return self.eqc != other.eqc
        return NotImplemented
    def __hash__(self):
        if HOOK is not None: HOOK('hash')
        return self.h
    def __lt__(self, other):
        if HOOK is not None: HOOK('lt')
        if isinstance(other, Sym):
            return self.eqc < other.eqc
        return NotImplemented
    def __gt__(self, other):
        if HOOK is not None: HOOK('gt')
        if isinstance(other, Sym):
            return self.eqc > other.eqc
        return NotImplemented
    def __le__(self, other):
        if isinstance(other, Sym):
            return self.eqc <= other.eqc
        return NotImplemented
    def __ge__(self, other):
        if isinstance(other, Sym):
            return self.eqc >= other.eqc
        return NotImplemented
    def __repr__(self):
        return self.name
    def __reduce__(self):
        return (sym, (self.name,))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
class NoOrder(Sym):
    """Equal only to its own class, hashable, but not orderable."""
    __slots__ = ()
    __hash__ = Sym.__hash__
    def __eq__(self, other):
        if HOOK is not None: HOOK('eq')
        if isinstance(other, Sym):
            return self.eqc == other.eqc
        return NotImplemented
    def _no(self, other): return NotImplemented
    __lt__ = __gt__ = __le__ = __ge__ = _no
class NaN(Sym):
    """Not equal to anything, itself included; unordered (like float('nan'))."""
    __slots__ = ()
    __hash__ = Sym.__hash__
    def __eq__(self, other): return False if isinstance(other, Sym) else NotImplemented
    def __ne__(self, other): return True if isinstance(other, Sym) else NotImplemented
    def _no(self, other): return False if isinstance(other, Sym) else NotImplemented
    __lt__ = __gt__ = __le__ = __ge__ = _no
class Unhashable:
    __slots__ = ()
    __hash__ = None
    def __repr__(self): return 'UH'
_REG = {}
def sym(name): return _REG[name]
def _mk(name, eqc, h, cls=Sym):
    s = _REG[name] = cls(name, eqc, h)
    return s
# Three different symbols that share one hash, one with the next hash, one equal to A but distinct.
A = _mk('A', 'a', 7)
B = _mk('B', 'b', 7)
C = _mk('C', 'c', 7)
D = _mk('D', 'd', 8)
G = _mk('G', 'g', 7 + 32)             # same low bits as A
A2 = _mk('A2', 'a', 7)
B2 = _mk('B2', 'b', 7)
D2 = _mk('D2', 'd', 8)
Z = _mk('Z', 'z', 0)                   # hash 0
BIG = _mk('BIG', 'zz', (1 << 60) + 7)  # huge hash with the low bits of A
NEG = _mk('NEG', 'zy', -(1 << 60) + 7) # huge negative hash
M7 = _mk('M7', 'm', -7)                # small negative hash
N = _mk('N', 'n', 7, NaN)              # unequal to itself, hash of A
N2 = _mk('N2', 'n2', 11, NaN)
U = _mk('U', 'u', 9, NoOrder)
V = _mk('V', 'v', 9, NoOrder)
UH = Unhashable()
def V_(i):
    """The i-th value symbol."""
    return VALS[i]
VALS = [_mk('v%d' % i, 'v%03d' % i, 100 + i) for i in range(8)]
v0, v1, v2, v3, v4, v5, v6, v7 = VALS
v1b = _mk('v1b', 'v001', 101)         # equal to v1 but distinct
CONSTS = dict(_REG)
CONSTS['UH'] = UH
F0 = CONSTS['F0'] = 0.0
CONSTS["sym"] = sym; CONSTS["VALS"] = VALS
# Many distinct elements, every three of them sharing a hash; used where sizes are swept.
ES = [_mk('e%d' % i, 'e%05d' % i, 7 + 11 * (i // 3)) for i in range(1200)]
CONSTS['ES'] = ES
# Many distinct elements that all share one hash (with A, B, C).
CH = [_mk('c%d' % i, 'f%05d' % i, 7) for i in range(48)]
CONSTS['CH'] = CH
