"""The smallest implementations of the abstract classes that their documentation asks for.

Two families: `new` keeps a tuple/list/dict in a slot filled by __new__; `init` is written the plain
way, with __init__ and ordinary attributes under other names.  Neither shares any representation with
the library's own collections.
"""
import pcollections.abc as abc
from operator import index
def norm(i, n, what):
    i = index(i)
    if i < 0: i += n
    if not 0 <= i < n: raise IndexError(what)
    return i
class PSeq(abc.PersistentSequence):
    __slots__ = ('data',)
    def __new__(cls, it=()):
        self = object.__new__(cls)
        object.__setattr__(self, 'data', tuple(it))
        return self
    def set(self, i, x):
        i = norm(i, len(self.data), 'set')
        return PSeq(self.data[:i] + (x,) + self.data[i + 1:])
    def delete(self, i=-1):
        i = norm(i, len(self.data), 'delete')
        return PSeq(self.data[:i] + self.data[i + 1:])
    def append(self, x): return PSeq(self.data + (x,))
    def prepend(self, x): return PSeq((x,) + self.data)
    def insert(self, i, x): return PSeq(self.data[:i] + (x,) + self.data[i:])
    def clear(self): return PSeq()
    def transient(self): return TSeq(self.data)
    def __iter__(self): return iter(self.data)
    def __len__(self): return len(self.data)
    def __getitem__(self, i): return PSeq(self.data[i]) if isinstance(i, slice) else self.data[i]
class TSeq(abc.TransientSequence):
    __slots__ = ('box',)
    def __new__(cls, it=()):
        self = object.__new__(cls)
        self.box = list(it)
        return self
    def clear(self): self.box.clear()
    def persistent(self): return PSeq(self.box)
    def __iter__(self): return iter(self.box)
    def __len__(self): return len(self.box)
    def __getitem__(self, i): return TSeq(self.box[i]) if isinstance(i, slice) else self.box[i]
    def __setitem__(self, i, x): self.box[index(i)] = x
    def __delitem__(self, i): del self.box[index(i)]
    def append(self, x): self.box.append(x)
    def prepend(self, x): self.box.insert(0, x)
    def insert(self, i, x): self.box.insert(i, x)
class PSet(abc.PersistentSet):
    __slots__ = ('members',)
    def __new__(cls, it=()):
        self = object.__new__(cls)
        object.__setattr__(self, 'members', tuple(dict.fromkeys(it)))
        return self
    def __iter__(self): return iter(self.members)
    def __len__(self): return len(self.members)
    def __contains__(self, x):
        hash(x)
        return x in self.members
    def transient(self): return TSet(self.members)
    def add(self, x):
        hash(x)
        return self if x in self.members else PSet(self.members + (x,))
    def discard(self, x):
        hash(x)
        return PSet(y for y in self.members if not (y is x or y == x)) if x in self.members else self
    def clear(self): return PSet()
class TSet(abc.TransientSet):
    __slots__ = ('box',)
    def __new__(cls, it=()):
        self = object.__new__(cls)
        self.box = dict.fromkeys(it)
        return self
    def __iter__(self): return iter(self.box)
    def __len__(self): return len(self.box)
    def __contains__(self, x): return x in self.box
    def add(self, x): self.box.setdefault(x)
    def discard(self, x): self.box.pop(x, None)
    def clear(self): self.box.clear()
    def persistent(self): return PSet(self.box)
class PMap(abc.PersistentMapping):
    __slots__ = ('pairs',)
    def __new__(cls, it=()):
        self = object.__new__(cls)
        object.__setattr__(self, 'pairs', dict(it.items() if hasattr(it, 'items') else it))
        return self
    def __len__(self): return len(self.pairs)
    def __iter__(self): return iter(self.pairs)
    def __getitem__(self, k): return self.pairs[k]
    def transient(self): return TMap(self.pairs)
    def set(self, k, v):
        d = dict(self.pairs)
        d[k] = v
        return PMap(d)
    def drop(self, k):
        d = dict(self.pairs)
        if d.pop(k, self) is self: return self
        return PMap(d)
    def clear(self): return PMap()
class TMap(abc.TransientMapping):
    __slots__ = ('box',)
    def __new__(cls, it=()):
        self = object.__new__(cls)
        self.box = dict(it.items() if hasattr(it, 'items') else it)
        return self
    def __len__(self): return len(self.box)
    def __iter__(self): return iter(self.box)
    def __getitem__(self, k): return self.box[k]
    def __setitem__(self, k, v): self.box[k] = v
    def __delitem__(self, k): del self.box[k]
    def persistent(self): return PMap(self.box)
    def clear(self): self.box.clear()
# ---- written with __init__ ---------------------------------------------------------------------------
class ISeq(abc.PersistentSequence):
    def __init__(self, it=()): self.__dict__['els'] = list(it)
    def _with(self, f):
        l = list(self.els)
        f(l)
        return ISeq(l)
    def set(self, i, x): return self._with(lambda l: l.__setitem__(index(i), x))
    def delete(self, i=-1): return self._with(lambda l: l.pop(index(i)))
    def append(self, x): return self._with(lambda l: l.append(x))
    def prepend(self, x): return self._with(lambda l: l.insert(0, x))
    def insert(self, i, x): return self._with(lambda l: l.insert(i, x))
    def clear(self): return ISeq()
    def transient(self): return ITSeq(self.els)
    def __iter__(self): return (x for x in self.els)
    def __len__(self): return len(self.els)
    def __getitem__(self, i): return ISeq(self.els[i]) if isinstance(i, slice) else self.els[i]
    def __reduce__(self): return (ISeq, (self.els,))
class ITSeq(abc.TransientSequence):
    def __init__(self, it=()): self.els = list(it)[::-1]            # kept back to front
    def clear(self): self.els = []
    def persistent(self): return ISeq(self.els[::-1])
    def __iter__(self): return (self.els[~i] for i in range(len(self.els)))
    def __len__(self): return len(self.els)
    def __getitem__(self, i): return ITSeq(self.els[::-1][i]) if isinstance(i, slice) else self.els[~index(i)]
    def __setitem__(self, i, x): self.els[~index(i)] = x
    def __delitem__(self, i): del self.els[~index(i)]
    def append(self, x): self.els.insert(0, x)
    def prepend(self, x): self.els.append(x)
    def insert(self, i, x):
        l = self.els[::-1]
        l.insert(i, x)
        self.els = l[::-1]
    def __reduce__(self): return (ITSeq, (self.els[::-1],))
class ISet(abc.PersistentSet):
    def __init__(self, it=()): self.__dict__['els'] = dict.fromkeys(it)
    def __iter__(self): return iter(self.els)
    def __len__(self): return len(self.els)
    def __contains__(self, x): return x in self.els
    def transient(self): return ITSet(self.els)
    def add(self, x): return ISet([*self.els, x])
    def discard(self, x):
        d = dict(self.els)
        d.pop(x, None)
        return ISet(d)
    def clear(self): return ISet()
class ITSet(abc.TransientSet):
    def __init__(self, it=()):
        self.els = []
        for x in it: self.add(x)
    def __iter__(self): return iter(self.els)
    def __len__(self): return len(self.els)
    def __contains__(self, x):
        hash(x)
        return x in self.els
    def add(self, x):
        if x not in self: self.els.append(x)
    def discard(self, x):
        if x in self: self.els.remove(x)
    def clear(self): self.els = []
    def persistent(self): return ISet(self.els)
class IMap(abc.PersistentMapping):
    def __init__(self, it=()): self.__dict__['d'] = dict(it)
    def __len__(self): return len(self.d)
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def transient(self): return ITMap(self.d)
    def set(self, k, v):
        d = dict(self.d)
        d[k] = v
        return IMap(d)
    def drop(self, k): 
        hash(k)
        return IMap((x, y) for (x, y) in self.d.items() if not (x is k or x == k))
    def clear(self): return IMap()
class ITMap(abc.TransientMapping):
    def __init__(self, it=()): self.d = dict(it)
    def __len__(self): return len(self.d)
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def __setitem__(self, k, v): self.d[k] = v
    def __delitem__(self, k): del self.d[k]
    def persistent(self): return IMap(self.d)
    def clear(self): self.d.clear()
ALL = {c.__name__: c for c in (PSeq, TSeq, PSet, TSet, PMap, TMap, ISeq, ITSeq, ISet, ITSet, IMap, ITMap)}
FAMILIES = {'new': ('PSeq', 'TSeq', 'PSet', 'TSet', 'PMap', 'TMap'), 'init': ('ISeq', 'ITSeq', 'ISet', 'ITSet', 'IMap', 'ITMap')}
