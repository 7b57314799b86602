"""Reference models. Deliberately boring: Python's own list and dict, and a set built on dict."""
class BadChoice(AssertionError):
    "The implementation made a choice the specification does not allow."
class MSet:
    """An insertion-ordered set that keeps the first-added of equal elements."""
    __slots__ = ('d',)
    def __init__(self, it=()):
        self.d = {}
        for x in it: self.add(x)
    def add(self, x):
        if x not in self.d: self.d[x] = True
    def discard(self, x): self.d.pop(x, None)
    def remove(self, x): del self.d[x]
    def update(self, it):
        for x in list(it): self.add(x)
    def clear(self): self.d.clear()
    def __contains__(self, x): return x in self.d
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
    def copy(self): return MSet(self.d)
    def __eq__(self, o): return isinstance(o, MSet) and self.d.keys() == o.d.keys()
    __hash__ = None
    def s(self): return set(self.d)
    def __repr__(self): return 'MSet(%r)' % list(self.d)
def first(it, x):
    "The stored object that equals x."
    for y in it:
        if y is x or y == x: return y
    raise KeyError(x)
# --- list edits in function form; each returns what the statement says -------------------------------
def l_set(l, i, x): l[i] = x
def l_drop(l, i=-1):
    if -len(l) <= i < len(l): del l[i]
def l_delete(l, i=-1): del l[i]
def l_prepend(l, x): l.insert(0, x)
def l_insert(l, i, x): l.insert(i, x)
def l_remove(l, x): l.remove(x)
# --- arbitrary choices -------------------------------------------------------------------------------
def one(x, r): return x is r or type(x) in (int, float, str, bytes) and type(r) is type(x) and x == r
def take(s, r):
    "Removes from the set model the element the implementation chose (KeyError if empty)."
    if len(s) == 0: raise KeyError('empty')
    for x in s:
        if one(x, r):
            s.discard(x)
            return x
    raise BadChoice(f'{r!r} is not an element of {s!r}')
def takeitem(d, r):
    "Removes from the dict model the pair the implementation chose (KeyError if empty)."
    if len(d) == 0: raise KeyError('empty')
    if type(r) is tuple and len(r) == 2:
        for (k, v) in d.items():
            if one(k, r[0]) and one(v, r[1]):
                del d[k]
                return (k, v)
    raise BadChoice(f'{r!r} is not an item of {d!r}')
# --- dict edits --------------------------------------------------------------------------------------
def d_drop(d, k): d.pop(k, None)
def d_delete(d, k): del d[k]
def d_setall(d, ks, vs):
    for (k, v) in zip(ks, vs): d[k] = v
def d_dropall(d, ks):
    for k in ks: d.pop(k, None)
def d_deleteall(d, ks):
    e = dict(d)
    for k in ks: del e[k]
    for k in list(d):
        if k not in e: del d[k]
def d_popdef(d, k, *a): return d.pop(k, *a)
# --- set edits ---------------------------------------------------------------------------------------
def s_discardall(s, it):
    for x in list(it): s.discard(x)
def s_removeall(s, it):
    t = s.copy()
    for x in list(it): t.remove(x)
    s.d = t.d
def s_removeall_t(s, it):
    "In place: elements before the first absent one are removed."
    for x in list(it): s.remove(x)
def s_ixor(s, o):
    o = list(o)
    both = [x for x in s if x in o]
    new = [x for x in o if x not in s]
    for x in both: s.discard(x)
    for x in new: s.add(x)
def s_iand(s, o):
    o = list(o)
    for x in list(s):
        if x not in o: s.discard(x)
CONSTS = {k: v for (k, v) in globals().items() if not k.startswith('_')}
