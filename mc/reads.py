"""Every read operation of a collection, as one function run on the library object and on the model."""
from . import core, model, syms
from .core import outcome, family
import pcollections as pc
def o(fn, *a):
    try: return ('ok', fn(*a))
    except core.Hang: raise
    except Exception as e: return ('exc', family(e))
def seq_reads(p, els, deep=True):
    """All reads of a sequence; p is a library sequence or a list."""
    out = []
    n = len(p)
    def rd(label, fn, *a): out.append((label, o(fn, *a)))
    rd('len', len, p); rd('bool', bool, p)
    rd('list', lambda: list(p)); rd('reversed', lambda: list(reversed(p)))
    rd('two iterators', lambda: [x for ab in zip(iter(p), iter(p)) for x in ab])
    rd('nested iteration', lambda: [(x, y) for x in p for y in p][:20])
    rd('iterator is its own iterator', lambda: (lambda i: iter(i) is i)(iter(p)))
    rd('next past the end', lambda: next(_drain(iter(p))))
    rd('unpack', lambda: [*p]); rd('tuple', lambda: tuple(p)); rd('enumerate', lambda: list(enumerate(p)))
    for i in list(range(-n - 2, n + 2)) + [10**30, -10**30, True, False]:
        rd(f'[{i}]', lambda: p[i])
    for x in els:
        rd(f'count {x!r}', lambda: p.count(x)); rd(f'in {x!r}', lambda: x in p); rd(f'not in {x!r}', lambda: x not in p)
        rd(f'index {x!r}', lambda: p.index(x))
        for s in range(-n - 1, n + 2):
            rd(f'index {x!r},{s}', lambda: p.index(x, s))
            if deep:
                for e in range(-n - 1, n + 2):
                    rd(f'index {x!r},{s},{e}', lambda: p.index(x, s, e))
    if deep:
        b = [None] + list(range(-n - 2, n + 3)) + [10**20]
        steps = (None, 1, 2, 3, -1, -2, -3, 10**20)
    else:
        b = (None, 0, 1, -1, n, -n, 10**20); steps = (None, 1, -1, 2, -2)
    for s in b:
        for e in b:
            for st in steps:
                rd(f'[{s}:{e}:{st}]', slice_, p, s, e, st)
    rd('[::0]', slice_, p, None, None, 0)
    rd("['a']", lambda: p['a'] if type(p) is not list and False else _bad(p, 'a'))
    return out
def _bad(p, k):
    try:
        p[k]
    except Exception:
        return 'error'
    return 'no error'
def _drain(i):
    for _ in range(10000):
        try: next(i)
        except StopIteration: return i
    raise RuntimeError('endless iterator')
def slice_(p, s, e, st):
    r = p[s:e:st]
    return (type(r) is type(p), list(r))
def set_reads(p, els):
    """Reads of a set; p is a library set or an MSet."""
    out = []
    def rd(label, fn, *a): out.append((label, o(fn, *a)))
    rd('len', len, p); rd('bool', bool, p); rd('list', lambda: list(p))
    rd('two iterators', lambda: [x for ab in zip(iter(p), iter(p)) for x in ab])
    for x in els:
        rd(f'in {x!r}', lambda: x in p); rd(f'not in {x!r}', lambda: x not in p)
    rd('in UH', lambda: syms.UH in p)
    rd('next past the end', lambda: next(_drain(iter(p))))
    return out
def map_reads(p, keys, vals=()):
    """Reads of a mapping; p is a library mapping or a dict."""
    out = []
    def rd(label, fn, *a): out.append((label, o(fn, *a)))
    rd('len', len, p); rd('bool', bool, p); rd('list', lambda: list(p)); rd('reversed', lambda: list(reversed(p)))
    rd('keys', lambda: list(p.keys())); rd('values', lambda: list(p.values())); rd('items', lambda: list(p.items()))
    rd('reversed keys', lambda: list(reversed(p.keys()))); rd('reversed values', lambda: list(reversed(p.values()))); rd('reversed items', lambda: list(reversed(p.items())))
    rd('dict()', lambda: list(dict(p).items())); rd('**', lambda: list({**p}.items()))
    for k in keys:
        rd(f'in {k!r}', lambda: k in p); rd(f'not in {k!r}', lambda: k not in p); rd(f'[{k!r}]', lambda: p[k])
        rd(f'get {k!r}', lambda: p.get(k)); rd(f'get {k!r} default', lambda: p.get(k, syms.v7))
    rd('[UH]', lambda: p[syms.UH]); rd('get UH', lambda: p.get(syms.UH)); rd('in UH', lambda: syms.UH in p)
    return out
