"""Enumerations of cases given as Python expressions, evaluated against the library and against Python's own types."""
from . import core, model, syms
from .core import Report, FuncJob, family, show, same
import pcollections as pc
def ev(expr, glob):
    return core.run_expr(expr, glob, {})
def attempt(fn):
    try: return ('ok', fn())
    except core.Hang: raise
    except Exception as e: return ('exc', family(e))
def script(mod, *args):
    (m, _, f) = mod.partition(':')
    return f"from mc import core\nfrom mc.checks import {m}\ncore.start_guard()\ne = {m}.{f or 'case'}(*{args!r})\nprint('REPRODUCED: ' + e if e else 'not reproduced')\nsys.exit(1 if e else 0)\n"
def enumerate_cases(rep, mod, case, cases):
    """case(*args) returns None or what is wrong; counts every case as an evaluation."""
    for c in cases:
        core.tick()
        rep.current = script(mod, *c)
        try: e = case(*c)
        except Exception as x:
            if not core.from_library(x): raise
            e = f"unexpected {type(x).__name__}: {x}"
        rep.case(key=repr(c), sample=' ; '.join(map(str, c)))
        if e: rep.violation(e, script(mod, *c), key=f"{c[0] if c else ''}")
def chunks(label, mod, case, cases, k=16):
    cases = list(cases)
    js = []
    n = len(cases)
    k = min(k, max(1, n))
    for i in range(k):
        part = cases[i * n // k:(i + 1) * n // k]
        if part: js.append(FuncJob(f"{label}/{i}", enumerate_cases, mod, case, part))
    return js
