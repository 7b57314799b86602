"""Counterexamples as plain scripts, and the file of known findings."""
import os, json
from . import env
def known(prop):
    out = {}
    try:
        with open(os.path.join(env.VERIF, 'known_findings.txt')) as f:
            for l in f:
                # known: property=<id> key=<key> <what fails>
                if l.startswith(f'known: property={prop} key='):
                    (k, _, what) = l.split('key=', 1)[1].strip().partition(' | ')
                    out[k] = what or k
    except FileNotFoundError:
        pass
    return out
HEAD = '''# Counterexample for property {prop}, found by {job}.
#   {what}
# Run:  PYTHONHASHSEED=0 PYTHONPATH={verif} /opt/venv/bin/python {path}
# Exit status 1: the violation is reproduced; 0: it is not.
import sys
sys.path.insert(0, {verif!r})
'''
def write(rdir, prop, n, job, v):
    path = os.path.join(rdir, f'{prop}_{n}.py')
    what = v['what'].replace('\n', ' ')[:500]
    with open(path, 'w') as f:
        f.write(HEAD.format(prop=prop, job=v['job'], what=what, verif=env.VERIF, path=path))
        if v.get('script'):
            f.write(v['script'])
        elif v.get('path') is not None and hasattr(job, 'space') and v['key'] != 'dead':
            s = job.space
            f.write("from mc import trace\n")
            f.write(f"T = trace.Trace({prop!r}, {os.environ.get('VERIF_TIER', 'quick')!r}, {s.name!r}, {job.seed})   # globals, probes of the space\n")
            for o in s.seeds[job.seed]: f.write(f"T.step({o[0]!r}, {o[1]!r})\n")
            for o in v['path']: f.write(f"T.step({o[0]!r}, {o[1]!r})\n")
            f.write("T.done()\n")
        else:
            f.write(f"from mc import trace\ntrace.rerun({prop!r}, {v['job']!r})\n")
    return path
