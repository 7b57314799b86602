"""Replays one recorded history step by step, without the explorer."""
import sys, importlib
from . import env, core
class Trace:
    def __init__(self, prop, tier, space, seed):
        mod = importlib.import_module('mc.checks.' + prop.lower())
        for t in (tier, 'quick', 'thorough'):
            js = [j for k in mod.jobs(t) for j in getattr(k, 'jobs', [k]) if getattr(getattr(j, 'space', None), 'name', None) == space and j.seed == seed]
            if js: break
        self.job = js[0]
        self.job.globals(); self.job.nprobes = 0
        if self.job.space.fresh: self.job.space.fresh()
        self.ni, self.nm, self.old = {}, {}, []
        core.start_guard()
    def step(self, impl, mod):
        job = self.job
        s = job.space
        print(' ', impl)
        try:
            if not s.mutable:
                n = core.Node(); n.ni, n.nm = dict(self.ni), {k: core.mcopy(v) for (k, v) in self.nm.items()}
                n.snap = job.snapshot(n)
                self.old.append(n)
            job.step(self.ni, self.nm, (impl, mod))
            for n in self.old: job.verify(n, 'after ' + impl)
        except core.Mismatch as m:
            print("REPRODUCED:", m.what); sys.exit(1)
    def done(self):
        job = self.job
        try:
            job.probe(self.ni, self.nm)
            for op in (job.space.ops if not job.space.mutable else []):
                # operations tried next to each other on the same state
                ni, nm = dict(self.ni), {k: core.mcopy(v) for (k, v) in self.nm.items()}
                job.step(ni, nm, op)
                for n in self.old: job.verify(n, 'after ' + op[0])
        except core.Mismatch as m:
            print("REPRODUCED:", m.what); sys.exit(1)
        print("not reproduced by the history alone"); sys.exit(0)
def rerun(prop, label):
    mod = importlib.import_module('mc.checks.' + prop.lower())
    for t in ('quick', 'thorough'):
        for j in [x for k in mod.jobs(t) for x in [k] + getattr(k, 'jobs', [])]:
            if j.label == label:
                r = core.run_jobs([j])[0]
                print(r.get('violations') or r)
                sys.exit(1 if r.get('violations') or 'dead' in r else 0)
    sys.exit(2)
