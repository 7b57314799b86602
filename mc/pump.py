"""Long histories: every ordered pair of operations done alternately, and every operation done many times to one version."""
from .core import SpaceJob, Mismatch, Node, mcopy
class PumpJob(SpaceJob):
    """From one start: the operations a and b of every ordered pair (a of a slice of the menu) are done in turn, `rounds`
    times; every step is compared with the model, the probes are made at the end.  A history ends early when the collection
    has grown past `cap` items.  With `keep`, all the versions are kept and are verified unchanged at the end."""
    def __init__(self, space, seed, first, rounds, cap, keep):
        super().__init__(space, seed, first)
        self.rounds, self.cap, self.keep = rounds, cap, keep
        self.label += '/pump'
    def explore(self):
        s, R = self.space, self.res
        for a in s.ops[self.first[0]:self.first[1]]:
            for b in s.ops:
                if s.fresh: s.fresh()
                ni, nm, self.pending = {}, {}, []
                kept = []
                for op in s.seeds[self.seed]: self.step(ni, nm, op)
                done = 0
                for _ in range(self.rounds):
                    for op in (a, b):
                        self.pending.append(op)
                        if self.keep:
                            n = Node(); n.ni = dict(ni); n.snap = self.snapshot(n); kept.append(n)
                        oc = self.step(ni, nm, op)
                        R['outcomes'][oc] += 1
                        done += 1
                    if any(hasattr(v, '__len__') and len(v) > self.cap for v in nm.values()): break
                R['transitions'] += done; R['states'] += done; R['leaves'] += 1; R['maxdepth'] = max(R['maxdepth'], done)
                self.probe(ni, nm)
                for (i, n) in enumerate(kept): self.verify(n, f"version {i} at the end")
            if not s.mutable:
                try: self.fan(a)
                except Mismatch as m:
                    R['violations'].append(dict(self.violation(m.what, ()), path=None))
                    return
        R['samples'].append([a[0] for a in s.ops[self.first[0]:self.first[1]]][:3])
    def fan(self, a):
        "The same operation on the same version, again and again."
        s, R = self.space, self.res
        if s.fresh: s.fresh()
        root = Node(); root.ni, root.nm = {}, {}
        self.pending = []
        for op in s.seeds[self.seed]: self.step(root.ni, root.nm, op)
        root.snap = self.snapshot(root)
        kept = []
        for _ in range(self.rounds * 2):
            n = Node(); n.ni = dict(root.ni); n.nm = {k: mcopy(v) for (k, v) in root.nm.items()}
            self.step(n.ni, n.nm, a)
            R['transitions'] += 1; R['states'] += 1
            if self.keep: n.snap = self.snapshot(n); kept.append(n)
        R['leaves'] += 1
        self.verify(root, f"after {self.rounds * 2} times {a[0]}")
        self.probe(n.ni, n.nm)
        for n in kept: self.verify(n, f"after more of {a[0]}")
def jobs(space, rounds=70, cap=150, chunks=8, keep=False):
    n = len(space.ops); c = min(chunks, n)
    b = [round(j * n / c) for j in range(c + 1)]
    return [PumpJob(space, i, (b[j], b[j + 1]), rounds, cap, keep) for i in range(len(space.seeds)) for j in range(c) if b[j] < b[j + 1]]
