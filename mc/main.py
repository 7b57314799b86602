"""python -m mc.main <property> <quick|thorough>: decides one property and writes its evidence file."""
import os, sys, json, time, importlib, hashlib
from collections import Counter
def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    t0 = time.time()
    from . import env, core, replay
    mod = importlib.import_module('mc.checks.' + prop.lower())
    jobs = mod.jobs(tier)
    only = os.environ.get('MC_ONLY')
    if only: jobs = [j for j in jobs if only in j.label]
    known = replay.known(prop)
    deadline = 800.0 if tier == 'quick' else float(os.environ.get('MC_DEADLINE', 6 * 3600))
    results = core.run_jobs(jobs, deadline=deadline, procs=getattr(mod, 'PROCS', None), pin=getattr(mod, 'PIN', False), known=known)
    viols, errors, timeouts = [], [], 0
    T = Counter(); outcomes = Counter(); samples = []; capped = []
    extra = Counter(); maxdepth = 0; distinct = 0
    for (j, r) in zip(jobs, results):
        if 'error' in r: errors.append((j, r['error'])); continue
        if 'dead' in r:
            viols.append((j, dict(space=j.label, seed=0, path=[], what=r['dead'], job=j.label, script=None, key='dead'))); continue
        if 'timeout' in r: timeouts += 1; capped.append(j.label + ': deadline'); continue
        for k in ('states', 'transitions', 'probes', 'leaves', 'evals', 'distinct'): T[k] += r.get(k, 0)
        maxdepth = max(maxdepth, r.get('maxdepth', 0))
        outcomes.update(r['outcomes']); extra.update(r.get('extra', {}))
        if r['capped']: capped.append(j.label)
        for v in r['violations']: viols.append((next((x for x in getattr(j, 'jobs', ()) if x.label == v['job']), j), v))
        if r['samples'] and len(samples) < 400: samples.append(dict(job=j.label, history=r['samples'][-1]))
    n = 0
    listed = Counter()
    rdir = os.path.join(env.VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '_'): os.unlink(os.path.join(rdir, f))
    for (j, v) in viols:
        if v['key'] in known:
            listed[v['key']] += 1
            continue
        n += 1
        if n > 8 and not os.environ.get('MC_ALL'): continue
        path = replay.write(rdir, prop, n, j, v)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['what']}"[:600])
        for o in v['path'][-12:]: print(f"    {o[0]}")
    for k in known:
        if listed[k]: print(f"KNOWN-FINDING: property={prop} {known[k]}")
    samples = samples[:: max(1, len(samples) // 6)][:8]
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = dict(exhaustive=not capped and not errors, jobs=len(jobs), bounds=mod.BOUNDS.get(tier, mod.BOUNDS['quick']),
               samples=samples, outcomes={str(k): v for (k, v) in sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]},
               distinct_outcomes=len(outcomes))
    if T['states']:
        cov.update(states=T['states'], transitions=T['transitions'], traces_validated_against_impl=T['leaves'],
                   probes=T['probes'], max_depth=maxdepth)
    if T['evals']:
        cov.update(evaluations=T['evals'], distinct_nontrivial=T['distinct'], rule=mod.RULE)
    for (k, v) in extra.items():
        if k not in cov: cov[k] = v
    if capped: cov['capped'] = capped[:50]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=n)
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for (j, e) in errors:
        print(f"ERROR in {j.label}\n{e}", file=sys.stderr)
    print(f"{prop} {tier}: states={T['states']} transitions={T['transitions']} probes={T['probes']} histories={T['leaves']} "
          f"evaluations={T['evals']} jobs={len(jobs)} exhaustive={cov['exhaustive']} violations={n} wall={ev['wall_s']}s")
    if n: sys.exit(1)
    if errors: sys.exit(3)
    sys.exit(0)
if __name__ == '__main__':
    main()
