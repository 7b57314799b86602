"""Which planted bugs still apply to /repo's HEAD, and do they change lines of the original repository?"""
import subprocess, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '0c0649b'
def sh(*a): return subprocess.run(a, capture_output=True, text=True, cwd='/repo')
for s in sorted(os.listdir(V + '/seeded')):
    p = f'{V}/seeded/{s}/patch.diff'
    r = sh('git', 'apply', '--check', p)
    if r.returncode: print(s, 'DOES NOT APPLY'); continue
    f = None; own = theirs = 0; ln = 0
    for l in open(p):
        if l.startswith('--- '): f = l.split('/', 1)[1].split('\t')[0].strip(); bl = sh('git', 'blame', '-s', '--abbrev=7', f).stdout.split('\n')
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            c = bl[ln - 1].split()[0].lstrip('^')
            base = sh('git', 'merge-base', '--is-ancestor', c, BASE).returncode == 0
            own += base; theirs += not base
            ln += 1
        elif l.startswith('+'): pass
        else: ln += 1
    if not own: print(s, f'changes no original line ({theirs} of fixes)')
