#!/usr/bin/env python3
"""tools/seedtest.py [ID...] [--no-check] [--demo-only]: applies each planted change to /repo, builds, tests, runs its demonstration and the
property's quick check, and undoes it again."""
import sys, os, json, subprocess, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
args = [a for a in sys.argv[1:] if not a.startswith('--')]; opt = [a for a in sys.argv[1:] if a.startswith('--')]
ids = args or sorted(os.path.basename(d) for d in glob.glob(V + '/seeded/*') if os.path.isdir(d))
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
assert sh('bash /opt/vp/build.sh').returncode == 0
clean = {}
for i in ids:
    d = '%s/seeded/%s' % (V, i); clean[i] = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
for i in ids:
    d = '%s/seeded/%s' % (V, i); prop = json.load(open(d + '/meta.json'))['property']; r = ['clean-demo=%d' % clean[i].returncode]
    if clean[i].returncode: print(clean[i].stdout[-800:])
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print(i, 'PATCH DOES NOT APPLY', a.stdout); continue
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(i, 'BUILD FAILS', b.stdout[-1500:]); continue
        if '--demo-only' not in opt:
            sh('bash /opt/vp/test.sh /tmp/seedtest.json'); p = set(json.load(open('/tmp/seedtest.json'))['passed']); r.append('tests=%s' % ('ok' if stable <= p else 'FAIL ' + str(stable - p)))
        t = time.time(); dm = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo'); r.append('demo=%d (%.0fs) %s' % (dm.returncode, time.time() - t, dm.stdout.strip().split('\n')[-1][:150]))
        if not set(opt) & {'--no-check', '--demo-only'}:
            c = sh('cd %s; VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s' % (V, prop)); r.append('check=%d %s' % (c.returncode, [l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'violation' in l][:2] or c.stdout[-300:]))
    finally:
        sh('git -C /repo checkout -- .')
    print(i, '|', ' | '.join(r), flush=True)
sh('bash /opt/vp/build.sh')
