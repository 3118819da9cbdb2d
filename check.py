#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--budget SECONDS] [--jobs N]
Decides one property by seeded search over simulated executions of /repo's current tree."""
import argparse, json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
REAL = ['all of /repo/src (event loops, fibers, sync, connections, servers, TLS glue, async files, worker queue, thread pool, name cache, UDP) and the inline code of /repo/include', 'fcontext fiber switching', 'OpenSSL (real library over the simulated sockets and files)']
STUB = ['threads, mutexes, condition variables, semaphores and signals (simulated scheduler)', 'clocks', 'epoll, eventfd, sockets and their peers', 'Linux AIO and the file system', 'getaddrinfo', 'malloc (checked arena)']
def known(prop):
    r = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % prop):
                k = l.split(' key=', 1)[1].split(None, 1); r.append((k[0], k[1].strip() if len(k) > 1 else ''))
    return r
def determinism(exe, prop, seed, wd):
    """the first runs of this seed once more, twice, in fresh processes: the hashes of the histories have to agree"""
    r = []
    for k in '12':
        f = '%s/hash%s' % (wd, k)
        try: subprocess.run([exe, 'run', '--prop', prop, '--seed', str(seed), '--first', '0', '--stride', '1', '--count', '40', '--budget', '2', '--keep-going', '--hashes', f, '--out', f + '.o', '--replay', f + '.r'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30); r.append(open(f).read().split('\n'))
        except Exception as e: return 'not measured (%s)' % e
    n = min(len(r[0]), len(r[1])) - 1
    return {'runs_repeated': n, 'different': sum(a != b for a, b in zip(r[0][:n], r[1][:n]))}
# seconds of search; more where runs are long or scenarios many
QUICK = {'C12': 60, 'C24': 45, 'C04': 36, 'C09': 36, 'C10': 36, 'C11': 36, 'C17': 36, 'C19': 36, 'C23': 36}
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--budget', type=float); ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    a = ap.parse_args(); t0 = time.time(); prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    budget = a.budget or (QUICK.get(prop, 24) if tier == 'quick' else 420)
    seed = a.seed & 0xffffffffffffffff
    print('property=%s tier=%s seed=%d budget=%gs jobs=%d' % (prop, tier, seed, budget, a.jobs), flush=True)
    exe = build.build()
    kn = known(prop)
    wd = os.path.join(V, 'replays', '%s-%d' % (prop, os.getpid())); os.makedirs(wd)
    procs = []
    for i in range(a.jobs):
        cmd = [exe, 'run', '--prop', prop, '--seed', str(seed), '--first', str(i), '--stride', str(a.jobs), '--budget', str(budget), '--min-budget', '25', '--out', '%s/out%d.json' % (wd, i), '--replay', '%s/replay%d' % (wd, i)]
        for k, _ in kn: cmd += ['--known', k]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open('%s/err%d' % (wd, i), 'w')))
    bad = None; err = None; limit = time.time() + budget + 240
    live = dict(enumerate(procs))
    while live:
        for i, p in list(live.items()):
            rc = p.poll()
            if rc is None: continue
            del live[i]
            if rc == 1: bad = i if bad is None else bad
            elif rc != 0 and err is None: err = (i, rc)
        if bad is not None or time.time() > limit: break
        time.sleep(0.05)
    if live and bad is None: err = err or (next(iter(live)), 'time limit')
    for p in procs:
        if p.poll() is None: p.kill(); p.wait()
    tot = {}; faults = {}; probes = {}; scen = {}; knownhits = {}; samples = []; hs = set(); wall = 0
    for i in range(a.jobs):
        try: o = json.load(open('%s/out%d.json' % (wd, i)))
        except Exception: continue
        for k in ('runs', 'ops', 'slices', 'accesses', 'switches', 'sim_s', 'distinct_sched', 'nontrivial', 'overflow'): tot[k] = tot.get(k, 0) + o[k]
        for src, dst in ((o['faults'], faults), (o['probes'], probes), (o['scenarios'], scen), (o['known'], knownhits)):
            for k, n in src.items(): dst[k] = dst.get(k, 0) + n
        samples += o['samples'][:2]; hs.update(o['hashes']); wall = max(wall, o['wall_s'])
    viol = None
    if bad is not None:
        o = json.load(open('%s/out%d.json' % (wd, bad)))
        rp = os.path.join(V, 'replays', '%s.replay' % prop); os.replace('%s/replay%d' % (wd, bad), rp)
        r = subprocess.run([exe, 'replay', rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        viol = (o['violation'], o['msg'], rp, r.returncode, r.stdout)
    runs = tot.get('runs', 0)
    det = determinism(exe, prop, seed, wd) if viol is None and err is None else 'not measured'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 3), 'coverage': {
        'evaluations': runs, 'distinct_nontrivial': len(hs) if runs else 0,
        'rule': 'One evaluation is one simulated execution of the whole library under a seeded scheduler, workload and fault plan (seed, run index). A run is non-trivial when it switched threads more than four times and performed operations of the property; distinct means a different hash over the recorded history of observable events and syscall results.',
        'samples': samples[:8] or ['no run finished'],
        'runs_per_hour': round(runs / wall * 3600) if wall else 0, 'seeds': 'one (seed, run index) pair per run, so seeds per hour are the runs per hour', 'simulated_seconds': round(tot.get('sim_s', 0), 1),
        'faults_injected': faults, 'probes_reached': probes, 'scenarios': scen, 'property_operations': tot.get('ops', 0), 'scheduling_points': tot.get('slices', 0), 'instrumented_accesses': tot.get('accesses', 0), 'context_switches': tot.get('switches', 0),
        'distinct_interleavings': tot.get('distinct_sched', 0), 'distinct_interleavings_measure': 'hash of the sequence of (thread, program point) at every context switch, distinct per worker process, summed', 'nontrivial_runs': tot.get('nontrivial', 0), 'runs_with_truncated_decision_record': tot.get('overflow', 0),
        'repeatability': det, 'components_real': REAL, 'components_simulated': STUB, 'known_findings_hit': knownhits, 'violations': ([{'key': viol[0], 'message': viol[1]}] if viol else [])}}
    os.makedirs(V + '/evidence', exist_ok=True)
    tmp = V + '/evidence/.%s.%d' % (prop, os.getpid()); json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, V + '/evidence/%s.json' % prop)
    errtext = ''
    if err: errtext = open('%s/err%d' % (wd, err[0])).read()[-2000:] if os.path.exists('%s/err%d' % (wd, err[0])) else ''
    import shutil; shutil.rmtree(wd, ignore_errors=True)
    for k, d in kn: print('KNOWN-FINDING: property=%s %s (%s; met %d times)' % (prop, d, k, knownhits.get(k, 0)))
    print('runs=%d distinct=%d simulated=%.0fs wall=%.1fs faults=%s' % (runs, len(hs), tot.get('sim_s', 0), time.time() - t0, json.dumps(faults)))
    if viol:
        print('violation key=%s: %s' % (viol[0], viol[1])); print(viol[4].strip())
        if viol[3] != 1: print('ERROR: the replay file did not reproduce the violation in a fresh process (status %d)' % viol[3]); return 4
        print('replay with: %s replay %s --trace   (executable from: python3 %s/build.py)' % (exe, viol[2], V))
        print('VIOLATION property=%s replay=%s' % (prop, viol[2])); return 1
    if err: print('ERROR: worker %s ended with %s\n%s' % (err[0], err[1], errtext)); return 3
    if runs == 0: print('ERROR: no run completed'); return 3
    return 0
if __name__ == '__main__':
    sys.exit(main())
