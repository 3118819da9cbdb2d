#!/usr/bin/env python3
"""Writes MANIFEST.json: checks for every property that has scenarios, not_applicable for the others."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set(re.findall(r'SCENARIO\((C\d\d),', ''.join(open(f).read() for f in glob.glob(V + '/scen/*.cc'))))
NA = {'C25': 'pure, sequential containers and string helpers: no concurrency, time, I/O or other party for a simulator to decide; an input-generation technique, not deterministic simulation, is the right tool',
      'C26': 'the io_uring, kqueue and completion-port back ends are not compiled in this build (Linux epoll); there is no running code to simulate'}
m = {'version': 1, 'setup_cmd': 'python3 build.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'technique': 'deterministic simulation with fault injection (seeded schedule and fault search, minimised replay)', 'level': 'exploration',
          'level_note': 'Seeded random search over interleavings, timing, I/O outcomes and faults of the real code under a simulated scheduler, clock, kernel and network; samples executions, does not enumerate them; assumes the kernel model.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks')
