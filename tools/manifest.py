#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the registered checks and the
list of properties this family cannot address."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C32': 'pure single-call functions of their arguments: no schedule, clock, I/O, crash or multi-party behaviour for a simulation to decide',
 'C33': 'pure single-call functions of their arguments: no schedule, clock, I/O, crash or multi-party behaviour for a simulation to decide',
}
LEVEL_NOTE = ('seeded search over schedules, delays and faults with the repository code running unmodified inside a simulated '
              'Windows kernel, console and terminal; sampled, not exhaustive')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = subprocess.run([V + '/build/sim', '--list'], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': './check.sh %s' % i, 'thorough_cmd': './check.sh %s --thorough' % i,
                       'technique': 'deterministic simulation with fault injection', 'level': 'exploration', 'level_note': LEVEL_NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 build.py build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the repository code is compiled unmodified and every Win32/POSIX call is resolved by the simulator.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
