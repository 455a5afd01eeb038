#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/driver')
import profiles
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i not in profiles.P:
        na.append(dict(property=i, reason='no check yet: the library-level simulation for it is being built'))
        continue
    lib = i[0] != 'P'
    checks.append(dict(property=i, quick_cmd='python3 driver/check.py ' + i, thorough_cmd='python3 driver/check.py ' + i + ' --thorough',
        technique='deterministic simulation with fault injection: seeded search over schedules, faults and histories of ' + ('the real library classes used by simulated clients' if lib else 'the whole real daemon on a simulated filesystem, clock and scheduler'),
        level='exploration',
        level_note=NOTE.get(i, ('Samples executions; a quiet run is evidence, not proof. Trusts the scheduler/clock simulation' + ('' if lib else ' and the model of btrfs and of the state directory') + ' in /verif/sim; sequentially consistent memory. Every violation is re-run twice, minimised and written as an exactly repeatable replay file.'))))
m = dict(version=1, setup_cmd='python3 driver/check.py --setup',
    hooks=dict(guard='none', enable='no hooks in /repo: the daemon is compiled unchanged from the working tree and its libc, pthread and ioctl calls are interposed in the simulator binary', source_commits=[]),
    checks=checks, not_applicable=na,
    notes='Replay a violation: python3 driver/check.py --replay FILE. Defects found and fixed are in known_findings.txt. See DESIGN.md.')
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
