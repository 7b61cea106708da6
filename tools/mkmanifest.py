#!/usr/bin/env python3
"""Write MANIFEST.json: every property with a check module is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C17': 'runtime monitoring of random operation sessions and of concurrent analyses with injected delays; offline checker over the recorded call log',
 'C18': 'runtime monitoring: digests of caller data, files, streams and global state around every public call',
 'C23': 'runtime monitoring: exact-value oracle on every monitored pow2mul call',
 'C24': 'runtime monitoring: printed code is executed against instrumented arrays and compared with the matrix',
 'C25': 'runtime monitoring: printed code is executed against instrumented arrays and compared with the matrix',
 'C26': 'runtime monitoring: printed code is executed against instrumented arrays and compared with the matrix',
 'C27': 'runtime monitoring: digests of arguments, directory and output stream around every printing call',
 'C29': 'runtime monitoring of the theory derivation scripts: generated code executed and compared with library matrices and published tables',
 'C30': 'runtime monitoring with floating-point exception traps (IEEE sanitizer) on every call, accuracy oracle against extended precision / local coordinates',
}
DEF = 'runtime monitoring: public functions hooked, online oracle (independent reference model) on every call under generated workloads'
rows = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for r in rows:
    pid = r['id']
    if os.path.exists(os.path.join(V, 'vf', 'p_%s.py' % pid.lower())):
        checks.append(dict(property=pid, quick_cmd='python3 run.py %s --tier quick' % pid,
            thorough_cmd='python3 run.py %s --tier thorough' % pid, evidence_file='evidence/%s.json' % pid,
            technique=TECH.get(pid, DEF), level='exploration',
            level_note='Held on every execution of the generated workloads of this run (counts in the evidence file); no claim about inputs not run. '
                       'Trusts the reference oracles in vf/ (written independently from the theory), NumPy and the workload generators.'))
    else:
        na.append(dict(property=pid, reason='not claimed yet: its monitor is still being built'))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
    notes='Monitors wrap the public functions from outside at import time, so no hook commits were needed in /repo; only fix commits were made there.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
