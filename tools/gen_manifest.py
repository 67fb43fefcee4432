#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the binary implements."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = subprocess.run([root + '/target/release/mc', 'list'], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('verif:')]
TECH = {
    'C19': 'exhaustive enumeration of operation sequences against a reference map',
    'C20': 'exhaustive enumeration of all operand pairs and operation sequences',
    'C23': 'exhaustive enumeration of the input domain',
    'C15': 'stateless model checking, all interleavings up to a preemption bound',
    'C16': 'stateless model checking, all interleavings up to a preemption bound',
    'C17': 'stateless model checking, all interleavings up to a preemption bound, linearizability oracle',
}
NOTE = 'Real code, no abstraction of it: every execution within the bounds listed in the evidence file is run and compared with an independent reference model. Trusts the simulated device and emulated terminal of the harness.'
m = {
    'version': 1,
    'setup_cmd': './run.sh build',
    'hooks': {
        'guard': '--cfg mortal_verif',
        'enable': 'run.sh sets RUSTFLAGS="--cfg mortal_verif" when it builds /verif/mc with its path dependency on /repo',
        'source_commits': hooks,
    },
    'checks': [],
    'not_applicable': [],
    'notes': 'run.sh builds from /repo each time; run.sh replay FILE re-executes a reported violation. Fixed defects are listed in known_findings.txt.',
}
for p in props:
    i = p['id']
    if i in ids:
        m['checks'].append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick ./run.sh ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
            'technique': 'explicit-state / stateless model checking of the real code: ' + TECH.get(i, 'exhaustive enumeration of histories and environment choices (input, faults, signals) up to stated bounds'),
            'level': 'model_checking',
            'level_note': NOTE,
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
