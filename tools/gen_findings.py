#!/usr/bin/env python3
"""Writes known_findings.txt from the fix: commits in /repo. FINDINGS maps subject to (properties, what failed)."""
import subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(root + '/tools/findings_data.py').read())
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
out = ['# Genuine defects of murarth/mortal found by these checks, and their repairs.', '# "known" lines: not repaired, identified by signature; "fixed" lines suppress nothing.']
for k in KNOWN:
    out.append('known: property=%s sig=%s %s' % k)
for h, s in log:
    if s.startswith('fix:'):
        for p in FINDINGS[s][0]:
            out.append('fixed: property=%s %s %s' % (p, h, FINDINGS[s][1]))
open(root + '/known_findings.txt', 'w').write('\n'.join(out) + '\n')
