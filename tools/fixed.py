#!/usr/bin/env python3
"""Regenerate the 'fixed' records of known_findings.json from the fix commits in /repo."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(root, 'tools', 'fixed.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '69ee437..HEAD'], text=True).splitlines()
out = []
for l in log:
    h, t = l.split(' ', 1)
    if not t.startswith('fix: '): continue
    t = t[5:]
    if t not in m: print('NO RECORD', t); continue
    out.append(f"fixed: property={m[t][0]} {h} {m[t][1]}")
p = os.path.join(root, 'known_findings.json')
d = json.load(open(p)); d['fixed'] = out
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
