#!/usr/bin/env python3
"""Rewrite the `fixed` list of known_findings.json from the fix: commits of /repo (PROP: commit subject -> property)."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(R, 'tools', 'fixed_props.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '8057154..HEAD'], capture_output=True, text=True).stdout
p = os.path.join(R, 'known_findings.json')
k = json.load(open(p))
k['fixed'] = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    assert s.startswith('fix: '), l
    if s not in PROP:
        print('no property for', l)
        continue
    pid, what = PROP[s]
    k['fixed'].append('fixed: property=%s %s %s' % (pid, h, what))
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
print(len(k['fixed']), 'fixed,', len(k['findings']), 'open')
