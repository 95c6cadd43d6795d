#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md from '## Properties' on, from props_data, the rules of the checks, seeded/, tools/mutants
and known_findings.json."""
import ast, glob, json, os, re, sys, textwrap
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props_data import PROPS, NOT_APPLICABLE
from design_notes import NOTES, TAIL


def wrap(s, ind=''):
    return textwrap.fill(s, 118, initial_indent=ind, subsequent_indent='  ' if ind else '')


def rules(pid):
    t = ast.parse(open('%s/sa/checks/%s.py' % (R, pid.lower())).read())
    out = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule':
            a = [x.value for x in n.args if isinstance(x, ast.Constant)]
            if len(a) == 2:
                out.append(a)
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == 'RULES' for x in n.targets):
            try:
                v = ast.literal_eval(n.value)
                out += [list(x) for x in (v.items() if isinstance(v, dict) else v)]
            except ValueError:
                pass
    return out


seeds = {}
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((m.split('/')[-2], d))
muts = {}
for f in sorted(glob.glob(R + '/tools/mutants/m*.py')):
    ns = {}
    exec(open(f).read(), ns)
    for name, kind, checks, _ in ns['M']:
        for c in checks.split():
            k = muts.setdefault(c.split('@')[0], {'bug': 0, 'ref': 0})
            k['bug' if kind == 'bug' else 'ref'] += 1
kf = json.load(open(R + '/known_findings.json'))
kn, fx = {}, {}
for k in kf['findings']:
    kn.setdefault(k['property'], []).append(k)
for s in kf['fixed']:
    m = re.match(r'fixed: property=(\S+)', s if isinstance(s, str) else s.get('line', ''))
    pid = m.group(1) if m else s['property']
    fx[pid] = fx.get(pid, 0) + 1
out = []
for p in sorted(PROPS, key=lambda p: p['id']):
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', wrap(p['statement']), '', wrap('*Decided by* ' + p['technique'] + '. ' + NOTES.get(i, '')), '',
            wrap('*Limits:* ' + p['level_note']), '']
    rs = rules(i)
    if rs:
        out += ['Rules:'] + [wrap('`%s`: %s' % (a, ' '.join(b.split())), '* ') for a, b in rs] + ['']
    m = muts.get(i)
    line = []
    if m:
        line.append('%d breaking edits (all reported) and %d behaviour-preserving ones (all quiet) in tools/mutants' % (m['bug'], m['ref']))
    if seeds.get(i):
        line.append('planted bugs ' + ', '.join(s for s, _ in seeds[i]))
    if fx.get(i):
        line.append('%d defects of the original tree found and repaired' % fx[i])
    if kn.get(i):
        line.append('%d known findings' % len(kn[i]))
    if line:
        out += [wrap('*Tried on:* ' + '; '.join(line) + '.'), '']
out += ['## Not applicable', ''] + [x for p in NOT_APPLICABLE for x in (wrap('%s %s: %s' % (p['id'], p['title'], p['reason']), '* '),)] + ['']
out += ['## Planted bugs and the checks that catch them', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
for pid, l in sorted(seeds.items()):
    for s, d in l:
        out.append('| %s | %s | %s | %s |' % (s, pid, d['needs'].replace('|', '/'), d.get('caught_by', pid)))
out += ['', '## Known findings', '', wrap('Genuine defects that were recorded and not repaired, because the repair is a design decision of the maintainers '
        '(an option that is accepted and has no effect: implement or remove it?). The list is known_findings.json; each entry names the rule and the '
        'construct, so any other violation of the same property is reported.'), '']
for pid, l in sorted(kn.items()):
    for k in l:
        out.append(wrap('%s `%s` %s: %s' % (pid, k['rule'], k['key'], k['what']), '* '))
out += ['', TAIL.strip(), '']
s = open(R + '/DESIGN.md').read()
head = s[:s.index('## Properties')]
open(R + '/DESIGN.md', 'w').write(head + '## Properties\n\n' + '\n'.join(out))
