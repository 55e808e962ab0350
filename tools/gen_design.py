#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, properties.jsonl, mc/registry.json, tools/seed_results.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
reg = json.load(open(V + '/mc/registry.json'))
text = open(V + '/tools/design.md').read()
how = dict(re.findall(r'^## (C\d\d)\n(.*?)(?=^## |\Z)', text.split('<!-- PER PROPERTY -->')[1], re.S | re.M))
head, tail = text.split('<!-- PER PROPERTY -->')[0], ''
out = [head.rstrip() + '\n']
out.append('# The properties\n')
for p in props:
    i = p['id']
    r = reg[i]
    out.append('## %s %s\n' % (i, p['title']))
    out.append(how[i].strip() + '\n')
    out.append('Explored: %s\n' % r['bounds'])
    if r.get('assumptions'):
        out.append('Trusted: %s\n' % ' '.join(r['assumptions']))
out.append('# Genuine defects\n')
fixed = json.load(open(V + '/known_findings.json'))
out.append('All defects that the explorations found in the original tree were repaired, each in a `fix:` commit of its own '
           '(`known_findings.json`); none is recorded as a known finding.\n')
for f in fixed['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    out.append('- %s (`%s`): %s' % m.groups())
out.append('')
out.append('# Planted bugs\n')
res = json.load(open(V + '/tools/seed_results.json'))
out.append('`tools/seeds.py` defines them, `tools/mkseed.py` writes `seeded/`, confirms each in a clone of /repo (stable tests pass, demonstration '
           'fails with and passes without the change) and runs the check of its property (`--check`). "missed at first" marks the bugs that made a check grow.\n')
out.append('| bug | property | needs | its check |\n|---|---|---|---|')
for i in sorted(res):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), res[i]))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
