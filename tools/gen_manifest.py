#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and mc/registry.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
reg = json.load(open(V + '/mc/registry.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in reg:
        na.append(dict(property=i, reason='no check built yet'))
        continue
    r = reg[i]
    tech = ('explicit-state exploration of all operation sequences within bounds on the real code, in lockstep with a reference model'
            if r['level'] == 'model_checking' else
            'bounded exhaustive enumeration of executions of the real code, each compared with an independent model')
    note = 'Holds on every execution within: ' + r['bounds']
    if r.get('assumptions'):
        note += ' Trusts: ' + ' '.join(r['assumptions'])
    checks.append(dict(property=i, quick_cmd='python3 mc/run.py %s --tier quick' % i,
                       thorough_cmd='python3 mc/run.py %s --tier thorough' % i,
                       technique=r.get('technique', tech), level=r['level'], level_note=note))
json.dump(dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the explorer drives the public interface; os.urandom and the absent crypto.cipher '
                     'dependency are replaced by stand-ins at import (mc/standins.py).'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
