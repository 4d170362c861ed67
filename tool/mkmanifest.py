#!/usr/bin/env python3
"""writes MANIFEST.json from sa/registry.py and properties.jsonl"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, os.path.join(root, 'sa'))
import registry

props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.TABLE:
        mod, fn, level, expl, assume = registry.TABLE[i]
        checks.append(dict(property=i, quick_cmd='python3 sa/check.py ' + i, thorough_cmd='python3 sa/check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=registry.TECH[i], level=level,
                           level_note=expl + ' Assumes: ' + '; '.join(registry.COMMON + assume) + '.'))
    else:
        na.append(dict(property=i, reason=registry.NA[i]))
m = dict(version=1, setup_cmd='bash tool/build.sh && python3 sa/facts.py --warm', checks=checks, not_applicable=na,
         notes='No hooks are needed: the analyses read /repo\'s sources only. Extracted facts are cached under build/, keyed by the content of all files a translation unit includes.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
