#!/usr/bin/env python3
"""claim.py C15 ...: moves properties from not_applicable to checks in MANIFEST.json."""
import json, sys
p = '/verif/MANIFEST.json'
m = json.load(open(p))
ref = m['checks'][0]
for c in sys.argv[1:]:
    m['not_applicable'] = [x for x in m['not_applicable'] if x['property'] != c]
    if any(x['property'] == c for x in m['checks']):
        continue
    d = dict(ref)
    d['property'] = c
    d['quick_cmd'] = f'python3 check.py {c} quick'
    d['thorough_cmd'] = f'python3 check.py {c} thorough'
    m['checks'].append(d)
m['checks'].sort(key=lambda x: x['property'])
json.dump(m, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
