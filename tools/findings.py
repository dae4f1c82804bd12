#!/usr/bin/env python3
# add/replace an entry of known_findings.json: findings.py <property> <key> <known|fixed> <commit|-> <what>
import json, sys, os
P = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
L = json.load(open(P)) if os.path.exists(P) else []
p, k, st, c, w = sys.argv[1:6]
L = [e for e in L if (e['property'], e['key']) != (p, k)]
e = {'property': p, 'key': k, 'status': st, 'what': w}
if st == 'fixed': e['commit'] = c; e['line'] = 'fixed: property=%s %s %s' % (p, c, w)
L.append(e); L.sort(key=lambda e: (e['property'], e['key']))
json.dump(L, open(P, 'w'), indent=1); open(P, 'a').write('\n')
