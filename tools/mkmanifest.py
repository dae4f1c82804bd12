#!/usr/bin/env python3
# Writes MANIFEST.json from harness/registry.py and properties.jsonl.
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
from registry import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
hook = [l.split()[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H %s']).decode().splitlines() if ' hook:' in l]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': 'check not built yet'}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': c.get('technique', 'symbolic execution of the LLVM IR of the real sources, Z3 deciding every branch, assertion and memory access'),
                   'level': 'model_checking', 'level_note': 'Holds for every value/schedule within the bounds: %s. Trusted: clang -O1, the symex engine and its runtime model (sampled paths are replayed natively on every run), Z3.%s' % (c['bounds'], (' Assumes: ' + '; '.join(c['assumptions'])) if c['assumptions'] else '')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'BLACKHOLE_VERIFY', 'enable': '-DBLACKHOLE_VERIFY when compiling /repo sources to LLVM IR with clang', 'source_commits': hook},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

# DESIGN.md
import glob
t = open(V + '/tools/design.tmpl.md').read().replace('`tools/design.tmpl.md` (this text)', '`tools/design.tmpl.md`')
t = t.replace('@BOUNDS@', '\n'.join('* **%s** %s.%s' % (i, c['bounds'], ' *Assumed:* ' + '; '.join(c['assumptions']) + '.' if c['assumptions'] else '') for i, c in sorted(CHECKS.items())))
k = json.load(open(V + '/known_findings.json'))
t = t.replace('@FINDINGS@', '\n'.join('* %s `%s` (%s %s): %s' % (f['property'], f['key'], f['status'], f['commit'][:7], f['what']) for f in k))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'], d['needs'], d.get('caught', 'yes')))
t = t.replace('@SEEDED@', "| bug | property | breaks | needs | caught by that property's check |\n|---|---|---|---|---|\n" + '\n'.join(sorted(rows, key=lambda r: r.split('|')[2])))
mut = V + '/tools/mutation_notes.txt'
t = t.replace('@MUT@', open(mut).read().strip() if os.path.exists(mut) else '')
open(V + '/DESIGN.md', 'w').write(t)
