#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present in vc/props."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
NA = {}
for l in open(R + '/properties.jsonl'):
    d = json.loads(l); pid = d['id']
    m = f'{R}/vc/props/{pid.lower()}.py'
    if pid in NA: na.append({'property': pid, 'reason': NA[pid]}); continue
    if not os.path.exists(m):
        na.append({'property': pid, 'reason': 'no check has been built for this property'}); continue
    src = open(m).read()
    def attr(n, dflt):
        g = re.search(r"^%s\s*=\s*(?:'([^']*)'|\"([^\"]*)\"|\(((?:.|\n)*?)\)\n)" % n, src, re.M)
        if not g: return dflt
        return g.group(1) or g.group(2) or ''.join(re.findall(r"'((?:[^'\\]|\\.)*)'|\"((?:[^\"\\]|\\.)*)\"", g.group(3)) and [a or b for a, b in re.findall(r"'((?:[^'\\]|\\.)*)'|\"((?:[^\"\\]|\\.)*)\"", g.group(3))])
    c = {'property': pid, 'quick_cmd': f'bin/check {pid}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check {pid}',
         'evidence_file': f'evidence/{pid}.json',
         'technique': 'contract-based deductive verification of the LLVM IR of the real functions (SMT), failing obligations replayed on the real code',
         'level': attr('LEVEL', 'proof'),
         'level_note': attr('NOTE', 'Contracts on the real functions, discharged for all inputs; library functions are modelled (see assumptions in the evidence).')}
    if c['level'] == 'proof':
        c['theorems'] = sorted(set(re.findall(r"#\s*THEOREM:\s*(.*)", src)))
        if not c['theorems']: del c['theorems']
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were added to /repo. Obligations are generated from the working tree of /repo on every run; see DESIGN.md.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
