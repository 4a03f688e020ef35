#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run by hand; both are committed)."""
import json, os, sys  # run with python3-vt
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
checks = []
na = []
for l in open(os.path.join(V, 'tool', 'properties.src.jsonl')):
    l = l.strip()
    if not l:
        continue
    d = json.loads(l)
    reason = d.pop('not_applicable', None)
    note = d.pop('note', None)
    out.append(d)
    if d['id'] in props.PROPS:
        P = props.PROPS[d['id']]
        b = P.get('bounded', [])
        n = '' if not P['functions'] else 'Unbounded deductive proof (Why3 + z3/cvc5, all inputs and iterations) of the contracts of %s, extracted mechanically from the C source on every run.' % ', '.join(P['functions'])
        if b:
            n += ' Bounded stand-in (not counted as proved) for %s.' % ', '.join(b)
        if note:
            n += ' ' + note
        n += ' Trusted: clang AST, extractor, Why3, solvers, the listed C library contracts; object lifetimes are not tracked by the proof.'
        checks.append({'property': d['id'], 'quick_cmd': 'python3 tool/check.py ' + d['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 tool/check.py ' + d['id'],
                       'technique': 'contract-based deductive verification (sidecar contracts on the real C functions, Why3 VCs discharged by SMT)' + (' + bounded checks of functions beyond reach' if b else ''),
                       'level': P['level'], 'level_note': n})
    else:
        na.append({'property': d['id'], 'reason': reason or 'check not built yet'})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in out:
        f.write(json.dumps(d) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 tool/setup.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in out:
    jsonschema.validate(d, ps)
jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed,', len(na), 'not applicable')
