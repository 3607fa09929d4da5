#!/usr/bin/env python3
"""Writes MANIFEST.json from the spec files present and the notes below"""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from manifest_notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
BASE = 'Assumes: floats behave as real numbers, CPython semantics outside the instrumented constructs, soundness of pyvc and of z3/cvc5. '
checks, na = [], []


def parts(spec):
    """what is proved, bounded (never counted as proved) and sampled only"""
    out = []
    pr = [o.name for o in spec.obs if o.kind == 'proof']
    if pr:
        out.append('Proved for all inputs: %s.' % '; '.join(pr))
    bd = ['%s (%s)' % (o.name, o.bound) for o in spec.obs if o.kind == 'bounded']
    if bd:
        out.append('Bounded, not counted as proved: %s.' % '; '.join(bd))
    sm = [o.name for o in spec.obs if o.kind == 'sample']
    if sm:
        out.append('Contracts evaluated on seeded random inputs only: %s.' % '; '.join(sm))
    return ' '.join(out) + ' '


for p in props:
    i = p['id']
    f = os.path.join(HERE, 'specs', i.lower() + '.py')
    if not os.path.exists(f) or i in NOT_APPLICABLE:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'not built yet')})
        continue
    spec = importlib.import_module('specs.' + i.lower()).SPEC
    level = getattr(spec, 'level', 'proof')
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt check.py %s' % i,
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
        'technique': 'contracts on the real functions, discharged path by path by an SMT-backed deductive verifier (pyvc) over mechanically instrumented source; replay on the unmodified code',
        'level': level,
        'level_note': parts(spec) + NOTES.get(i, '') + (' ' if NOTES.get(i) else '') + BASE,
    })
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5"', 'checks': checks, 'not_applicable': na,
     'notes': 'python3-vt check.py <ID> [-v] [--only OBLIGATION] [--tier thorough] [--replay FILE]; see DESIGN.md'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
