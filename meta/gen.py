#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from meta/props.py, and the per-property part of DESIGN.md."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
import props_text as T
import jobs
props, checks, design = [], [], []
for p in T.PROPS:
    assert len(p['title']) <= 80, p['title']
    props.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                  'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
                  'why_tests_cant': p['why'],
                  'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                              'observe_at': p.get('observe', ['return values and output buffers of the public functions']),
                              'hook_needed': None}})
    if 'na' in p:
        continue
    P = jobs.PROPS[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt run.py %s quick' % p['id'],
                   'thorough_cmd': 'python3-vt run.py %s thorough' % p['id'],
                   'technique': T.TECH, 'level': 'model_checking', 'level_note': 'Bounded: ' + P.bounds + (
                       ' Assumes: ' + '; '.join(P.assumptions) + '.' if P.assumptions else '')})
    nq = sum(j.tier == 'quick' for j in P.jobs)
    design.append('### %s %s\n\n%s\n\n*How it is decided.* %s\n\n*Bounds.* %s%s\n\n*Jobs.* %d quick%s, harnesses %s.\n' % (
        p['id'], p['title'], p['statement'], p['how'], P.bounds,
        ' Assumptions: ' + '; '.join(P.assumptions) + '.' if P.assumptions else '',
        nq, ', %d in all (thorough)' % len(P.jobs) if len(P.jobs) != nq else '', ', '.join(sorted({'`' + j.harness + '`' for j in P.jobs}))))
na = [{'property': p['id'], 'reason': p['na']} for p in T.PROPS if 'na' in p]
if na:
    design.append('### Not applicable\n\n' + '\n'.join('- %s: %s' % (n['property'], n['reason']) for n in na) + '\n')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt engine/selftest.py 400 1 20',
       'hooks': {'guard': 'CRY_VERIF', 'enable': 'no hooks are needed: the checks compile the unmodified sources', 'source_commits': []},
       'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
head = open(os.path.join(HERE, 'design_head.md')).read()
tail = open(os.path.join(HERE, 'design_tail.md')).read()
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(head + '\n' + '\n'.join(design) + '\n' + tail)
