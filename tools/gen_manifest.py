#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property for which a check exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
MC_NOTE = ('Every schedule of each listed client program up to the stated deviation bound is executed on the real, instrumented '
           'code under a controlled scheduler with a virtual clock. Trusted: the runtime in mc/mcrt.cc (sequentially consistent '
           'interleavings; races are detected, not explored) and the sequential specification in mc/hist.h.')
SEQ_NOTE = ('Every case within the bounds of the domains in seq/%s.cc is executed on the real code (address and undefined-behaviour '
            'sanitizers on) and compared with an independent reference model. Nothing is claimed for arguments outside the bounds.')
checks, na = [], []
for p in props:
    i = p['id']
    mc = i.startswith('T')
    if mc or os.path.exists(os.path.join(HERE, 'seq', i + '.cc')):
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i} --tier quick', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'stateless model checking of the implementation: deviation-bounded exhaustive schedule enumeration with state caching' if mc
                else 'bounded exhaustive state/input enumeration on the implementation against a reference model',
            'level': 'model_checking', 'level_note': MC_NOTE if mc else SEQ_NOTE % i})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the checks build the unmodified sources. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
