#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props import PROPS
out = []; checks = []; na = []
for p in PROPS:
    a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
    if p['observe']:
        a['observe_at'] = p['observe']
    a['hook_needed'] = None
    assert len(p['title']) <= 80, p['title']
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a})
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif os.path.exists(os.path.join(R, 'checks', p['id'].lower() + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note'] or p['technique']})
    else:
        na.append({'property': p['id'], 'reason': 'not claimed: no check has been built for it yet'})
open(os.path.join(R, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in out))
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0,\'engine\'); import frontend; print(frontend.irdump_bin())"', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static: they compile /repo\'s current sources to LLVM IR and analyse the IR; nothing from /repo is executed.'},
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
try:
    import jsonschema
    jsonschema.validate(json.load(open(R + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in out:
        jsonschema.validate(x, s)
    print('schemas ok')
except ImportError:
    pass
