#!/usr/bin/env python3
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
TECH = 'path-sensitive abstract interpretation of the resolved syntax tree (clang), custom dataflow/typestate/effect rules over every path'
NOTE = ('Sound up to the stated modelling: all paths of the anchored functions are covered, loops by a generic-element summary, calls by inlining or a model of the standard library. '
        'Trusted: the clang front end, the library models and the rules themselves; concurrency is decided by lock discipline, not by exploring interleavings.')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}) + '\n')
na = {p for p, r in props.NA}
m = {
    'version': 1,
    'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import facts; print(facts.tool())"',
    'checks': [{'property': p['id'],
                'quick_cmd': 'python3 check.py ' + p['id'],
                'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                'technique': p['tech'] or TECH, 'level': 'other', 'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE}
               for p in props.PROPS if p['id'] not in na],
    'not_applicable': [{'property': p, 'reason': r} for p, r in props.NA],
    'notes': 'No hooks. Every check reads /repo/src afresh; facts are cached by content under ${VERIF_CACHE:-a temporary directory}. See DESIGN.md.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
json_ok = True
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('schemas ok')
except ImportError:
    print('no jsonschema')
print(len(props.PROPS), 'properties,', len(m['checks']), 'checks')
