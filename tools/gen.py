"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import importlib.util
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
spec = importlib.util.spec_from_file_location('props', os.path.join(here, 'props.py'))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)

props, checks, na = [], [], []
for p in m.PROPS:
    assert len(p['title']) <= 80, p['title']
    assert len(p['title']) and p['statement'].count('. ') <= 2, p['id']
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['forall']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w}
                                                       for n, w in p['mech']],
                    'observe_at': p.get('observe', []), 'hook_needed': None}})
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'./run.sh {p["id"]} --quick',
        'thorough_cmd': f'./run.sh {p["id"]} --thorough',
        'technique': p.get('technique', m.TECH_NP),
        'level': 'model_checking',
        'level_note': p['note']})
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': './setup.sh',
           'checks': checks, 'not_applicable': na, 'notes': m.NOTES},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
