"""writes MANIFEST.json from properties.jsonl and specs/meta.json"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(os.path.join(V, 'specs', 'meta.json'), encoding='utf-8'))
checks = []
for line in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    m = meta[p['id']]
    proof = os.path.exists(os.path.join(V, 'specs', p['id'].lower() + '.py'))
    c = {'property': p['id'], 'quick_cmd': f'bin/check {p["id"]} --tier quick', 'thorough_cmd': f'bin/check {p["id"]} --tier thorough',
         'technique': m['technique'], 'level': m.get('level', 'proof') if proof else 'exploration', 'level_note': m['note']}
    if proof and m.get('theorems'):
        c['theorems'] = m['theorems']
    checks.append(c)
man = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': [],
       'notes': 'bin/check PROP runs the deductive part (pyvc) and the run-time evaluation of the same contracts on the real code (harness).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(man, f, ensure_ascii=False, indent=1)
    f.write('\n')
