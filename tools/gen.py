import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props_data as d
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = sorted(d.PROPS, key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in ps:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
checks = []; na = []
for p in ps:
    if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
    assert os.path.exists('%s/props/%s/spec.py' % (V, p['id']))
    c = 'python3-vt engine/check.py %s --tier ' % p['id']
    checks.append(dict(property=p['id'], quick_cmd=c + 'quick', thorough_cmd=c + 'thorough', technique=p['tech'], level='model_checking', level_note=p['note']))
m = dict(version=1, setup_cmd='python3-vt -m py_compile engine/check.py engine/symex.py engine/ir.py engine/solve.py engine/polyeq.py', checks=checks, not_applicable=na)
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), s)
print('%d claimed, %d n/a' % (len(checks), len(na)))
