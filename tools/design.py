"""fills the generated parts of DESIGN.md (between markers)"""
import os, sys, json, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools'); import props_data as d
def sect(name, body):
    global s
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    if '@@%s@@' % name in s: s = s.replace('@@%s@@' % name, a + '\n' + b)
    i, j = s.index(a), s.index(b)
    s = s[:i + len(a)] + '\n' + body + '\n' + s[j:]
s = open(V + '/DESIGN.md').read()
out = []
for p in sorted(d.PROPS, key=lambda p: p['id']):
    out.append('### %s %s' % (p['id'], p['title']))
    if p['na']: out.append('Not applicable: ' + p['na'] + '\n'); continue
    g = {}; exec(open('%s/props/%s/spec.py' % (V, p['id'])).read(), g)
    H = g['HARNESSES']
    modes = sorted({h.get('mode','fp') for h in H})
    out.append('Oracle: ' + (p.get('oracle') or 'the assertions in props/%s/harness.cpp, an independent reference of the statement written over the public API' % p['id']) + '.')
    out.append('Mode: %s; %d harnesses (%s).' % ('/'.join(modes), len(H), ', '.join(h['fn'] for h in H)))
    bs = []
    for h in H:
        if h['bounds'] not in bs: bs.append(h['bounds'])
    out.append('Bounds: ' + ' | '.join(bs[:12]) + (' | ... (all in the evidence)' if len(bs) > 12 else '') + '.')
    out.append('Outside: ' + '; '.join(g.get('ASSUMPTIONS', [])) + '.')
    out.append('Why tests cannot: ' + p['why'] + '\n')
sect('PROPS', '\n'.join(out))
kf = [l.strip() for l in open(V + '/known-findings.txt') if l.strip() and l[0] != '#']
sect('FINDINGS', '\n'.join('* ' + l for l in kf))
rows = ['| bug | property | needs | caught by quick check |', '|---|---|---|---|']
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = m.split('/')[-2]; j = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (i, j['property'], j['needs'], caught.get(i, '?')))
sect('SEEDED', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
