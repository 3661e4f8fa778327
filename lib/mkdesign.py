"""regenerates DESIGN.md from design.in.md, known_findings.json, seeded/*/meta.json and caught.json (run by hand)"""
import json, os, glob
L = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(L)
t = open(L + '/design.in.md').read()
k = json.load(open(V + '/known_findings.json'))
rows = []
for f in k['fixed']:
    _, p, c, w = f.split(' ', 3)
    rows.append('| %s | %s | %s |' % (c, p.split('=')[1], w))
t = t.replace('@@FIXES@@', '\n'.join(rows))
t = t.replace('@@OPEN@@', '\n'.join('* **%s** `%s`: %s' % (o['property'], o['sig'], o['what']) for o in k['findings']))
caught = json.load(open(L + '/caught.json'))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (i, d['property'], caught.get(i, d['property'])))
t = t.replace('@@SEEDED@@', '\n'.join(rows))
t = t.replace('@@MUT@@', open(L + '/mutation.md').read() if os.path.exists(L + '/mutation.md') else '(running)')
open(V + '/DESIGN.md', 'w').write(t)
