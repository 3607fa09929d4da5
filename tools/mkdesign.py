"""DESIGN.md from DESIGN.tmpl.md, the rows and seeded/*/meta.json"""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(__file__))
from design_rows import ROWS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in m['not_applicable']}
lv = {x['property']: x['level'] for x in m['checks']}
out = ['| | level | title | contracts |', '|---|---|---|---|']
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    out.append('| %s | %s | %s | %s |' % (i, lv.get(i, 'not claimed'), d['title'], ROWS.get(i, na.get(i, '')).replace('|', '\\|')))
seed = ['| bug | property | needs | caught by |', '|---|---|---|---|']
try:
    det = json.load(open(V + '/tools/detection.json'))
except IOError:
    det = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    seed.append('| %s | %s | %s | %s |' % (n, d['property'], d['needs'].replace('|', '\\|'), det.get(n, '')))
t = open(V + '/tools/DESIGN.tmpl.md').read()
open(V + '/DESIGN.md', 'w').write(t.replace('@@TABLE@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(seed)))
