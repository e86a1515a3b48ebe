"""refresh the table of planted changes at the end of DESIGN.md"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | what it breaks | caught by |', '|---|---|---|---|']
caught = {}
p = os.path.join(here, 'tools', 'caught.json')
if os.path.exists(p):
    caught = json.load(open(p))
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    k = d.split('/')[-2]
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (k, m['property'], m['what_it_breaks'].replace('|', '/'), caught.get(k, m['property'])))
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
i = s.find('@@TABLE@@')
if i < 0:
    i = s.find('| change | property |')
open(f, 'w').write(s[:i] + '\n'.join(rows) + '\n')
