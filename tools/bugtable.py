"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | manifests with | effect |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
p = root + '/DESIGN.md'
s = open(p).read().split('<!-- bugs -->')
open(p, 'w').write(s[0] + '<!-- bugs -->\n' + '\n'.join(rows) + '\n')
