"""Regenerate MANIFEST.json from properties.jsonl and the property modules present."""
import ast, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
for l in open(os.path.join(root, 'tools', 'technique.txt')):
    if l.strip():
        k, v, note = [x.strip() for x in l.split('|')]
        TECH[k] = (v, note)
checks, na = [], []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(root, 'harness', 'props', i.lower() + '.py')) and i in TECH:
        checks.append(dict(property=i, quick_cmd=f'python3 harness/run.py {i} --tier quick',
                           thorough_cmd=f'python3 harness/run.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=TECH[i][0], level='exploration',
                           level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason='planned for the same technique; its check is not built yet'))
json.dump(dict(version=1, setup_cmd='python3 harness/run.py --setup', checks=checks, not_applicable=na,
               notes='No hooks: the checks observe the public API and public data of the library. See DESIGN.md.'),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
