#!/usr/bin/env python3
# fills the generated parts of DESIGN.md: the repaired defects and the planted changes
# usage: design.py [FILE with lines "ID ENTRY..." : what caught a planted change]
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = [e for e in json.load(open(root + '/known_findings.json')) if e['status'] == 'fixed']
lines = ['| property | commit | what failed |', '|---|---|---|']
for e in sorted(fixed, key=lambda e: e['property']):
    what = re.sub(r'^fixed: property=\S+ \S+ ', '', e['what']).replace('|', '/')
    lines.append('| %s | %s | %s |' % (e['property'], e['commit'], what))
table = '\n'.join(lines)
caught = {}
store = root + '/tools/caught.json'
if os.path.exists(store):
    caught = json.load(open(store))
for path in sys.argv[1:]:
    for line in open(path):
        m = re.match(r'(\S+):.*VIOLATION property=(C\d+) replay=\S*/C\d+-(\w+?)-\d+\.txt', line)
        if m:
            caught[m.group(1)] = m.group(2) + ' ' + m.group(3)
ids = sorted(os.listdir(root + '/seeded'))
caught = {k: v for k, v in caught.items() if k in ids}
json.dump(caught, open(store, 'w'), indent=1, sort_keys=True)
rows = ['| id | what it breaks | needs | caught by |', '|---|---|---|---|']
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (root, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(i, '**not caught**')))
text = open(root + '/DESIGN.md').read()
for name, value in (('fixed', table), ('seeds', '\n'.join(rows))):
    text = re.sub(r'<!-- %s -->.*<!-- /%s -->' % (name, name), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, value, name), text, flags=re.S)
open(root + '/DESIGN.md', 'w').write(text)
