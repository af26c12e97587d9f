#!/usr/bin/env python3
"""development aid: suggest.py harness/x.cpp [max] - which translation units resolve what the entries of a harness need"""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
run.build_engine()
idx = json.load(open(os.path.join(run.BUILD, 'symidx.json')))
h = run.Harness(os.path.abspath(sys.argv[1]))
limit = int(sys.argv[2]) if len(sys.argv) > 2 else 20
added = []
for rnd in range(limit):
    bc, log, missing = run.link(h)
    if bc is None: print(log[-5000:]); sys.exit(1)
    und = {}
    for e in h.entries:
        cfg = os.path.join(run.BUILD, 'sug.cfg')
        open(cfg, 'w').write('\n'.join(h.config) + '\n' + open(os.path.join(run.VERIF, 'lib/default.cfg')).read())
        out = subprocess.run([run.CVE, bc, '--entry', e['name'], '--config', cfg, '--undef'], capture_output=True, text=True).stdout
        for s in out.split(): und.setdefault(s, e['name'])
    want = {}
    for s in und:
        if s in idx and idx[s] not in h.tus: want.setdefault(idx[s], []).append(s)
    if not want: break
    for t, ss in sorted(want.items()):
        names = subprocess.run(['c++filt'] + ss[:4], capture_output=True, text=True).stdout.split('\n')
        print('// @tu', t, '   #', ' ; '.join(x[:90] for x in names if x))
        added.append(t)
        h.tus.append(t)
    print('---- round', rnd)
