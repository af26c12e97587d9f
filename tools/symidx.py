#!/usr/bin/env python3
"""development aid: index of symbol -> translation unit over the whole tree (build/symidx.json)"""
import sys, os, json, glob, subprocess, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
run.build_engine()
files = sorted(glob.glob('/repo/middleware/*/source/**/*.cpp', recursive=True))
idx = {}
def one(p):
    o, l = run.compile_bc(p)
    if not o: return p, None
    out = subprocess.run(['llvm-nm-18', '--defined-only', o], capture_output=True, text=True).stdout
    return p, [l.split()[-1] for l in out.splitlines() if l.split()[-2] in 'TDBR']
bad = []
with cf.ThreadPoolExecutor(8) as ex:
    for p, s in ex.map(one, files):
        if s is None: bad.append(p); continue
        for x in s: idx.setdefault(x, os.path.relpath(p, run.REPO))
json.dump(idx, open(os.path.join(run.BUILD, 'symidx.json'), 'w'))
print(len(files), 'files', len(idx), 'symbols; not compiled:', bad)
