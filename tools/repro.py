#!/usr/bin/env python3
"""Keep a tree and a batch source around for debugging: repro.py ID seed batch outdir [kind]"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pbt import core, build, gen
id, seed, bi, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
kind = sys.argv[5] if len(sys.argv) > 5 else 'plain'
C = importlib.import_module('checks.' + id.lower()).C()
os.makedirs(out, exist_ok=True)
C.tree = build.Tree(out, kind)
cases = core._batch_cases(C, seed, bi, C.batch)
with open(out + '/p.cora', 'w', encoding='latin-1') as f:
    for j, c in enumerate(cases):
        f.write(gen.source(c, j))
for j, c in enumerate(cases):
    open('%s/want.%d' % (out, j), 'w', encoding='latin-1').write(c['expect'])
print(C.tree.vt, 'CORAPATH=' + C.tree.env['CORAPATH'])
