#!/usr/bin/env python3-vt
"""usage: onecase.py CID seed index [keep-dir]: runs one case of a check in this process and prints what it found"""
import sys, os
sys.path[:0] = ['/verif/lib', '/verif/checks']
import importlib, core, build, run as R
mod = importlib.import_module(sys.argv[1].lower())
if len(sys.argv) > 4:
    import tempfile
    R.Scratch.__exit__ = lambda self, *a: print('kept', self.path)
exes = mod.exes() if hasattr(mod, 'exes') else (build.build('plain', 'pomdp-solve'),)
c = mod.case(*exes, int(sys.argv[2]), int(sys.argv[3]))
print(c.label, dict(c.counts), c.inconclusive)
for v in c.violations:
    print(v[0], v[1])
