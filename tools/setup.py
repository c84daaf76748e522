#!/usr/bin/env python3
"""Prebuild every library once (fills the compiler cache)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb
from checks import CHECKS
seen = set(); t0 = time.time()
for c in CHECKS.values():
    for lb in c.libs:
        if lb.name in seen: continue
        seen.add(lb.name)
        try: vb.build(lb.name, lb.sources, lb.vt, lb.opt, lb.defs, lb.libs); print('%s ready at %.0fs' % (lb.name, time.time() - t0), flush=True)
        except vb.BuildError as e: print('build of %s failed' % lb.name); print(str(e)[-3000:]); sys.exit(1)
