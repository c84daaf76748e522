#!/usr/bin/env python3
"""build and run the component scenarios of one library by hand: cb.py libname [scenario...]"""
import sys, os, subprocess, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb
from checks import CHECKS
libs = {l.name: l for c in CHECKS.values() for l in c.libs}
lb = libs[sys.argv[1]]; t = time.time()
try: p = vb.build(lb.name, lb.sources, lb.vt, lb.opt, lb.defs, lb.libs)
except vb.BuildError as e: print(str(e)[:6000]); sys.exit(1)
print('built %.1fs' % (time.time() - t))
runs = [(c, r) for c, k in CHECKS.items() for r in k.runs if r.comp and (r.lib or k.libs[0].name) == lb.name]
for n, r in runs:
    if len(sys.argv) > 2 and r.scenario not in sys.argv[2:]: continue
    t = time.time(); out = '/tmp/cb.json'
    q = subprocess.run([vb.sim_path(), '--lib', p, '--scenario', r.scenario, '--out', out, '--jobs', '1', '--ranks', '1', '--bound', '0', '--hang', '600', '--stderr', '/tmp/cb.err'] + ['--files', '/tmp/cb.files'] * bool(r.files), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try: j = json.load(open(out)); print('%-6s %-20s %.1fs cases %s %s' % (n, r.scenario, time.time() - t, j.get('counted'), ('VIOL ' + j['violation']['msg']) if j.get('violation') else ('ERR ' + str(j['error'])) if j.get('error') else 'ok'))
    except Exception as e: print(r.scenario, e, q.stdout[-800:])
    finally:
        if os.path.exists(out): os.unlink(out)
