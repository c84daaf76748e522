#!/usr/bin/env python3
"""check.py <property> : build from /repo, explore, write evidence, report."""
import os, sys, json, time, subprocess, shutil, concurrent.futures as cf, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb
from checks import CHECKS, Run
VERIF = vb.VERIF
EVID = os.path.join(VERIF, 'evidence')

def load_known():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) run=(\S+) match="([^"]*)" (.*)', l.strip())
            if m: res.append(dict(property=m.group(1), run=m.group(2), match=m.group(3), text=m.group(4)))
    return res

def sim_cmd(lib, run, tier, out, jobs, extra=()):
    o = run.opts(tier)
    cmd = [vb.sim_path(), '--lib', lib, '--scenario', run.scenario, '--out', out, '--jobs', str(jobs)]
    for k, v in o.items():
        if k == 'args':
            for a in v: cmd += ['--arg', a]
        elif v is True: cmd += ['--' + k]
        elif v is not None and v is not False: cmd += ['--' + k, str(v)]
    return cmd + list(extra)

def env(tmp):      # freed memory is overwritten and new memory is not zero: what reads either is seen
    e = dict(os.environ); e['TMPDIR'] = tmp; e.setdefault('GLIBC_TUNABLES', 'glibc.malloc.tcache_count=0:glibc.malloc.perturb=165')
    return e

def execute(lib, run, tier, tmp, jobs):
    out = os.path.join(tmp, run.name + '.json')
    files = []
    if run.files: files = ['--files', os.path.join(tmp, 'f_' + run.name)]
    for attempt in range(2):
        if os.path.exists(out): os.unlink(out)
        e = env(tmp)
        p = subprocess.run(sim_cmd(lib, run, tier, out, jobs, files), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        if files: shutil.rmtree(files[1], ignore_errors=True)
        try: r = json.load(open(out))
        except Exception as ex: r = {'error': 'no result: %s %s' % (ex, p.stdout.decode('utf8', 'replace')[-500:]), 'violation': None}
        if r.get('error') and not r.get('violation'): continue
        break
    return r

def replay(lib, run, tier, tmp, choices, keep):
    """re-run one recorded schedule in a fresh process"""
    rp = keep
    with open(rp, 'w') as f:
        f.write('# property run: %s\n# %s\n' % (run.name, ' '.join(sim_cmd(lib, run, tier, 'OUT.json', 1))))
        for a, n in choices: f.write('choice %d %d\n' % (a, n))
    out = os.path.join(tmp, 'replay.json'); tr = rp + '.trace'
    e = env(tmp)
    files = ['--files', os.path.join(tmp, 'fr')] if run.files else []
    subprocess.run(sim_cmd(lib, run, tier, out, 1, ['--replay', rp, '--trace', tr, '--stderr', rp + '.stderr'] + files), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    if files: shutil.rmtree(files[1], ignore_errors=True)
    try: return json.load(open(out))
    except Exception as ex: return {'error': str(ex), 'violation': None}

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    c = CHECKS[pid]; t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': c.level, 'coverage': {}, 'wall_s': 0}
    libs = {}
    try:
        for lb in c.libs: libs[lb.name] = vb.build(lb.name, lb.sources, lb.vt, lb.opt, lb.defs, lb.libs)
    except vb.BuildError as e:
        print('build failed'); print(str(e)[-4000:]); sys.exit(2)
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='vtmc.')
    known = load_known(); viol = []; errors = []; kf = []
    results = {}
    try:
        runs = [r for r in c.runs if (tier == 'thorough' or not r.thorough_only) and (not only or r.name == only)]
        comp = [r for r in runs if r.comp]; rt = [r for r in runs if not r.comp]
        with cf.ThreadPoolExecutor(8) as ex:
            for r, res in zip(comp, ex.map(lambda r: execute(libs[r.lib or c.libs[0].name], r, tier, tmp, 1), comp)): results[r.name] = res
        for r in rt: results[r.name] = execute(libs[r.lib or c.libs[0].name], r, tier, tmp, 8)
        for r in runs:
            res = results[r.name]
            if res.get('violation'):
                v = res['violation']; keep = os.path.join(EVID, '%s.%s.replay' % (pid, r.name))
                rr = replay(libs[r.lib or c.libs[0].name], r, tier, tmp, v['choices'], keep)
                if rr.get('violation') and rr['violation']['msg'] == v['msg']:
                    k = [x for x in known if x['property'] == pid and x['run'] == r.name and x['match'] in v['msg']]
                    if k: kf.append((k[0], r, v))
                    else: viol.append((r, v, keep))
                else: errors.append('%s: violation did not replay: %s / %s' % (r.name, v['msg'], json.dumps(rr)[:600]))
            elif res.get('error'): errors.append('%s: %s' % (r.name, res['error']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov = {}; tot = dict(states=0, transitions=0, paths=0, counted=0, outcomes=0)
    runsum = []; samples = []
    for r in runs:
        res = results[r.name]
        if 'bounds' not in res: continue
        s = sum(b['states'] for b in res['bounds']); pth = sum(b['paths'] for b in res['bounds'])
        tot['states'] += s; tot['paths'] += pth; tot['transitions'] += res['transitions']; tot['counted'] += res['counted']; tot['outcomes'] += res['outcomes']
        done = [b['deviations'] for b in res['bounds'] if b['complete']]
        d = {'run': r.name, 'wall_s': round(res['wall'], 2)}
        if r.comp: d['cases'] = res['counted']
        else: d.update(ranks=res['ranks'], mpi_mode=res['mode'], deviations_completed=max(done) if done else -1, states=s, transitions=res['transitions'], executions=pth, outcomes=res['outcomes'], capped=res['capped'], max_events=max([b['maxdepth'] for b in res['bounds']] or [0]))
        runsum.append(d)
        for x in res['samples'][:3]: samples.append('%s: %s' % (r.name, x))
        if not r.comp: samples.append('%s: %d executions, %d distinct states, bound %s of late-delivery deviations' % (r.name, pth, s, max(done) if done else 'none'))
    if c.level == 'model_checking':
        cov = {'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['paths'], 'executions': tot['paths'], 'distinct_outcomes': tot['outcomes'], 'note': 'states and transitions are of the real runtime (no separate model): every execution counted ran the code built from the current tree', 'samples': samples[:40]}
        if tot['counted']: cov['enumerated_cases'] = tot['counted']
    else:
        cov = {'evaluations': tot['counted'] + tot['paths'], 'distinct_nontrivial': tot['counted'], 'rule': c.rule, 'samples': samples[:40] or ['%d cases' % tot['counted']]}
    cov['runs'] = runsum
    cov['build_s'] = round(tb, 1)
    if viol: cov['violations'] = [{'run': r.name, 'msg': v['msg'], 'note': v['note']} for r, v, _ in viol]
    if kf: cov['known_findings'] = [x['text'] for x, _, _ in kf]
    ev['coverage'] = cov; ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for d in runsum: print(json.dumps(d))
    print('build %.1fs total %.1fs' % (tb, time.time() - t0))
    for x, r, v in kf: print('KNOWN-FINDING: property=%s %s' % (pid, x['text']))
    for r, v, keep in viol:
        print('run %s: %s' % (r.name, v['msg']))
        if v['note']: print('  at: %s' % v['note'])
        print('VIOLATION property=%s replay=%s' % (pid, keep))
    if viol: sys.exit(1)
    if errors:
        for e in errors: print('ERROR', e)
        sys.exit(3)
    sys.exit(0)

if __name__ == '__main__':
    main()
