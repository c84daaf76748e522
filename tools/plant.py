#!/usr/bin/env python3
"""Author's tool: turn a bug specification into seeded/<id>/ and confirm it in a scratch copy of /repo.
plant.py SPEC.py...   (each spec defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ text), kind, srcs)
kind: 'unit'  - demo.cc is compiled with the given vt sources
      'sim'   - demo.cc is a scenario; the demo carries a copy of the simulator
The copy (/tmp/bw) is bind-mounted over /repo in a private namespace, so build.sh and test.sh see it as /repo."""
import os, sys, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); BW = '/tmp/bw'
UNIT = '''#!/bin/bash
# compiles a small program against the repository's sources and runs it
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=$PWD; B=$R/_build; L=/usr/lib/x86_64-linux-gnu
I="-I$R/src %s -I$R/lib/json/include -I$R/lib/fmt/include -I$R/lib/CLI -I$R/lib/brotli/c/include -I$R/lib/EngFormat-Cpp/include -I$R/lib/yaml-cpp/include -I$L/openmpi/include -I$L/openmpi/include/openmpi"
cd "$W" || exit 3
g++ -std=c++17 -O1 -w -DNDEBUG -DJSON_USE_IMPLICIT_CONVERSIONS=1 -ffunction-sections -fdata-sections %s $I -o "$W/demo" "$D/demo.cc" %s -Wl,--gc-sections -Wl,--start-group %s "$B"/lib/fmt/libfmt-vt.a "$B"/lib/brotli/*.a "$B"/lib/EngFormat-Cpp/*.a "$B"/lib/yaml-cpp/*.a -Wl,--end-group "$L"/libunwind.so "$L"/libz.so -ldl -Wl,-rpath,"$L"/openmpi/lib "$L"/openmpi/lib/libmpi_cxx.so "$L"/openmpi/lib/libmpi.so || exit 3
timeout 120 "$W/demo"
'''
STUBS = '''// logging and abort of the runtime, for a program without one
#include "vt/config.h"
#include "vt/configs/arguments/app_config.h"
#include <cstdio>
#include <cstdlib>
namespace vt {
namespace debug {
arguments::AppConfig const* preConfig() { static arguments::AppConfig* c = new arguments::AppConfig(); return c; }
arguments::AppConfig* preConfigRef() { return const_cast<arguments::AppConfig*>(preConfig()); }
NodeType preNode() { return 0; }
std::string stringizeMessage(std::string const& msg, std::string const& reason, std::string const& cond, std::string const& file, int const line, std::string const& func, ErrorCodeType) { return msg + " " + reason + " " + cond; }
}
void output(std::string const& s, int32_t const, bool, bool, bool, bool) { printf("assertion: %s\\n", s.c_str()); std::exit(1); }
void abort(std::string const s, int32_t const) { printf("abort: %s\\n", s.c_str()); std::exit(1); }
}
'''
SIM = '''#!/bin/bash
# a small vt program on simulated ranks: builds the runtime from the current tree against the bundled model of MPI
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -r "$D/kit" "$W/kit"; mkdir -p "$W/kit/scen"; cp "$D/demo.cc" "$W/kit/scen/demo.cc"
export CCACHE_DISABLE=1; cd "$W/kit" || exit 3
export VT_REPO=$OLDPWD
lib=$(VB_JOBS=8 python3 tools/vb.py demo demo.cc | tail -1 | cut -d' ' -f1); [ -f "$lib" ] || exit 3
timeout 100 "$W/kit/build/sim" --lib "$lib" --scenario demo --out "$W/o.json" --jobs 8 %s
python3 - "$W/o.json" <<'P'
import json, sys
r = json.load(open(sys.argv[1])); v = r.get('violation')
print(v['msg'] if v else 'no violation', r.get('error', ''))
sys.exit(1 if v else 3 if r.get('error') else 0)
P
'''
def ns(cmd):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (BW, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def git(*a, **k): return subprocess.run(['git', '-C', BW] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def reset():
    if not os.path.exists(BW): subprocess.run(['cp', '-a', '/repo', BW], check=True)
    head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], stdout=subprocess.PIPE).stdout.decode().strip()
    git('fetch', '-q', '/repo', 'HEAD'); git('checkout', '-q', '-f', head)
def main():
    for spec in [a for a in sys.argv[1:] if not a.startswith('--')]:
        s = runpy.run_path(spec); d = V + '/seeded/' + s['id']
        reset()
        for f, old, new in s['edits']:
            t = open(BW + '/' + f).read(); assert t.count(old) == 1, (f, t.count(old), old); open(BW + '/' + f, 'w').write(t.replace(old, new))
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'wb').write(git('diff').stdout)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.cc', 'w').write(s['demo'])
        if s['kind'] == 'unit':
            tr = s.get('cfg', 'trace') == 'trace'
            rel = s.get('cfg') == 'release'   # no debug printing: for programs without a runtime
            if rel: open(d + '/stubs.cc', 'w').write(STUBS)
            sh = UNIT % ('-I$B/release/vt-trace' if rel else '-I$B/relwithdebinfo/vt-trace' if tr else '-I$B/relwithdebinfo', s.get('flags', ''), ('"$D"/stubs.cc ' if rel else '') + ' '.join('"$R/src/vt/%s"' % x for x in s.get('srcs', [])), '"$B"/libvt-trace-extra.a "$B"/libvt-trace-relwithdebinfo.a' if tr else '' if rel else '"$B"/libvt-relwithdebinfo.a')
        else:
            sh = SIM % s.get('opts', '--ranks 2 --bound 2 --time 60')
            os.makedirs(d + '/kit/tools')
            for x in ('shim', 'sim'): shutil.copytree(V + '/' + x, d + '/kit/' + x)
            shutil.copy(V + '/tools/vb.py', d + '/kit/tools/vb.py')
        open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
        b = ns('bash /opt/vp/build.sh')
        if b.returncode: print(s['id'], 'DOES NOT BUILD', b.stdout.decode()[-1500:]); continue
        t = ns('bash /opt/vp/test.sh /tmp/bw.json'); base = json.load(open('/opt/vp/BASELINE.json')); now = json.load(open('/tmp/bw.json'))
        want = base['stable']; got = set(now.get('passed') or now.get('pass') or [])
        lost = [x for x in want if x not in got]
        p = ns('%s/demo.sh' % d); bad = p.returncode
        c = ns('cd %s && VERIF_TIER=quick python3 tools/check.py %s quick' % (V, s['prop'])) if '--nocheck' not in sys.argv else None
        git('checkout', '-q', '-f', '.')
        ns('bash /opt/vp/build.sh'); g = ns('%s/demo.sh' % d)
        det = [l for l in (c.stdout.decode().splitlines() if c else []) if 'VIOLATION' in l or l.startswith('run ')]
        print('%s: lost tests %s; demo with %d (%s), without %d%s; check exit %s %s' % (s['id'], lost, bad, p.stdout.decode().strip().splitlines()[-1:] , g.returncode, '' if g.returncode == 0 else g.stdout.decode()[-600:], c.returncode if c else '-', det[:2] if det else c.stdout.decode()[-300:] if c else ''), flush=True)
main()
