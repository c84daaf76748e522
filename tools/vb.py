"""Build driver: compiles /repo's current vt sources against the simulated MPI
into per-check rank libraries, and the checker itself.  Content-hashed (ccache)."""
import re, os, subprocess, sys, hashlib, json, time, concurrent.futures as cf, glob, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX, CC, LLD = '/usr/bin/clang++', '/usr/bin/clang', '/usr/bin/ld.lld'
for c in ('/usr/bin/clang++-18',):
    if os.path.exists(c): CXX = c
for c in ('/usr/bin/clang-18',):
    if os.path.exists(c): CC = c
CCACHE = '/usr/bin/ccache' if os.path.exists('/usr/bin/ccache') else None
NCHUNK = 14
INC = ['-I%s/shim' % VERIF, '-I%s/shim/cfg' % VERIF, '-I%s/src' % REPO, '-I%s/sim' % VERIF] + ['-I%s/lib/%s' % (REPO, d) for d in
      ('fmt/include', 'CLI', 'json/include', 'brotli/c/include', 'EngFormat-Cpp/include', 'yaml-cpp/include', 'libfort/lib', 'context/src')]
OPT = ['-O1'] if os.environ.get('VB_O1') else ['-O0']
CXXFLAGS = ['-std=c++17'] + OPT + ['-w', '-fPIC', '-fno-stack-protector']
JOBS = int(os.environ.get('VB_JOBS', '8'))

class BuildError(Exception):
    pass

def env():
    e = dict(os.environ)
    e['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
    e['CCACHE_NOHASHDIR'] = '1'; e['CCACHE_MAXSIZE'] = '3G'; e['CCACHE_COMPRESS'] = '1'
    e['CCACHE_SLOPPINESS'] = 'include_file_mtime,include_file_ctime'
    e.pop('CCACHE_DISABLE', None)
    e['LC_ALL'] = 'C'
    return e

def run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), cwd=cwd)
    return p.returncode, p.stdout.decode('utf8', 'replace')

def ccache(): return [CCACHE] if CCACHE else []

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except OSError:
        pass
    with open(path, 'w') as f: f.write(text)

def obj_path(tag): return os.path.join(BUILD, 'obj', tag + '.o')

def compile_cxx(src, obj, extra=()):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ccache() + [CXX] + CXXFLAGS + list(extra) + INC + ['-c', src, '-o', obj]
    return run(cmd)

def compile_c(src, obj, extra=()):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    return run(ccache() + [CC, '-O1', '-w', '-fPIC'] + list(extra) + INC + ['-c', src, '-o', obj])

def vt_sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src', 'vt')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.cc'): out.append(os.path.join(d, f))
    return sorted(out)

def unity_chunks():
    """[(name, text, [files])]"""
    srcs = vt_sources()
    size = {s: os.path.getsize(s) for s in srcs}
    # assignment depends on file names only, so that an edit does not reshuffle
    buckets = [[] for _ in range(NCHUNK)]
    for i, s in enumerate(srcs): buckets[i % NCHUNK].append(s)
    res = []
    for i, b in enumerate(buckets):
        res.append(('unity%02d' % i, ''.join('#include "%s"\n' % s for s in b), b))
    return res

def third_party():
    L = os.path.join(REPO, 'lib')
    res = [('c++', os.path.join(L, 'fmt/src/format.cc'))]
    res += [('c++', s) for s in sorted(glob.glob(L + '/EngFormat-Cpp/src/*.cpp'))]
    res += [('c++', s) for s in sorted(glob.glob(L + '/yaml-cpp/src/*.cpp'))]
    for d in ('common', 'enc', 'dec'): res += [('c', s) for s in sorted(glob.glob(L + '/brotli/c/%s/*.c' % d))]
    res += [('c', L + '/libfort/lib/fort.c')] if os.path.exists(L + '/libfort/lib/fort.c') else []
    return [(k, s) for k, s in res if os.path.exists(s)]

def tp_tag(s): return 'tp_' + hashlib.md5(s.encode()).hexdigest()[:8] + '_' + os.path.basename(s)

def parallel(tasks):
    """tasks: [(name, fn)] -> first failure raises BuildError"""
    fails = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = {ex.submit(fn): n for n, fn in tasks}
        for f in cf.as_completed(fs):
            rc, out = f.result()
            if rc != 0: fails.append((fs[f], out))
    if fails: raise BuildError('\n'.join('--- %s\n%s' % (n, o[-6000:]) for n, o in fails))

def build_unity(name, text, files, extra=()):
    plain = name
    if extra: name += '_' + hashlib.md5(repr(extra).encode()).hexdigest()[:6]
    src = os.path.join(BUILD, 'unity', plain + '.cc')
    write_if_changed(src, text)
    obj = obj_path(name)
    rc, out = compile_cxx(src, obj, extra)
    if rc == 0:
        lst = [obj]
    else:  # names may clash between files of a unity chunk: compile one by one
        lst = []
        for s in files:
            o = obj_path(name + '_' + hashlib.md5(s.encode()).hexdigest()[:10])
            rc, out = compile_cxx(s, o, extra)
            if rc != 0: return rc, out
            lst.append(o)
    with open(obj_path(name) + '.list', 'w') as f: f.write('\n'.join(lst))
    return 0, ''

def fcontext(tasks, objs):
    L = os.path.join(REPO, 'lib/context/src/context')
    for s in sorted(glob.glob(L + '/*.cc')) + [L + '/asm/%s_x86_64_sysv_elf_gas.S' % k for k in ('make', 'jump', 'ontop')]:
        o = obj_path(tp_tag(s)); objs.append(o)
        tasks.append((s, (lambda s=s, o=o: compile_cxx(s, o, ['-O1'])) if s.endswith('.cc') else (lambda s=s, o=o: compile_c(s, o))))

def sim_path(): return os.path.join(BUILD, 'sim')

def build_sim():
    o = obj_path('sim')
    os.makedirs(os.path.dirname(o), exist_ok=True)
    rc, out = run(ccache() + ['/usr/bin/g++', '-std=c++17', '-O2', '-g', '-w', '-fno-builtin-malloc', '-I%s/shim' % VERIF, '-I%s/sim' % VERIF, '-c', VERIF + '/sim/sim.cc', '-o', o])
    if rc: return rc, out
    t = sim_path() + '.%d' % os.getpid()      # replaced as a whole: another check may be running it
    rc, out = run(['/usr/bin/g++', o, '-o', t, '-ldl', '-Wl,--dynamic-list=%s/sim/sim.dyn' % VERIF])
    if rc == 0: os.replace(t, sim_path())
    return rc, out

def build(name, scen_sources, vt='all', opt=None, defs=(), libs=()):
    """Rank library with the given scenarios.
    vt: 'all' = the whole runtime, or a list of src/vt/*.cc (component checks)."""
    os.makedirs(BUILD, exist_ok=True)
    tasks, objs, lists = [], [], []
    raw = vt != 'all'
    extra = list(defs) + ([opt] if opt else []) + (['-DSCEN_RAW', '-ffunction-sections', '-fdata-sections', '-fvisibility=hidden'] if raw else [])
    tag = hashlib.md5(repr((extra,)).encode()).hexdigest()[:6] + '_'
    for s in scen_sources:
        src = os.path.join(VERIF, 'scen', s); o = obj_path(tag + 'scen_' + s)
        objs.append(o)
        tasks.append((s, lambda src=src, o=o: compile_cxx(src, o, extra)))
    if not raw:
        conf = tuple(d for d in defs if d.startswith('-Dvt_feature_'))      # another configuration of the whole runtime
        for n, text, files in unity_chunks():
            lists.append(obj_path(n + ('_' + hashlib.md5(repr(conf).encode()).hexdigest()[:6] if conf else '')) + '.list')
            tasks.append((n, lambda n=n, text=text, files=files: build_unity(n, text, files, conf)))
        if '-Dvt_feature_cmake_fcontext=1' in conf: fcontext(tasks, objs)
    else:
        so = obj_path(tag + 'raw_stubs'); objs.append(so)
        tasks.append(('raw_stubs', lambda: compile_cxx(os.path.join(VERIF, 'sim', 'raw_stubs.cc'), so, extra)))
        grp = {'@brotli': '/brotli/', '@yaml': '/yaml-cpp/', '@eng': '/EngFormat', '@fort': '/libfort/'}
        for f in [x for x in vt if x in grp]:
            for k, s in third_party():
                if grp[f] not in s: continue
                o = obj_path(tp_tag(s)); objs.append(o)
                tasks.append((s, (lambda s=s, o=o: compile_cxx(s, o, ['-O1'])) if k == 'c++' else (lambda s=s, o=o: compile_c(s, o))))
        if '@fcontext' in vt: fcontext(tasks, objs)
        vt = [x for x in vt if x not in grp and x != '@fcontext']
        for f in vt:
            src = f if f.startswith('/') else os.path.join(REPO, 'src', 'vt', f)
            o = obj_path(tag + 'vt_' + f.replace('/', '_')); objs.append(o)
            if src.endswith('.c'): tasks.append((f, lambda src=src, o=o: compile_c(src, o)))
            else: tasks.append((f, lambda src=src, o=o: compile_cxx(src, o, extra)))
    o = obj_path(tag + 'rank'); objs.append(o)
    tasks.append(('rank.cc', lambda o=o: compile_cxx(os.path.join(VERIF, 'sim', 'rank.cc'), o, extra)))
    if not raw:
        for k, s in third_party():
            o = obj_path(tp_tag(s)); objs.append(o)
            tasks.append((s, (lambda s=s, o=o: compile_cxx(s, o, ['-O1'])) if k == 'c++' else (lambda s=s, o=o: compile_c(s, o))))
    else:
        s = os.path.join(REPO, 'lib/fmt/src/format.cc'); o = obj_path(tp_tag(s)); objs.append(o)
        tasks.append((s, lambda s=s, o=o: compile_cxx(s, o, ['-O1'])))
    tasks.append(('sim', build_sim))
    parallel(tasks)
    for l in lists: objs += open(l).read().split('\n')
    lib = os.path.join(BUILD, 'lib', name + '.so')
    os.makedirs(os.path.dirname(lib), exist_ok=True)
    gc = ['-Wl,--gc-sections'] if raw else []
    rc, out = run([CXX, '-shared', '-fuse-ld=' + LLD, '-Wl,-Bsymbolic', '-Wl,-O0', '-Wl,--strip-debug', '-o', lib] + gc + objs + ['-lz'] + list(libs))
    if rc: raise BuildError(out[-8000:])
    if raw:
        u = subprocess.run(['nm', '-D', '-u', lib], stdout=subprocess.PIPE).stdout.decode()
        miss = [w for w in (l.split()[-1] for l in u.splitlines() if l.strip()) if re.match(r'_Z\w*2vt\d', w)]
        if miss:   # the tree needs more of the runtime than the selected files: link all of it
            if os.environ.get('VB_VERBOSE'): print('linking everything because of', miss[:12])
            lists = []; tasks = [(n, lambda n=n, text=text, files=files: build_unity(n, text, files)) for n, text, files in unity_chunks()]
            have = set(f if f.startswith('/') else os.path.join(REPO, 'src', 'vt', f) for f in vt)
            for k, s in third_party():
                o = obj_path(tp_tag(s))
                tasks.append((s, (lambda s=s, o=o: compile_cxx(s, o, ['-O1'])) if k == 'c++' else (lambda s=s, o=o: compile_c(s, o))))
            vo = os.path.join(BUILD, 'obj', 'version.cc')
            write_if_changed(vo, '#include <string>\nextern int const vt_version_major, vt_version_minor, vt_version_patch; extern std::string const vt_git_sha1, vt_git_exact_tag, vt_git_refspec, vt_git_description, vt_git_clean_status;\n'
              'int const vt_version_major = 1; int const vt_version_minor = 0; int const vt_version_patch = 0; std::string const vt_git_sha1 = "0", vt_git_exact_tag = "", vt_git_refspec = "", vt_git_description = "", vt_git_clean_status = "CLEAN";\n')
            tasks.append(('version', lambda: compile_cxx(vo, obj_path('version'))))
            parallel(tasks)
            mine = [o for o in objs if 'scen_' in o or 'rank' in os.path.basename(o)]
            full = [o for n, _, _ in unity_chunks() for o in open(obj_path(n) + '.list').read().split('\n')] + [obj_path(tp_tag(s)) for k, s in third_party()] + [obj_path('version')]
            extra_src = [o for o, f in zip([x for x in objs if '_vt_' in x], vt) if f.startswith('/')]
            rc, out = run([CXX, '-shared', '-fuse-ld=' + LLD, '-Wl,-Bsymbolic', '-Wl,-O0', '-Wl,--strip-debug', '-o', lib] + mine + extra_src + full + ['-lz'] + list(libs))
            if rc: raise BuildError(out[-8000:])
    return lib

if __name__ == '__main__':
    t = time.time()
    try:
        print(build(sys.argv[1], sys.argv[2:]), '%.1fs' % (time.time() - t))
    except BuildError as e:
        print(e); sys.exit(1)
