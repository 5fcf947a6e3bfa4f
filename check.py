#!/usr/bin/env python3
"""Build a property's harness from /repo's working tree and run it.

  check.py <ID> <quick|thorough>     run the check (env VERIF_SEED, default 1)
  check.py --replay <file>           replay a saved counterexample
  check.py --build-only [<ID>...]    compile only

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: violated.
Exit 2: the check itself could not run (build failure, flaky failure)."""
import glob, hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MYTHICAL_REPO', '/repo')
CG = REPO + '/CoarseGrainSites'
LIB = CG + '/src/libmythical'
BUILD = os.environ.get('MYTHICAL_BUILD', V + '/build')
UGLY_ONLY = {'coarsegrainsystem.cpp', 'basin_explorer.cpp', 'graph_library_adapter.cpp'}
SYSTEM = {'C%d' % i for i in range(25, 35)}   # need the graph library (stand-in in stub/)

COMMON = ['-g1', '-O1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-w']
GCC = ['g++'] + COMMON + ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
CLANG = ['clang++'] + COMMON + ['-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all']


def includes():
    return ['-I' + CG + '/include', '-I' + CG + '/src', '-I' + LIB, '-I' + LIB + '/topologyfeatures',
            '-I' + V + '/stub/UGLY/include', '-I' + V + '/stub/a/b/c', '-I' + V + '/harness']


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def headers():
    r = []
    for root in (CG + '/include', CG + '/src/libmythical', V + '/harness', V + '/stub'):
        for d, _, fs in os.walk(root):
            r += [os.path.join(d, f) for f in fs if f.endswith(('.hpp', '.h'))]
    return r


def compile_one(cc, src, std, hdr, extra=()):
    os.makedirs(BUILD + '/obj', exist_ok=True)
    cmd = cc + ['-std=' + std] + list(extra) + includes() + ['-c', src]
    key = digest(hdr + [src], cmd)
    out = '%s/obj/%s-%s.o' % (BUILD, os.path.basename(src)[:-4], key)
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError('compiling %s failed:\n%s' % (src, p.stdout[-4000:]))
    os.rename(tmp, out)
    return out


def lib_sources(system):
    r = []
    for pat in ('/*.cpp', '/charge_transport/*.cpp', '/topologyfeatures/*.cpp'):
        r += glob.glob(LIB + pat)
    r = [s for s in sorted(r) if system or os.path.basename(s) not in UGLY_ONLY]
    if not r:
        raise RuntimeError('no library sources found under ' + LIB)
    return r


def build(pid, fuzz=False):
    hdr = headers()
    src = glob.glob('%s/harness/%s_*.cpp' % (V, pid))
    if len(src) != 1:
        raise RuntimeError('no harness for ' + pid)
    cc = CLANG if fuzz else GCC
    jobs = [(s, 'c++14', ()) for s in lib_sources(pid in SYSTEM)]
    jobs.insert(0, (src[0], 'c++17', ('-DPBT_FUZZ',) if fuzz else ()))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(cc, j[0], j[1], hdr, j[2]), jobs))
    key = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16]
    exe = '%s/%s-%s%s' % (BUILD, pid, 'fuzz-' if fuzz else '', key)
    if not os.path.exists(exe):
        link = ['clang++', '-fsanitize=fuzzer,address,undefined'] if fuzz else ['g++', '-fsanitize=address,undefined']
        tmp = exe + '.%d.tmp' % os.getpid()
        p = subprocess.run(link + objs + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError('linking failed:\n' + p.stdout[-4000:])
        os.rename(tmp, exe)
    return exe


def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:malloc_fill_byte=190:max_malloc_fill_size=65536'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:print_stacktrace=0'
    e['LC_ALL'] = 'C'
    return e


def fuzz_stage(pid, exe, seed, evidence):
    """Coverage-guided stage of the thorough tier; a hit is converted to a
    choice sequence and confirmed by the plain harness."""
    import json, shutil, tempfile
    secs = int(os.environ.get('VERIF_FUZZ_SECONDS', '180'))
    fz = build(pid, fuzz=True)
    d = tempfile.mkdtemp(prefix='pbtfuzz_')
    try:
        out, corpus = d + '/out.replay', d + '/corpus'
        os.makedirs(corpus)
        e = env()
        e['PBT_FUZZ_OUT'] = out
        procs = []
        for k in range(8):
            ek = dict(e)
            ek['PBT_FUZZ_OUT'] = '%s/out%d.replay' % (d, k)
            cmd = [fz, '-seed=%d' % (seed * 8 + k + 1), '-max_total_time=%d' % secs, '-max_len=4096', '-timeout=120',
                   '-rss_limit_mb=3000', '-print_final_stats=1', '-reload=1', '-len_control=20',
                   '-artifact_prefix=%s/w%d-' % (d, k), corpus]
            procs.append(subprocess.Popen(cmd, env=ek, stdout=open('%s/log%d' % (d, k), 'w'), stderr=subprocess.STDOUT, cwd=d))
        for p in procs:
            p.wait()
        execs = cov = 0
        for k in range(8):
            t = open('%s/log%d' % (d, k), errors='replace').read()
            m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', t)
            execs += int(m[-1]) if m else 0
            m = re.findall(r'cov: (\d+)', t)
            cov = max(cov, int(m[-1]) if m else 0)
        rc = 0
        for f in sorted(glob.glob(d + '/out*.replay')):
            if ' ' not in open(f).read():
                continue
            keep = '%s/replays/%s-fuzz-%s.replay' % (V, pid, hashlib.sha256(open(f, 'rb').read()).hexdigest()[:8])
            os.makedirs(V + '/replays', exist_ok=True)
            shutil.copy(f, keep)
            r = subprocess.run([exe, '--replay', keep], env=env()).returncode
            if r == 1:
                rc = 1
                break
            os.unlink(keep)
        try:
            ev = json.load(open(evidence))
            ev['coverage']['fuzz'] = {'executions': execs, 'edges_covered': cov, 'seconds': secs, 'workers': 8,
                                      'engine': 'libFuzzer over the same choice sequences'}
            if rc:
                ev['violations'] = 1
            json.dump(ev, open(evidence, 'w'))
        except Exception as x:
            print('evidence update failed:', x)
        print('%s fuzz stage: executions=%d edges=%d' % (pid, execs, cov))
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build-only':
        ids = a[1:] or sorted(os.path.basename(f)[:3] for f in glob.glob(V + '/harness/C??_*.cpp'))
        for i in ids:
            print(build(i))
        return 0
    if len(a) == 2 and a[0] == '--replay':
        pid = re.search(r'^property (\S+)', open(a[1]).read(), re.M).group(1)
        return subprocess.run([build(pid), '--replay', os.path.abspath(a[1])], env=env()).returncode
    if len(a) < 2 or a[1] not in ('quick', 'thorough'):
        print(__doc__)
        return 2
    pid, tier, extra = a[0], a[1], a[2:]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    exe = build(pid)
    print('%s built in %.1f s' % (pid, time.time() - t0), flush=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    evidence = '%s/evidence/%s.json' % (V, pid)
    budget = '420' if tier == 'quick' else os.environ.get('VERIF_BUDGET', '3600')
    r = subprocess.run([exe, '--tier', tier, '--seed', str(seed), '--evidence', evidence,
                        '--replays', V + '/replays', '--budget', budget] + extra, env=env()).returncode
    if r == 0 and tier == 'thorough' and not extra:
        r = fuzz_stage(pid, exe, seed, evidence)
    return r if r in (0, 1) else 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except RuntimeError as x:
        print('CHECK ERROR:', x)
        sys.exit(2)
