#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): applies small textual
mutations to copies of /repo and reports those no check notices.
  mutate.py <workers> <max mutants> <seed> [file substring...]"""
import glob, os, random, re, shutil, subprocess, sys, threading, queue, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MUTATE_SRC', '/repo')
L = 'CoarseGrainSites/src/libmythical/'; I = 'CoarseGrainSites/include/mythical/'
LAT = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07']
CLU = ['C24', 'C20', 'C21', 'C18', 'C19', 'C22', 'C16', 'C23', 'C17']
SIT = ['C12', 'C14', 'C13', 'C15', 'C18', 'C24', 'C28', 'C27']
SYS = ['C29', 'C32', 'C28', 'C34', 'C33', 'C25', 'C26', 'C27']
FILES = {
 L + 'charge_transport/cuboid_lattice.cpp': LAT, I + 'charge_transport/cuboid_lattice.hpp': LAT,
 L + 'charge_transport/marcus.cpp': ['C08'], I + 'charge_transport/marcus.hpp': ['C08'],
 L + 'queue.cpp': ['C09'], I + 'queue.hpp': ['C09'], L + 'walker.cpp': ['C10'], I + 'walker.hpp': ['C10'], L + 'identity.hpp': ['C10'],
 L + 'rate_container.cpp': ['C11'], L + 'site_container.cpp': ['C15', 'C25', 'C28'], L + 'cluster_container.cpp': ['C16', 'C28'],
 L + 'topologyfeatures/site.cpp': SIT, L + 'topologyfeatures/site.hpp': SIT,
 L + 'topologyfeatures/topology_feature.cpp': ['C14', 'C13', 'C24', 'C25', 'C28'], L + 'topologyfeatures/topology_feature.hpp': ['C14', 'C13', 'C24', 'C25', 'C28'],
 L + 'topologyfeatures/cluster.cpp': CLU, L + 'topologyfeatures/cluster.hpp': CLU,
 L + 'coarsegrainsystem.cpp': SYS, I + 'coarsegrainsystem.hpp': SYS, L + 'basin_explorer.cpp': ['C30', 'C32'], L + 'basin_explorer.hpp': ['C30', 'C32'],
 L + 'graph_library_adapter.cpp': ['C31', 'C30', 'C32'], L + 'graph_library_adapter.hpp': ['C31', 'C30', 'C32'],
}
OPS = [(r'(?<![<>=!+\-*/])<(?![<=])(?=[^<>]*$)', ['<=', '>=']), (r'(?<![<>\-])>(?![>=])(?=[^<>]*$)', ['>=', '<']), (r'<=', ['<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+\+', ['--']), (r'(?<!-)--(?!-)', ['++']), (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r'/=', ['*=']), (r'\*=', ['/=']),
       (r'(?<=[\w\)\]])\s*\+\s*(?=[\w\(])', [' - ']), (r'(?<=[\w\)\]])\s*-\s*(?=[\w\(])', [' + ']), (r'(?<=[\w\)\]])\s*/\s*(?=[\w\(])', ['*']), (r'(?<=[\w\)\]])\s*%\s*(?=[\w\(])', ['/']), (r'(?<=[\w\)\]])\*(?=[\w\(])', ['/']),
       (r'\b0\b(?!\.)', ['1']), (r'\b1\b(?!\.)', ['0', '2']), (r'\b2\b(?!\.)', ['1', '3']), (r'\b0\.0\b', ['1.0']), (r'\b1\.0\b', ['2.0']), (r'\b0\.5\b', ['0.25']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\.first\b', ['.second']), (r'\.second\b', ['.first']), (r'length_', ['width_']), (r'width_', ['height_']), (r'\bx\b', ['y']), (r'\by\b', ['z']), (r'\bz\b', ['x']), (r'min', ['max']), (r'max', ['min']), (r'begin\(\)', ['end()'])]
def mutants(files):
    out = []
    for f in files:
        src = open(SRC + '/' + f).read().split('\n'); block = False; dead = False
        for n, l in enumerate(src):
            # functions whose results nothing reads, and printing
            if not l.startswith((' ', '}')) and '(' in l: dead = any(d in l for d in ('HopOffInternalSite_', 'HopBetweenInternalSite_', 'InternalTimeConstant_', 'InternalDwellTimes_', 'ToInternalSites_', 'ComingToSite_', 'operator<<'))
            if dead: continue
            s = l.strip()
            if s.startswith('/*'): block = True
            if block:
                if '*/' in s: block = False
                continue
            if not s or s.startswith(('//', '#', '*', 'using', 'typedef', 'namespace', 'class', 'public', 'private', 'friend', 'LOG', 'throw', 'assert', '"')) : continue
            code = l.split('//')[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        out.append((f, n, code[:m.start()] + r + code[m.end():]))
            if s.endswith(';') and not s.startswith(('return', 'auto', 'double', 'int', 'vector', 'unordered', 'Site', 'const', 'break', 'size_t', 'bool', 'set', 'string', 'Cluster', 'virtual')) and '(' in s + '=' and s.count('(') == s.count(')'):
                out.append((f, n, ''))
            m = re.match(r'(\s*)if\s*\((.*)\)\s*(\{?.*)$', code)
            if m and m.group(2).count('(') == m.group(2).count(')'):
                out.append((f, n, m.group(1) + 'if(true){' if m.group(3) == '{' else l)); out.append((f, n, m.group(1) + 'if(false){' if m.group(3) == '{' else l))
            if s.startswith('assert') : pass
    seen = set(); res = []
    for x in out:
        if x not in seen and x[2].strip() != open(SRC + '/' + x[0]).read().split('\n')[x[1]].split('//')[0].strip(): seen.add(x); res.append(x)
    return res
def worker(k, q, res, lock):
    d = '/tmp/mut/w%d' % k; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run('cp -a %s/CoarseGrainSites %s/; cp -a %s/check.py %s/harness %s/stub %s/' % (SRC, d, V, V, V, d), shell=True)
    env = dict(os.environ, MYTHICAL_REPO=d, MYTHICAL_BUILD=d + '/build')
    while True:
        try: f, n, new = q.get_nowait()
        except queue.Empty: break
        p = d + '/' + f; old = open(SRC + '/' + f).read(); src = old.split('\n'); was = src[n]; src[n] = new; open(p, 'w').write('\n'.join(src))
        st = 'SURVIVED'
        for c in FILES[f]:
            try: r = subprocess.run(['python3', 'check.py', c, 'quick', '--noshrink', '--jobs', '2', '--scale', os.environ.get('SCALE', '0.5')], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired: st = 'TIMEOUT ' + c; break
            if 'CHECK ERROR' in r.stdout: st = 'nocompile'; break
            if r.returncode == 1: st = 'killed ' + c; break
            if r.returncode: st = 'EXIT%d %s' % (r.returncode, c); break
        open(p, 'w').write(old)
        with lock:
            res.append(st); print('%s | %s:%d | %s ==> %s' % (st, os.path.basename(f), n + 1, was.strip(), new.strip()), flush=True)
        for o in glob.glob(d + '/build/C*'): os.unlink(o)
        subprocess.run('find %s/build/obj -mmin +10 -name "*.o" -size -4000k | head -0' % d, shell=True)
        tot = int(subprocess.run(['du', '-sm', d + '/build'], stdout=subprocess.PIPE, text=True).stdout.split()[0])
        if tot > 3000: shutil.rmtree(d + '/build')
    shutil.rmtree(d, ignore_errors=True)
w, mx, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]); fs = [f for f in FILES if not sys.argv[4:] or any(a in f for a in sys.argv[4:])]
ms = mutants(fs); random.Random(seed).shuffle(ms); print(len(ms), 'mutants,', min(mx, len(ms)), 'tried'); q = queue.Queue()
for m in ms[int(os.environ.get('SKIP', 0)):][:mx]: q.put(m)
res, lock, ts = [], threading.Lock(), []
for k in range(w):
    t = threading.Thread(target=worker, args=(k, q, res, lock)); t.start(); ts.append(t)
for t in ts: t.join()
print({s.split()[0]: sum(1 for r in res if r.split()[0] == s.split()[0]) for s in res})
