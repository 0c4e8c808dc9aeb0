#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property against /repo's working tree.

  check.py <ID>                      VERIF_SEED / VERIF_TIER from the environment (or --seed/--tier)
  check.py <ID> --replay FILE        re-executes a replay file exactly
  check.py --setup                   builds the simulator once (to see that everything compiles)
"""
import argparse, collections, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEPS = os.environ.get('THUNDER_DEPS', '/opt/thunder_deps')
CAS = DEPS + '/py/casadi'
T = REPO + '/src/thunder'
JOBS = os.cpu_count() or 8
BASE = ['-std=c++17', '-DCASADI_SNPRINTF=snprintf', '-DCASADI_WITH_THREADSAFE_SYMBOLICS', '-DCASADI_WITH_THREAD', '-I' + CAS + '/include', '-w']
t_start = time.time()

#        farm: generated arms (through the real command line); n: runs; group: runs sharing prepared arms; recheck: every k-th run is executed twice
CFG = {
 'C01': dict(farm=3, n=(8000, 40000), group=6),
 'C02': dict(farm=2, n=(1400, 20000), group=6),
 'C03': dict(farm=2, n=(1600, 20000), group=6),
 'C04': dict(farm=3, n=(6000, 40000), group=6),
 'C05': dict(farm=3, n=(700, 40000), group=6),
 'C06': dict(farm=3, n=(6000, 40000), group=6),
 'C07': dict(farm=3, n=(1050, 20000), group=6),
 'C08': dict(farm=3, n=(2000, 40000), group=6, cflags=['-fsanitize=thread', '-O1']),
 'C09': dict(farm=3, n=(1600, 30000), group=6),
 'C10': dict(farm=3, n=(2400, 40000), group=6),
 'C11': dict(farm=3, n=(5000, 60000), group=6),
 'C12': dict(n=(900, 40000), group=6),
 'C13': dict(n=(1600, 60000), group=6),
 'C15': dict(n=(4000, 150000), group=6),
 'C16': dict(farm=4, n=(1300, 60000), group=6),
 'C17': dict(farm=3, n=(5000, 100000), group=6),
 'C19': dict(n=(1500, 60000), group=6),
 'C14': dict(farm=3, n=(450, 15000), group=6),
}

class Broken(Exception):       # something the property depends on does not even build/generate
    def __init__(self, cls, detail): self.cls, self.detail = cls, detail
class Err(Exception): pass

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def build():
    """Compiles the code under test and the simulator; cached by content."""
    repo_src = glob.glob(T + '/src/*.cpp') + glob.glob(T + '/library/*.h') + [T + '/thunder_main.cpp'] + glob.glob(REPO + '/src/genYAML/**/*.cpp', recursive=True) + glob.glob(REPO + '/src/genYAML/**/*.h', recursive=True)
    own = glob.glob(V + '/sim/**/*.cpp', recursive=True) + glob.glob(V + '/sim/**/*.h', recursive=True)
    d = V + '/build/' + tree_hash(repo_src + own + [os.path.abspath(__file__)])
    os.makedirs(V + '/build', exist_ok=True)
    with open(V + '/build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + '/ok'): return d
        for old in glob.glob(V + '/build/*/'):
            if time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        inc = ['-I' + T + '/library', '-I' + V + '/sim', '-I' + V + '/sim/core']
        jobs = []
        for f in glob.glob(T + '/src/*.cpp'):
            seam = ['-Dcompute_userDefined=compute_userDefined_orig'] if f.endswith('/userDefined.cpp') else []
            jobs.append((['g++', *BASE, '-O1', *inc, *seam, '-c', f, '-o', d + '/t_' + os.path.basename(f)[:-4] + '.o'], 'repo'))
        jobs.append((['g++', *BASE, '-O1', *inc, '-Dmain=thunder_cli_main', '-c', T + '/thunder_main.cpp', '-o', d + '/t_main.o'], 'repo'))
        for f in glob.glob(V + '/sim/worlds/*.cpp') + glob.glob(V + '/sim/core/*.cpp') + [V + '/sim/main.cpp']:
            jobs.append((['g++', *BASE, '-O1', *inc, '-c', f, '-o', d + '/s_' + os.path.basename(f)[:-4] + '.o'], 'own'))
        y = REPO + '/src/genYAML'
        jobs.append((['g++', *BASE, '-O1', '-fPIC', '-shared', '-Wl,-Bsymbolic', '-Dmain=genyaml_main', '-I' + y, y + '/main_YAML.cpp', *glob.glob(y + '/src/*.cpp'), '-o', d + '/genyaml.so', '-lyaml-cpp'], 'repo'))
        jobs.sort(key=lambda j: -os.path.getsize([x for x in j[0] if x.endswith('.cpp')][0]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r, (cmd, who) in zip(ex.map(lambda j: sh(j[0]), jobs), jobs):
                if r.returncode: raise Err('build failed (%s): %s\n%s' % (who, ' '.join(cmd), r.stdout[-4000:]))
        r = sh(['g++', '-rdynamic', *glob.glob(d + '/*.o'), '-o', d + '/sim', '-L' + CAS, '-lcasadi', '-lyaml-cpp', '-ldl', '-lpthread', '-Wl,-rpath,' + CAS, '-lstdc++fs'])
        if r.returncode: raise Err('link failed: ' + r.stdout[-4000:])
        open(d + '/ok', 'w').close()
    return d

def adapter_src(name, header, direct=False):
    t = open(header, errors='replace').read()
    q = re.findall(r'Eigen::Matrix(?:<[^;{}()]*?>|Xd)\s+get_(\w+)\s*\(\s*(?:void)?\s*\)\s*(?:const)?\s*(?:noexcept)?\s*[;{]', t)
    return '#include "thunder_%s.h"\n#define ARM thunder_%s\n#define VR_NEW vr_new_%s\n#include "adapter.h"\nnamespace { const std::vector<QE> QT={%s}; }\n' % (name, name, name, ','.join('{"%s",[](ARM&a)->Mat{return a.get_%s();}}' % (x, x) for x in q if not x.startswith('par_'))) + ('#define DIRECT_NEW direct_new_%s\n#include "pyadapter.h"\n' % name if direct else '')

def py_src(name):
    return '#define PY_MODULE "thunder_%s_py"\n#define PY_CLASS "thunder_%s"\n#define PY_NEW py_new_%s\n#include "pyadapter.h"\n' % (name, name, name)

def check_cmake(name, g):
    """The build file must build the module of this arm from the files that are there."""
    t = re.sub(r'#.*', '', open(g + '/CMakeLists.txt', errors='replace').read()); m = re.search(r'pybind11_add_module\s*\(([^)]*)\)', t)
    if not m or '$' in m[1]: return
    w = [x for x in m[1].replace('"', ' ').split() if x not in ('MODULE', 'SHARED', 'EXCLUDE_FROM_ALL', 'NO_EXTRAS', 'THIN_LTO', 'OPT_SIZE')]
    need = {'thunder_%s.cpp' % name, '%s_gen.cpp' % name}
    if not w or w[0] != 'thunder_%s_py' % name or set(os.path.basename(x) for x in w[1:] if x.endswith('.cpp')) != need: raise Broken('farm-pymodule', 'CMakeLists.txt of %s builds %s instead of thunder_%s_py from %s' % (name, ' '.join(w), name, ' '.join(sorted(need))))

class Sim:
    def __init__(s, pid, seed, tier):
        s.pid, s.seed, s.tier = pid, seed, tier; s.cfg = CFG[pid]
        s.b = build(); s.build_s = time.time() - t_start
        s.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid); s.farm = s.scratch + '/farm'
        s.farmn = s.cfg.get('farm', 0) * (1 if tier == 'quick' else s.cfg.get('farm_mult', 2))
        s.template = s.scratch + '/template'; shutil.copytree(T + '/thunder_robot_template', s.template)
        s.farm_s = 0
    def args(s, seed=None):
        return ['--world', s.pid, '--seed', str(s.seed if seed is None else seed), '--farm', s.farm, '--farmn', str(s.farmn), '--scratch', s.scratch, '--template', s.template, '--yamlso', s.b + '/genyaml.so']
    def make_farm(s):
        if not s.farmn: return
        t0 = time.time(); os.makedirs(s.farm)
        r = sh([s.b + '/sim', 'farm', *s.args()])
        if r.returncode: raise Err('farm: ' + r.stdout)
        names = r.stdout.split(); py = s.pid == 'C17'
        def gen(i, sub=''):
            d = '%s/arm%d%s' % (s.farm, i, sub); n = names[i]; g = '%s/%s_generatedFiles' % (d, n)
            if sub: os.makedirs(d); shutil.copy('%s/arm%d/%s.yaml' % (s.farm, i, n), d)
            if s.pid in ('C16', 'C17'): r = sh([s.b + '/sim', 'funcgen', *s.args(), '--idx', str(i), '--pyfun', '2' if sub else '1' if py else '0'], cwd=d)
            else: r = sh([s.b + '/sim', 'cli', '--template', s.template, '--scratch', s.scratch, '--', 'gen', '-n', n, n + '.yaml'], cwd=d)
            if 'Library generated!' not in r.stdout or not os.path.exists(g + '/thunder_%s.h' % n): raise Broken('farm-generate', 'generating arm%d (%s) did not succeed:\n%s' % (i, d, r.stdout[-1500:]))
            open(d + '/adapter.cpp', 'w').write(py_src(n) if sub else adapter_src(n, g + '/thunder_%s.h' % n, py))
            if sub: check_cmake(n, g)
            return d, n, g
        with cf.ThreadPoolExecutor(JOBS) as ex: arms = list(ex.map(gen, range(len(names)))); pyarms = list(ex.map(lambda i: gen(i, '/py'), range(len(names)))) if py else []
        cc = []
        san = s.cfg.get('cflags', [])
        for d, n, g in arms + pyarms:
            for src, o in ((g + '/%s_gen.cpp' % n, 'gen.o'), (g + '/thunder_%s.cpp' % n, 'thunder.o'), (d + '/adapter.cpp', 'adapter.o')):
                cc.append(['g++', '-std=c++17', '-O0', '-w', '-fPIC', *san, '-I' + g, '-I' + V + '/sim/core', '-I' + V + '/sim/pystub', '-c', src, '-o', d + '/' + o])
        if len(arms) > 1:   # a program that uses all of them
            open(s.farm + '/all.cpp', 'w').write(''.join('#include "thunder_%s.h"\n' % n for d, n, g in arms) + 'int all_arms(){ int k=0; ' + ' '.join('{ thunder_%s x; k+=x.get_numJoints(); }' % n for d, n, g in arms) + ' return k; }\n')
            cc.append(['g++', '-std=c++17', '-O0', '-w', '-fPIC', *san, *['-I' + g for d, n, g in arms], '-c', s.farm + '/all.cpp', '-o', s.farm + '/all.o'])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r, c in zip(ex.map(sh, cc), cc):
                if r.returncode: raise Broken('farm-compile', 'the generated library does not compile: %s\n%s' % (c[-3], r.stdout[-1500:]))
        # all arms go into one object, as in a program that uses several of them
        for what, so in ((arms, 'arms.so'), (pyarms, 'pyarms.so')):
            if not what: continue
            r = sh(['g++', '-shared', '-Wl,-Bsymbolic', *([] if san else ['-Wl,-z,defs']), *[d + o for d, n, g in what for o in ('/gen.o', '/thunder.o', '/adapter.o')], *([s.farm + '/all.o'] if what is arms and len(arms) > 1 else []), '-o', s.farm + '/' + so, '-lyaml-cpp'])
            if r.returncode: raise Broken('farm-link', 'the generated libraries of %s cannot be linked into one program: %s' % (', '.join(n for d, n, g in what), r.stdout[-1500:]))
        s.farm_s = time.time() - t0
    def batch(s, count, budget):
        g = s.cfg['group']; outs = []; ps = []
        for w in range(JOBS):
            o = '%s/out%d' % (s.scratch, w); outs.append(o)
            ps.append(subprocess.Popen([s.b + '/sim', 'batch', *s.args(), '--from', str(w), '--stride', str(JOBS), '--count', str(count), '--budget', str(budget), '--group', str(g), '--out', o, '--recheck', str(s.cfg.get('recheck', 11))], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        bad = []
        for p in ps:
            e = p.communicate()[1]
            if p.returncode: bad.append('worker: %d %s' % (p.returncode, e[-500:]))
        if bad: raise Err('; '.join(bad))
        for o in outs:
            if os.path.exists(o):
                for l in open(o, errors='replace'):
                    try: yield json.loads(l, strict=False)
                    except ValueError: raise Err('bad worker output: ' + l[:300])
    def plan(s, idx):
        r = sh([s.b + '/sim', 'plan', *s.args(), '--idx', str(idx)])
        if r.returncode: raise Err('plan: ' + r.stdout)
        return r.stdout
    def run_plan(s, text, n=[0]):
        n[0] += 1; f = '%s/plan%d_%d' % (s.scratch, os.getpid(), n[0]); open(f, 'w').write(text)
        try: r = subprocess.run([s.b + '/sim', 'run', *s.args(), '--plan', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=200)
        except subprocess.TimeoutExpired: return dict(viol=True, cls='hang', detail='no progress', infra='', hash='', cnt={}, log=[])
        os.unlink(f)
        try: return json.loads(r.stdout.strip().splitlines()[-1], strict=False)
        except Exception: raise Err('run: %s %s' % (r.stdout[-500:], r.stderr[-500:]))

def split(plan):
    L = plan.strip().splitlines(); return [x for x in L if not x.startswith('op ')], [x for x in L if x.startswith('op ')]

def minimise(s, plan, cls, limit):
    t0 = time.time(); head, ops = split(plan)
    def bad(o): return (lambda r: r['viol'] and r['cls'] == cls)(s.run_plan('\n'.join(head + o) + '\n'))
    k = 2; tried = 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        while len(ops) >= 1 and time.time() - t0 < limit:
            n = len(ops); c = max(1, n // k); cand = [ops[:i] + ops[i + c:] for i in range(0, n, c)]
            hit = None
            for i in range(0, len(cand), JOBS):
                if time.time() - t0 >= limit: break
                rs = list(ex.map(bad, cand[i:i + JOBS])); tried += len(rs)
                for x, y in zip(rs, cand[i:i + JOBS]):
                    if x: hit = y; break
                if hit is not None: break
            if hit is not None: ops = hit; k = max(k - 1, 2)
            elif c == 1: break
            else: k = min(2 * k, n)
    return '\n'.join(head + ops) + '\n', tried

def known():
    out = []
    f = V + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m: out.append(dict(pid=m[1], cls=m[2], rx=re.compile(m[3]), text=m[4]))
    return out

def write_replay(s, plan, r, extra=''):
    os.makedirs(V + '/replays', exist_ok=True)
    tag = hashlib.sha256(plan.encode()).hexdigest()[:8]; p = '%s/replays/%s-seed%d-%s.replay' % (V, s.pid, s.seed, tag)
    with open(p, 'w') as f:
        f.write('# replay: python3 check.py %s --replay %s\n# repeat with the same source tree: the run below is a pure function of this file\n' % (s.pid, p))
        f.write('# class: %s\n# hash: %s\n' % (r['cls'], r.get('hash', '')))
        for l in ('detail: ' + r['detail']).splitlines(): f.write('# ' + l + '\n')
        f.write('# seed %d farmn %d tier %s\n' % (s.seed, s.farmn, s.tier) + extra)
        f.write(plan)
        if r.get('log'): f.write('# --- trace ---\n' + ''.join('# %s\n' % x for x in r['log']))
    return p

def evidence(s, ev):
    os.makedirs(V + '/evidence', exist_ok=True); p = '%s/evidence/%s.json' % (V, s.pid)
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)

META = json.load(open(V + '/meta.json')) if os.path.exists(V + '/meta.json') else {}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1'))); ap.add_argument('--replay'); ap.add_argument('--n', type=int); ap.add_argument('--budget', type=float); ap.add_argument('--setup', action='store_true'); a = ap.parse_args()
    os.environ['LC_ALL'] = 'C'
    if a.setup:
        print('simulator built in', build()); return 0
    seed, farmn = a.seed, None
    if a.replay:
        txt = open(a.replay).read(); m = re.search(r'^# seed (\d+) farmn (\d+) tier (\w+)', txt, re.M); seed = int(m[1]); a.tier = m[3]; farmn = int(m[2])
    s = Sim(a.id, seed, a.tier)
    if farmn is not None: s.farmn = farmn
    try: return work(s, a)
    finally: shutil.rmtree(s.scratch, ignore_errors=True)

def work(s, a):
    pid = s.pid; quick = s.tier == 'quick'; viol = []; runs = []
    t0 = time.time()
    try:
        s.make_farm()
    except Broken as e:
        r = dict(viol=True, cls=e.cls, detail=e.detail, hash='')
        if a.replay: print('replayed: %s: %s\nVIOLATION property=%s replay=%s' % (r['cls'], r['detail'], pid, a.replay)); return 1
        p = write_replay(s, 'world %s\nknob farmonly 1\n' % pid, r); print(e.cls, e.detail); print('VIOLATION property=%s replay=%s' % (pid, p))
        evidence(s, mkev(s, [], [r], t0, 0)); return 1
    if a.replay:
        txt = open(a.replay).read()
        plan = '\n'.join(l for l in txt.splitlines() if l and not l.startswith('#')) + '\n'
        if 'knob farmonly' in plan: print('the farm builds: no violation'); return 0
        want = re.search(r'^# class: (.*)', txt, re.M)[1]; hsh = re.search(r'^# hash: (\S*)', txt, re.M)[1]
        r = s.run_plan(plan)
        for l in r['log']: print('  ', l)
        if r['viol']:
            print('reproduced: class %s (recorded: %s), execution hash %s (recorded %s)\n%s' % (r['cls'], want, r['hash'], hsh, r['detail'])); print('VIOLATION property=%s replay=%s' % (pid, a.replay)); return 1
        print('no violation', r.get('infra', '')); return 0
    count = a.n or s.cfg['n'][0 if quick else 1]; budget = a.budget or (s.cfg.get('budget', (150, 2400))[0 if quick else 1])
    infra = []; found = collections.OrderedDict(); agg = collections.defaultdict(float); hashes = set(); nontriv = 0; ex_idx = []
    tb = time.time()
    for r in s.batch(count, budget):
        runs.append(1)
        for k, v in r['cnt'].items():
            if k.startswith('max_'): agg[k] = max(agg[k], v)
            else: agg[k] += v
        if r['infra']: infra.append((r['idx'], r['infra']))
        elif r['viol']: found.setdefault(r['cls'], []).append(r)
        elif r['cnt'].get('nontrivial'): nontriv += 1; hashes.add(r['hash']); ex_idx.append(r['idx'])
    run_s = time.time() - tb
    rc = 0; kn = [k for k in known() if k['pid'] == pid]; reported = []; unrep = []
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for cls, rs in list(found.items())[:4]:
        for r in sorted(rs, key=lambda r: len(r.get('log', [])))[:3]:
            k = [k for k in kn if k['cls'] == cls and k['rx'].search(r['detail'])]
            if k: continue
            plan = s.plan(r['idx']); q = [s.run_plan(plan) for _ in range(2)]
            if not all(x['viol'] and x['cls'] == cls for x in q): unrep.append((r['idx'], cls, r['detail'], [(x['viol'], x['cls'], x['infra']) for x in q])); continue
            small, tried = minimise(s, plan, cls, 60 if quick else 300); fin = s.run_plan(small); fin2 = s.run_plan(small)
            if not (fin['viol'] and fin2['viol'] and fin['cls'] == fin2['cls'] == cls): small, fin = plan, q[0]
            p = write_replay(s, small, fin, '# found at run %d of seed %d; minimised from %d to %d operations in %d executions; reproduced in fresh processes\n' % (r['idx'], s.seed, len(split(plan)[1]), len(split(small)[1]), tried))
            print('%s: %s' % (cls, fin['detail'][:1200])); print('VIOLATION property=%s replay=%s' % (pid, p)); sys.stdout.flush(); rc = 1; reported.append(dict(cls=cls, detail=fin['detail'], replay=p)); break
    ev = mkev(s, runs, reported, t0, run_s, agg, hashes, nontriv, infra, found, ex_idx)
    evidence(s, ev)
    if infra: print('harness problems in %d runs: %s' % (len(infra), infra[:3]))
    if unrep and not rc: print('violations that did not reproduce: %s' % unrep[:3])
    print('%s %s seed=%d: %d runs (%d distinct non-trivial) in %.1f s, build %.1f s, arms %.1f s, total %.1f s, violations=%d' % (pid, s.tier, s.seed, len(runs), len(hashes), run_s, s.build_s, s.farm_s, time.time() - t_start, len(reported)))
    if rc == 0 and (unrep or len(infra) > 0.02 * max(1, len(runs)) or not runs): return 2
    return rc

def mkev(s, runs, reported, t0, run_s, agg={}, hashes=(), nontriv=0, infra=(), found={}, ex_idx=()):
    m = META.get(s.pid, {})
    samples = []
    for i in list(ex_idx)[:2]:
        try: samples.append(dict(run=i, plan=s.plan(i).splitlines()[:40]))
        except Err: pass
    faults = {k[6:]: int(v) for k, v in sorted(agg.items()) if k.startswith('fault.')}
    other = {k: v for k, v in sorted(agg.items()) if not k.startswith('fault.') and k not in ('sim_us', 'nontrivial')}
    return dict(property=s.pid, tier=s.tier, seed=s.seed, level=m.get('level', 'exploration'), coverage=dict(
        evaluations=len(runs), distinct_nontrivial=len(hashes), rule=m.get('rule', ''), samples=samples or [m.get('rule', 'none')],
        seeds_per_hour=round(len(runs) / run_s * 3600) if run_s else 0, simulated_seconds=round(agg.get('sim_us', 0) / 1e6, 3) if agg else 0, fault_kinds_injected=faults, counters=other,
        distinct_executions_measure='distinct digests over every event and every answer bit of a run', generated_arms_through_real_cli=s.farmn,
        real_components=m.get('real', []), stubbed_components=m.get('stub', []), harness_problems=len(infra), violation_classes={k: len(v) for k, v in found.items()}),
        assumptions=m.get('assumptions', []), wall_s=round(time.time() - t_start, 2), violations=len(reported))

if __name__ == '__main__':
    try: sys.exit(main())
    except Err as e: print('ERROR:', e); sys.exit(2)
