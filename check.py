#!/usr/bin/env python3
"""Runs the solver-based checks of one property.

  check.py <property> [--tier quick|thorough] [--scenario NAME] [--repo DIR] [-v]

For every scenario of the property: compile the Cgl sources of /repo and the harness to LLVM bitcode, link them
with the CoinUtils/Osi models, execute symbolically with the vsym engine (z3 decides branches and assertions),
replay counterexamples natively against the real libraries (ASan), and write evidence/<property>.json.
"""
import sys, os, json, subprocess, tempfile, shutil, hashlib, time, fcntl, argparse, glob, re, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from scenarios import PROPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg):
    print('ERROR: ' + msg); sys.exit(2)

def engine():
    """Path of the engine binary, built when missing or out of date."""
    srcs = sorted(glob.glob(HERE + '/engine/*.[ch]pp') + [HERE + '/engine/build.sh'])
    h = hashlib.sha256()
    for s in srcs: h.update(open(s, 'rb').read())
    out = f'{HERE}/build/vsym-{h.hexdigest()[:16]}'
    os.makedirs(HERE + '/build', exist_ok=True)
    with open(HERE + '/build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in glob.glob(HERE + '/build/vsym-*'): os.unlink(f)
            r = sh(['bash', HERE + '/engine/build.sh', out])
            if r.returncode: die('engine build failed\n' + r.stdout)
    return out

def incs(repo):
    r = ['-I' + HERE + '/harness', '-I' + HERE + '/config'] + ['-I' + d for d in sorted(glob.glob(repo + '/src/Cgl*')) if os.path.isdir(d)]
    return r + ['-I/usr/include/coin']

BASE = ['-std=c++17', '-DNDEBUG', '-DHAVE_CONFIG_H', '-DCGLLIB_BUILD', '-w', '-ffp-contract=off']
BCF = ['-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-emit-llvm']
NATF = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer']

def dir_sources(repo, spec):
    """'CglX' -> every non-test .cpp of that directory; 'CglX/File.cpp' -> that file."""
    if spec.endswith('.cpp'): return [f'{repo}/src/{spec}']
    return [f for f in sorted(glob.glob(f'{repo}/src/{spec}/*.cpp')) if not re.search(r'(unit)?test', os.path.basename(f), re.I)]

class Ctx:
    def __init__(self, repo, verbose):
        self.repo = repo; self.v = verbose
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        self.tmp = tempfile.mkdtemp(prefix='vsym.', dir=base); self.bc = {}; self.eng = engine()
    def cc(self, src, out, native, defs=()):
        fl = BASE + (NATF if native else BCF) + list(defs) + incs(self.repo)
        return sh(['clang++-18'] + fl + ['-c', src, '-o', out])
    def objs(self, srcs, native, defs=()):
        todo = []; res = []
        for s in srcs:
            key = (s, native, tuple(defs))
            if key not in self.bc:
                tag = hashlib.md5(repr(key).encode()).hexdigest()[:12]
                self.bc[key] = f'{self.tmp}/{os.path.basename(s)}.{tag}' + ('.o' if native else '.bc'); todo.append(key)
            res.append(self.bc[key])
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda k: (k, self.cc(k[0], self.bc[k], k[1], k[2])), todo))
        for k, r in rs:
            if r.returncode: die(f'cannot compile {k[0]}\n' + r.stdout[-3000:])
        return res
    def bitcode(self, sc):
        srcs = [f for d in sc['src'] for f in dir_sources(self.repo, d)]
        sd = tuple(sc.get('srcdefs', []))
        objs = self.objs(srcs, False, sd) + self.objs([HERE + '/models/coin_models.cpp'], False) + self.objs([HERE + '/harness/' + sc['harness']], False, tuple(sc.get('defs', [])) + sd)
        out = f"{self.tmp}/{sc['name']}.linked.bc"
        r = sh(['llvm-link-18', '-o', out] + objs)
        if r.returncode: die('link failed\n' + r.stdout[-3000:])
        return out
    def native(self, sc):
        """Builds the native (ASan, real CoinUtils/Osi) replay binary; called by the replay wrapper on demand."""
        srcs = [f for d in sc['src'] for f in dir_sources(self.repo, d)]
        sd = tuple(sc.get('srcdefs', []))
        objs = self.objs(srcs, True, sd) + self.objs([HERE + '/harness/native.cpp'], True) + self.objs([HERE + '/harness/' + sc['harness']], True, tuple(sc.get('defs', [])) + sd)
        out = f"{self.tmp}/{sc['name']}.native"
        libs = sh(['pkg-config', '--libs', 'osi-clp']).stdout.split()
        r = sh(['clang++-18', '-fsanitize=address', '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-o', out] + objs + libs)
        if r.returncode: die('native link failed\n' + r.stdout[-3000:])
        return out

ASAN = 'exitcode=99:detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=205:allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=0'
def run_native(binary, inp, obs=False, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS=ASAN)
    try:
        r = subprocess.run([binary, inp] + (['-o'] if obs else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 66, 'TIMEOUT: does not terminate'
    out = r.stdout.decode(errors='replace'); err = r.stderr.decode(errors='replace'); rc = r.returncode
    if rc in (126, 127): die('native replay binary does not run: ' + err[:300])
    if rc < 0: rc = 66; out += f'\nkilled by signal {-r.returncode}'
    if rc == 99: out += '\n' + '\n'.join(l for l in err.splitlines() if re.search(r'ERROR: AddressSan|#[0-4] ', l))[:1500]
    return rc, out

def replay_mode(argv):
    # check.py --replay <ctxfile> <inputs>
    c = json.load(open(argv[0])); lock = open(c['tmp'] + '/native.lock.' + c['sc']['name'], 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    binary = f"{c['tmp']}/{c['sc']['name']}.native"
    if not os.path.exists(binary):
        ctx = Ctx.__new__(Ctx); ctx.repo = c['repo']; ctx.v = False; ctx.tmp = c['tmp']; ctx.bc = {}; ctx.native(c['sc'])
    fcntl.flock(lock, fcntl.LOCK_UN)
    rc, out = run_native(binary, argv[1]); print(out[-1500:]); sys.exit(rc)

def load_known():
    res = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) scenario=(\S+) match=/(.*)/ (.*)', l)
            if m: res.append(m.groups())
    return res

def cmp_obs(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        xn, xv = x.rsplit(' ', 1); yn, yv = y.rsplit(' ', 1)
        if xn != yn: return False
        try: fx, fy = float(xv), float(yv)
        except ValueError: return False
        if fx != fx and fy != fy: continue
        if abs(fx - fy) > 1e-7 * max(1.0, abs(fx), abs(fy)): return False
    return True

def run_scenario(ctx, pid, sc, tier, seed, workers):
    t0 = time.time(); bc = ctx.bitcode(sc); tcomp = time.time() - t0
    limit = sc.get('time', 40) if tier == 'quick' else sc.get('ttime', sc.get('time', 40) * 8)
    cf = f"{ctx.tmp}/{sc['name']}.ctx.json"; json.dump({'repo': ctx.repo, 'tmp': ctx.tmp, 'sc': sc}, open(cf, 'w'))
    out = f"{ctx.tmp}/{sc['name']}.out.json"; nsamp = sc.get('samples', 12 if tier == 'quick' else 60)
    cmd = [ctx.eng, bc, '--time', str(limit), '--workers', str(workers), '--seed', str(seed), '--order', str(sc.get('order', 2)), '--samples', str(nsamp), '--out', out, '--scratch', ctx.tmp, '--replay', f'{sys.executable} {HERE}/check.py --replay {cf}'] + sc.get('opts', [])
    if sc.get('keep_going'): cmd += ['--keep-going']
    if ctx.v: cmd += ['-v']
    r = subprocess.run(cmd, stdout=None if ctx.v else subprocess.DEVNULL, stderr=None if ctx.v else subprocess.DEVNULL)
    if r.returncode or not os.path.exists(out): die(f"engine failed on scenario {sc['name']} (exit {r.returncode})")
    d = json.load(open(out)); d['compile_s'] = round(tcomp, 1)
    # translation validation: the same inputs, natively, against the real libraries
    val = mism = 0; mlist = []
    if d['samples'] and not d['confirmed']:
        binary = f"{ctx.tmp}/{sc['name']}.native"
        if not os.path.exists(binary): ctx.native(sc)
        for k, s in enumerate(d['samples']):
            lines = [l for l in s.split('~') if l]; ins = [l[2:] for l in lines if l[0] == 'I']; obs = [l[2:] for l in lines if l[0] == 'O']
            f = f"{ctx.tmp}/sample.txt"; open(f, 'w').write('\n'.join(ins) + '\n')
            rc, o = run_native(binary, f, True); got = [l[2:] for l in o.splitlines() if l.startswith('O ')]
            val += 1
            if rc != 0 or not cmp_obs(obs, got):
                mism += 1
                if len(mlist) < 3: mlist.append({'inputs': ins, 'symbolic': obs, 'native': got, 'exit': rc})
    d['tv'] = (val, mism, mlist); return d

def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--replay': return replay_mode(sys.argv[2:])
    if len(sys.argv) > 1 and sys.argv[1] == '--setup': engine(); print('engine ready'); return
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--scenario'); ap.add_argument('--repo', default='/repo'); ap.add_argument('-v', action='store_true'); ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 8))); ap.add_argument('--keep', action='store_true'); ap.add_argument('--time', type=float); ap.add_argument('--noevidence', action='store_true')
    a = ap.parse_args(); pid = a.prop; seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    scs = [s for s in PROPS[pid]['scenarios'] if not a.scenario or s['name'] in a.scenario.split(',')]
    if a.tier == 'quick' and not a.scenario: scs = [s for s in scs if not s.get('thorough_only')]
    known = load_known(); ctx = Ctx(os.path.abspath(a.repo), a.v); violations = []; knowns = []; det = []; tot = {}
    def add(k, v): tot[k] = tot.get(k, 0) + v
    funcs = {}; samples = []; tvv = tvm = 0; assumptions = set(); tvl = []
    try:
        for sc in scs:
            if a.time: sc = dict(sc, time=a.time, ttime=a.time)
            d = run_scenario(ctx, pid, sc, a.tier, seed, a.workers)
            for k in ('paths', 'pending', 'forks', 'steps', 'queries_sat', 'queries_unsat', 'queries_unknown', 'solver_s', 'checks', 'checks_unsat', 'checks_trivial', 'checks_unknown', 'branch_unknown', 'spurious', 'confirmed'): add(k, d[k])
            for f, c, n in d['functions']: funcs[f] = (max(c, funcs.get(f, (0, n))[0]), n)
            v, mm, ml = d['tv']; tvv += v; tvm += mm; tvl += ml
            for s in d['samples'][:2]: samples.append({'scenario': sc['name'], 'path': s.replace('~', '; ')[:600]})
            missing = [x for x in sc.get('reach', []) if not d['reach'].get(x)]
            e = {'scenario': sc['name'], 'bounds': sc['bounds'], 'exhausted_within_bounds': d['exhausted'], 'paths': d['paths'], 'pending_paths': d['pending'], 'assertions_decided': d['checks_unsat'] + d['checks_trivial'], 'assertions_by_solver_unsat': d['checks_unsat'], 'unknown': d['queries_unknown'], 'inconclusive_paths': sum(d['inconclusive'].values()), 'inconclusive_reasons': dict(list(sorted(d['inconclusive'].items(), key=lambda x: -x[1]))[:4]), 'reached': d['reach'], 'vacuous_witnesses': missing, 'spurious_counterexamples': d['spurious'], 'samples_validated': v, 'samples_mismatching': mm, 'wall_s': round(d['wall_s'], 1), 'solver_s': round(d['solver_s'], 1)}
            det.append(e)
            if a.v:
                print(json.dumps({k: d[k] for k in ('ends', 'inconclusive', 'reach', 'notes', 'check_msgs')}, indent=1)[:3000]); print(json.dumps(e)[:1500])
                for x in ml: print('MISMATCH', x)
                for x in d['violations'][:6]: print(x)
                cov = sorted(d['functions'], key=lambda x: x[0])
                for f, c, n in cov: print('  cov %3d/%3d %s' % (c, n, f[:100]))
                unc = {}
                for f, l in d['uncovered']: unc.setdefault(f, set()).add(l)
                fs = {f for f, c, n in cov}
                for f in unc:
                    if f in fs: print('  uncovered', f[:80], sorted(unc[f])[:400])
            for x in d['violations']:
                if not x['confirmed']: continue
                sig = f"{x['kind']}: {x['msg']} @ {x['where']}"; inp = ' '.join(f'{k}={v}' for k, v in x['inputs']); hit = None
                for kp, ks, kr, kd in known:
                    if kp == pid and ks == sc['name'] and re.search(kr, sig + ' | ' + inp): hit = kd
                if hit: knowns.append(hit)
                else: violations.append((sc, x, sig))
            if violations: break
        os.makedirs(HERE + '/evidence', exist_ok=True)
        for sc, x, sig in violations[:1]:
            rp = f'{HERE}/evidence/{pid}.cex.txt'
            with open(rp, 'w') as f:
                f.write(f"# property {pid} scenario {sc['name']} harness {sc['harness']} defs {sc.get('defs', [])}\n# {sig}\n# native replay: {x['replay']}\n" + '\n'.join(f'{k} {v}' for k, v in x['inputs']) + '\n')
        ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': PROPS[pid]['level'], 'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
              'coverage': {'states': tot.get('paths', 0), 'transitions': tot.get('forks', 0), 'traces_validated_against_impl': tvv - tvm, 'samples': samples[:8] or [{'scenario': s['name'], 'path': 'none sampled'} for s in scs[:1]],
                           'exhaustive': all(e['exhausted_within_bounds'] for e in det) and len(det) == len(scs), 'explanation': 'states = feasible symbolic paths executed to the end, each covering all inputs satisfying its path condition; transitions = solver-decided path splits',
                           'functions_encoded': {f: f'{c}/{n} basic blocks' for f, (c, n) in sorted(funcs.items())}, 'solver_queries': {'sat': tot.get('queries_sat', 0), 'unsat': tot.get('queries_unsat', 0), 'unknown': tot.get('queries_unknown', 0), 'seconds': round(tot.get('solver_s', 0), 1)},
                           'assertions_decided': tot.get('checks_unsat', 0) + tot.get('checks_trivial', 0), 'assertions_needing_solver': tot.get('checks_unsat', 0), 'assertions_unknown': tot.get('checks_unknown', 0), 'instructions_executed': tot.get('steps', 0), 'spurious_counterexamples': tot.get('spurious', 0), 'scenarios': det, 'sample_mismatches': tvl[:3], 'known_findings_seen': sorted(set(knowns))},
              'assumptions': PROPS[pid].get('assumptions', []) + ['CoinUtils/Osi replaced by executable models during symbolic execution (real libraries in replay)', 'doubles: exact rationals plus bounded rounding error; counterexamples are replayed natively and reported only if they reproduce', 'bounds per scenario as listed; nothing is claimed outside them or for pending paths']}
        if not a.noevidence: json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
        for k in sorted(set(knowns)): print(f'KNOWN-FINDING: property={pid} {k}')
        for e in det: print(f"{pid} {e['scenario']}: paths {e['paths']} pending {e['pending_paths']} assertions {e['assertions_decided']} exhausted {e['exhausted_within_bounds']} incon {e['inconclusive_paths']} spurious {e['spurious_counterexamples']} tv {e['samples_validated'] - e['samples_mismatching']}/{e['samples_validated']} vacuous {e['vacuous_witnesses']} wall {e['wall_s']}s")
        if violations:
            sc, x, sig = violations[0]; print(f"{sig}\n  inputs: {x['inputs']}\n  native: {x['replay'][:600]}")
            print(f'VIOLATION property={pid} replay={HERE}/evidence/{pid}.cex.txt'); sys.exit(1)
        sys.exit(0)
    finally:
        if not a.keep: shutil.rmtree(ctx.tmp, ignore_errors=True)
        else: print('kept', ctx.tmp)
main()
