#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--only CONFIG] [--keep]: decide one property by symbolic execution of /repo's current source."""
import sys, os, json, subprocess, tempfile, shutil, time, concurrent.futures as cf, fcntl, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, V)
ENG = V + '/build/vpengine'
CODE = '-std=gnu++17 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-jump-tables -fno-pic -fno-pie -emit-llvm -c -gline-tables-only -w'.split()
REPOFL = '-fno-threadsafe-statics -D_GLIBCXX_ASSERTIONS -DHAVE_CONFIG_H -DFULLOCK_VERIF_BOUNDS'.split() + ['-I' + REPO, '-I' + REPO + '/lib', '-I' + V + '/models/cfg', '-include', V + '/models/shim.h']

class Fail(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise Fail('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout

def engine():
    os.makedirs(V + '/build', exist_ok=True)
    with open(V + '/build/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        sh(['make', '-s', '-C', V + '/engine'])

class Build:
    """Bitcode of the library (from /repo's working tree), the OS model and the harnesses."""
    def __init__(self, d, flavor=''): self.d = d; self.h = {}; self.nat = {}; self.fl = ['-fno-inline'] if flavor == 'noinline' else []; self.rf = [x for x in REPOFL if flavor != 'plain' or x != '-DFULLOCK_VERIF_BOUNDS']  # plain: without the hook that lowers a bound
    def libs(self, ex):
        cpp = [f for f in sorted(os.listdir(REPO + '/lib')) if f.endswith('.cc')]
        fl = self.fl
        stems = [f[:-3] for f in cpp if f not in ('flckshmdump.cc', 'fullockversion.cc')]
        jobs = [ex.submit(sh, ['clang++'] + CODE + self.rf + fl + [REPO + '/lib/' + f + '.cc', '-o', self.d + '/r_' + f + '.bc']) for f in stems]
        for f in ('os', 'str'): jobs.append(ex.submit(sh, ['clang++'] + CODE + ['-fno-builtin', V + '/models/' + f + '.cc', '-o', self.d + '/m_' + f + '.bc']))
        return jobs, [self.d + '/r_' + f + '.bc' for f in stems] + [self.d + '/m_os.bc', self.d + '/m_str.bc']
    def build(self, harnesses, ex):
        jobs, bcs = self.libs(ex)
        for h in harnesses: jobs.append(ex.submit(sh, ['clang++'] + CODE + self.rf + self.fl + ['-DREPO_LIB="' + REPO + '/lib"', V + '/harness/' + h + '.cc', '-o', self.d + '/h_' + h + '.bc']))
        for j in jobs: j.result()
        sh(['llvm-link'] + bcs + ['-o', self.d + '/lib.bc'])
        def one(h):
            sh(['llvm-link', self.d + '/lib.bc', self.d + '/h_' + h + '.bc', '-o', self.d + '/l_' + h + '.bc'])
            sh([ENG, 'prep', self.d + '/l_' + h + '.bc', self.d + '/p_' + h + '.bc'])
            return self.d + '/p_' + h + '.bc'
        for h, j in [(h, ex.submit(one, h)) for h in harnesses]: self.h[h] = j.result()
    def native(self, h, entry):
        k = h + '.' + entry
        if k not in self.nat:
            o = self.d + '/n_' + h + '.o'
            if not os.path.exists(o):
                sh([ENG, 'instr', self.h[h], self.d + '/i_' + h + '.bc'])
                sh(['clang++', '-O1', '-w', '-fno-pie', '-x', 'ir', '-c', self.d + '/i_' + h + '.bc', '-o', o])
            rt = self.d + '/rt.o'
            if not os.path.exists(rt): sh(['clang++', '-O1', '-w', '-std=gnu++17', '-c', V + '/replay/rt.cc', '-o', rt])
            sh(['clang++', '-no-pie', '-Wl,--defsym=vp_entry=' + entry, o, rt, '-lpthread', '-o', self.d + '/nat_' + k])
            self.nat[k] = self.d + '/nat_' + k
        return self.nat[k]

T0 = time.time(); TIER = ['quick']
def run_cfg(b, c, wit):
    a = [ENG, 'run', b.h[c['h']], c.get('e', c['h'])]
    for k, v in c.get('p', {}).items(): a += ['-p', '%s=%d' % (k, v)]
    a += ['--time', str(int(max(10, min(c.get('time', 120), (780 if TIER[0] == 'quick' else 3000) - (time.time() - T0))))), '--spin', str(c.get('spin', 1)), '--unwind', str(c.get('unwind', 3)), '--cex', b.d + '/' + c['n'] + '.cex']
    if wit: a += ['--witness', str(wit), b.d + '/' + c['n'] + '.wit']
    a += c.get('x', [])
    t = time.time(); q = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try: r = json.loads(q.stdout)
    except Exception: r = dict(verdict='error', error=(q.stderr or q.stdout)[-800:] or 'engine exit %d' % q.returncode, violations=[], stats={}, solver={}, reach={}, caps={}, functions=[], asserts={}, assertions={}, inputs={}, notes=[], witnesses=0, confirmed=False)
    r['secs'] = time.time() - t; return r

def native_run(b, c, trace):
    try: exe = b.native(c['h'], c.get('e', c['h']))
    except Exception as e: return None, 'native build: ' + str(e)[-500:]
    try: q = subprocess.run(['timeout', '-k', '1', '25', exe, trace], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=90)
    except subprocess.TimeoutExpired: return 2, 'timeout'
    return q.returncode, q.stdout[-1500:]

def main():
    pid = sys.argv[1]; tier = next((a for a in sys.argv[2:] if a in ('quick', 'thorough')), os.environ.get('VERIF_TIER', 'quick')); seed = int(os.environ.get('VERIF_SEED', '1'))
    TIER[0] = tier
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    import checks
    cfgs = [c for c in checks.CHECKS[pid] if tier == 'thorough' or c.get('t', 'q') == 'q']
    if only: cfgs = [c for c in cfgs if c['n'] == only]
    known = [k for k in checks.known_findings() if k['property'] == pid]
    t0 = time.time(); rc = 0; out = []; ev = V + '/evidence'; os.makedirs(ev + '/replay', exist_ok=True)
    for f in os.listdir(ev + '/replay'):
        if f.startswith(pid + '-'): os.unlink(ev + '/replay/' + f)
    d = tempfile.mkdtemp(prefix='vp_' + pid + '_')
    try:
        engine(); ex = cf.ThreadPoolExecutor(8); B = {}
        for fv in sorted({c.get('flavor', '') for c in cfgs}):
            os.mkdir(d + '/b' + fv); B[fv] = Build(d + '/b' + fv, fv); B[fv].build(sorted({c['h'] for c in cfgs if c.get('flavor', '') == fv}), ex)
        tb = time.time() - t0
        wit = 0 if os.environ.get('VP_FAST') else 2 if tier == 'quick' else 4
        order = sorted(cfgs, key=lambda c: -c.get('time', 120))
        futs = [(c, ex.submit(run_cfg, B[c.get('flavor', '')], c, 0 if c.get('known') or c.get('nowit') else wit)) for c in order]
        if os.environ.get('VP_FAST'):  # development only: first counterexample, no native replay
            w = {f: c for c, f in futs}
            for f in cf.as_completed(w):
                r = f.result()
                if r['verdict'] == 'violated' and r['confirmed'] and not w[f].get('known'): print('FAST violated %s %s: %s' % (pid, w[f]['n'], r['violations'][0]['msg'])); sys.stdout.flush(); shutil.rmtree(d, ignore_errors=True); os.killpg(0, 9)
        res = {c['n']: (c, f.result()) for c, f in futs}
        errors = []; viol = []; validated = 0; diverged = []; samples = []; kf = []; ncex = 0
        for n, (c, r) in sorted(res.items()):
            inc = None
            if r['verdict'] == 'violated':
                v = next((x for x in r['violations'] if c.get('known') and not any(k.get('config') == n and x['msg'] == k.get('message') for k in known)), r['violations'][0]); tr = B[c.get('flavor', '')].d + '/' + n + '.cex'; nrc, nout = (None, 'not run: the run already reports violations') if len(viol) >= 4 or (viol and time.time() - t0 > 300) else native_run(B[c.get('flavor', '')], c, tr) if os.path.exists(tr) else (None, 'no trace')
                nat = nrc == 1; art = '%s/replay/%s-%s.txt' % (ev, pid, n)
                kfe = next((k for k in known if k.get('config') == n and v['msg'] == k.get('message')), None) if c.get('known') else None
                with open(art, 'w') as f:
                    f.write('property %s\nconfig %s\nharness %s entry %s params %s\nviolation: %s\nat: %s\nscheduling steps: %s\n' % (pid, n, c['h'], c.get('e', c['h']), c.get('p', {}), v['msg'], v['where'], v['depth']))
                    f.write('inputs: %s\nnotes: %s\nconcrete re-execution of the encoded code reproduces it: %s\nnative replay of the compiled code: exit %s %s\n' % (json.dumps(r['inputs']), json.dumps(r['notes']), r['confirmed'], nrc, (nout or '').strip()))
                    f.write('trace (S thread accesses crash / V thread value name / P value param):\n' + (open(tr).read() if os.path.exists(tr) else ''))
                if not (r['confirmed'] or nat): errors.append('%s: counterexample not reproduced: %s %s' % (n, v['msg'], r.get('error', '')))
                elif kfe: kf.append((kfe, art)); ncex += 1
                else: viol.append((n, v, art)); ncex += 1
                if nat: validated += 1
            elif r['verdict'] == 'held':
                for i in range(0 if viol and time.time() - t0 > 300 else r.get('witnesses', 0)):
                    nrc, nout = native_run(B[c.get('flavor', '')], c, '%s/%s.wit%d' % (B[c.get('flavor', '')].d, n, i))
                    if nrc == 0: validated += 1
                    else: diverged.append('%s.%d: exit %s %s' % (n, i, nrc, (nout or '').strip()[-200:]))
                miss = [l for l in c.get('reach', []) if not r['reach'].get(l)]
                if miss: errors.append('%s: vacuous, never reached: %s' % (n, miss))
            elif r['verdict'] == 'inconclusive' and ('budget' in r['error'] or 'solver' in r['error']): inc = r['error']
            else: inc = 'not decided: %s %s' % (r['verdict'], r['error'])
            samples.append(dict(config=n, harness=c['h'], entry=c.get('e', c['h']), bounds=dict(params=c.get('p', {}), spin_iterations=c.get('spin', 1), interference_rounds=c.get('unwind', 3), options=c.get('x', []), time_cap_s=c.get('time', 120)), outcome=r['verdict'] if not inc else 'incomplete: ' + inc, states=r['stats'].get('states', 0), transitions=r['stats'].get('transitions', 0), crash_points=r['stats'].get('crash_points', 0), max_steps=r['stats'].get('max_depth', 0), states_merged=r['stats'].get('merges', 0), states_subsumed=r['stats'].get('subsumed', 0), spin_cuts=r['stats'].get('spin_cuts', 0), solver=r['solver'], assertions=r['asserts'], reached=r['reach'], model_capacity_cuts=r['caps'], inputs_of_last_witness_or_counterexample=r['inputs'], seconds=round(r['secs'], 2)))
            line = '%-28s %-12s %6.1fs states=%d transitions=%d queries=%d %s' % (n, samples[-1]['outcome'][:40], r['secs'], r['stats'].get('states', 0), r['stats'].get('transitions', 0), r['solver'].get('queries', 0), (r['violations'][0]['msg'] if r['violations'] else '')); print(line)
        fns = sorted({f for _, r in res.values() for f in r['functions']})
        S = lambda k: sum(r['stats'].get(k, 0) for _, r in res.values()); Q = lambda k: sum(r['solver'].get(k, 0) for _, r in res.values())
        held = [s for s in samples if s['outcome'] == 'held']; incomplete = [s['config'] for s in samples if s['outcome'].startswith('incomplete')]
        cov = dict(states=S('states'), transitions=S('transitions'), traces_validated_against_impl=validated, samples=samples, exhaustive=not incomplete and not any(s['model_capacity_cuts'] for s in samples) and not errors,
            explanation='Symbolic execution of the LLVM IR of /repo/lib compiled on this run; inputs, schedules and crash points are solver variables. exhaustive: every configuration was explored completely within its bounds (spin iterations, interference rounds, threads, operations). traces_validated: solver models executed natively by the compiled code with matching accesses, inputs and outcome.',
            functions_encoded=fns, functions_encoded_count=len(fns), solver_queries=Q('queries'), solver_sat=Q('sat'), solver_unsat=Q('unsat'), solver_unknown=Q('unknown'), solver_witness_hits=Q('witness_hits'), solver_seconds=round(Q('seconds'), 3), assertions_checked=sum(r['asserts'].get('checked', 0) for _, r in res.values()), assertions_to_solver=sum(r['asserts'].get('to_solver', 0) for _, r in res.values()), crash_points=S('crash_points'), configurations=len(samples), configurations_held=len(held), configurations_incomplete=incomplete, replay_divergences=diverged, counterexamples=ncex, build_s=round(tb, 2))
        for e in errors: print('ERROR ' + e)
        for e in diverged: print('note: witness replay diverged ' + e)
        for k, art in kf: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        for n, v, art in viol: print('VIOLATION property=%s replay=%s  (%s: %s)' % (pid, art, n, v['msg']))
        json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=checks.ASSUMPTIONS + checks.ASSUME.get(pid, []), wall_s=round(time.time() - t0, 2), violations=len(viol)), open('%s/%s.json' % (ev, pid), 'w'), indent=1)
        if not held and not viol and not kf: errors.append('no configuration was decided: ' + '; '.join(s['outcome'] for s in samples)); print('ERROR ' + errors[-1])
        rc = 1 if viol else 2 if errors else 0
        print('%s %s: %s in %.1fs (%d/%d configurations complete and holding, %d traces validated natively)' % (pid, tier, 'VIOLATED' if viol else 'ERROR' if errors else 'held', time.time() - t0, len(held), len(samples), validated))
    except Exception as e:
        print('ERROR build: %s: %s' % (type(e).__name__, e)); rc = 2
    finally:
        if '--keep' in sys.argv: print('kept ' + d)
        else: shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
if __name__ == '__main__': main()
