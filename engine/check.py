#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property of MeshToolkit/MSTK on /repo's working tree.

1. compile every source of the working tree to LLVM bitcode (and, with ASan/UBSan, to a native archive);
2. for every function the property depends on: generate the proof obligations of its contract from the bitcode and
   have an SMT solver discharge each one (callers see callees through their contracts only);
3. run the executable form of the same contracts (native/<harness>) on enumerated and seeded random states: the
   bounded stand-in for functions outside the verifier's reach and the replay for failed obligations;
4. report.  Exit 0: held.  Exit 1 and a VIOLATION line: broken."""
import sys, os, time, json, subprocess, shutil, resource, signal, threading
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'contracts'))
sys.setrecursionlimit(20000)
import multiprocessing as mp
import build, verify, sym, ir
import props

PID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
LIMIT = 780 if TIER == 'quick' else 3000
P = props.PROPS[PID]
OUT = os.path.join(ROOT, 'build', '%s.%d' % (PID, os.getpid()))
REPLAY = os.path.join(ROOT, 'build', 'replay')

def stop(c):
    return (c in verify.REG.contracts and c not in P.get('inline', ())) or c == 'MSTK_Report' or hasattr(verify.Exec2, 'lib_' + c.replace('.', '_')) or c in verify.NOEFFECT

def prove_one(job):
    fname, layer, timeout, budget = job
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        prog = build.Program.load(OUT)
        t, inl = prog.prepare(fname, stop)
        m = ir.Mod(t)
        r = verify.verify(m, fname, props.LAYERS[layer], axioms=props.AXIOMS[layer], timeout=timeout, budget=budget)
        r['inlined'] = inl
    except build.BuildError as e:
        r = {'function': fname, 'status': 'undecided', 'reason': str(e), 'obligations': 0, 'discharged': 0, 'failed': []}
    except Exception as e:
        r = {'function': fname, 'status': 'undecided', 'reason': 'verifier error: %s: %s' % (type(e).__name__, str(e)[:300]), 'obligations': 0, 'discharged': 0, 'failed': []}
    r['layer'] = layer
    return r

def child(job, q):
    os.setpgid(0, 0)
    r = prove_one(job)
    q.put((job, r))

class Farm:
    """runs proof jobs in separate processes with a hard time limit each"""

    def __init__(self, n):
        self.n = n

    def run(self, jobs, natives=()):
        ctx = mp.get_context('fork')
        todo = list(jobs)
        run = []
        res = {}
        while todo or run:
            if any(p.poll() not in (None, 0) for p, _, _ in natives):
                # the real code already failed its contract on an input: the proofs cannot change the verdict
                for p, q, j, dl in run:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        p.kill()
                for j in [x[2] for x in run] + todo:
                    res[j[0]] = {'function': j[0], 'status': 'undecided', 'reason': 'stopped: a failing input was found', 'obligations': 0, 'discharged': 0, 'failed': [], 'layer': j[1]}
                return res
            while todo and len(run) < self.n:
                j = todo.pop(0)
                left = LIMIT - 60 - (time.time() - T0)
                if left < 10:
                    res[j[0]] = {'function': j[0], 'status': 'undecided', 'reason': 'no time left', 'obligations': 0, 'discharged': 0, 'failed': [], 'layer': j[1]}
                    continue
                q = ctx.SimpleQueue()
                p = ctx.Process(target=child, args=(j, q))
                p.start()
                run.append((p, q, j, time.time() + min(left, j[3] * 1.5 + 30)))
            time.sleep(0.02)
            nrun = []
            for p, q, j, dl in run:
                if not q.empty():
                    _, r = q.get()
                    res[j[0]] = r
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                elif not p.is_alive():
                    if not q.empty():
                        res[j[0]] = q.get()[1]
                    else:
                        res[j[0]] = {'function': j[0], 'status': 'undecided', 'reason': 'verifier process died (exit %s)' % p.exitcode, 'obligations': 0, 'discharged': 0, 'failed': [], 'layer': j[1]}
                elif time.time() > dl:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        p.kill()
                    res[j[0]] = {'function': j[0], 'status': 'undecided', 'timeout': True, 'reason': 'time budget', 'obligations': 0, 'discharged': 0, 'failed': [], 'layer': j[1]}
                else:
                    nrun.append((p, q, j, dl))
            run = nrun
        return res

class Native:
    def __init__(self, name, out):
        self.name, self.out = name, out
        self.err = None
        self.exe = os.path.join(out, 'native_' + name)
        self.th = threading.Thread(target=self.build)
        self.th.start()

    def build(self):
        try:
            build.build_native(os.path.join(ROOT, 'native', self.name + '.cc'), self.exe, self.out)
        except Exception as e:
            self.err = str(e)

    def start(self, seconds, nproc, seed, extra=()):
        self.th.join()
        if self.err:
            raise build.BuildError('native: ' + self.err)
        ps = []
        for k in range(nproc):
            d = os.path.join(self.out, 'cwd%d_%d' % (k, seed))
            os.makedirs(d, exist_ok=True)
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=1:exitcode=99'
            env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99:print_stacktrace=1'
            of = open(os.path.join(d, 'out'), 'w')
            p = subprocess.Popen([self.exe, str(seed * 1000 + k), str(seconds), str(k), str(nproc)] + list(extra), stdout=of, stderr=subprocess.STDOUT, cwd=d, env=env)
            ps.append((p, of.name, time.time() + seconds * 2 + 60))
        return ps

    def finish(self, ps):
        """-> (failing cases, evaluations, distinct, samples, bounds)"""
        bad, ev, dn, smp, info = [], 0, 0, [], []
        for p, f, dl in ps:
            hung = False
            try:
                p.wait(max(1, dl - time.time()))
            except subprocess.TimeoutExpired:
                hung = True
                p.send_signal(signal.SIGALRM)
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
            t = open(f, errors='replace').read()
            for ln in t.split('\n'):
                if ln.startswith('EVALS '):
                    w = ln.split()
                    ev += int(w[1])
                    dn += int(w[2])
                elif ln.startswith('SAMPLE ') and len(smp) < 6:
                    smp.append(ln[7:][:400])
                elif ln.startswith('BOUND ') and ln[6:] not in info:
                    info.append(ln[6:])
            if p.returncode != 0 or hung or 'EVALS ' not in t:
                bad.append(t[-6000:] + ('\n[hung]' if hung else ''))
        return bad, ev, dn, smp, info

def main():
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    os.makedirs(REPLAY, exist_ok=True)
    nat = Native(P['native'], OUT) if P.get('native') else None
    jobs, results = [], {}
    violations = []
    try:
        bc, badsrc = build.build_bc(OUT)
        for s, e in badsrc:
            print('note: %s does not compile with clang: %s' % (s, e[-200:]))
        build.Program(bc, OUT).save()
        budget = P.get('budget', 240 if TIER == 'quick' else 900)
        tmo = P.get('timeout', 10 if TIER == 'quick' else 30)
        for layer, fs in P['proved'] + (P.get('thorough', []) if TIER == 'thorough' else []):
            for f in fs:
                jobs.append((f, layer, tmo, budget))
        nps = []
        nsec = P.get('seconds', 12) if TIER == 'quick' else 240
        if nat:
            nps = nat.start(nsec, 2, SEED)
        results = Farm(7 if nat else 8).run(jobs, nps)
        bad, ev, dn, smp, bounds = nat.finish(nps) if nat else ([], 0, 0, [], [])
        failed = [r for r in results.values() if r['status'] == 'failed']
        slow = [r for r in results.values() if r['status'] == 'undecided' and r.get('timeout')]
        if (failed or slow) and not bad and time.time() - T0 < LIMIT * 0.6:
            # the obligation gets a second chance with a larger budget, the real code a longer search
            nps2 = nat.start(60, 3, SEED + 7) if nat else []
            again = [(r['function'], r['layer'], tmo * 3, budget * 1.5) for r in failed + slow]
            for f, r in Farm(5).run(again, nps2).items():
                results[f] = r
            if nat:
                b2, e2, d2, s2, _ = nat.finish(nps2)
                bad += b2
                ev += e2
                dn += d2
            failed = [r for r in results.values() if r['status'] == 'failed']
        if bad:
            path = os.path.join(REPLAY, '%s-input-%d.txt' % (PID, os.getpid()))
            with open(path, 'w') as f:
                f.write('property %s: the real code breaks its contract on the following input\n' % PID)
                f.write('replay: python3-vt engine/check.py %s with VERIF_SEED=%d\n' % (PID, SEED))
                f.write('failed obligations: %s\n\n' % ', '.join('%s:%s' % (r['function'], x['label']) for r in failed for x in r['failed']))
                f.write(bad[0])
            violations.append({'replay': path, 'input': True})
            print('VIOLATION property=%s replay=%s' % (PID, path))
        elif failed:
            path = os.path.join(REPLAY, '%s-obligation-%d.txt' % (PID, os.getpid()))
            with open(path, 'w') as f:
                f.write('property %s: proof obligations of the contracts on the current source are not discharged\n\n' % PID)
                for r in failed:
                    for x in r['failed']:
                        f.write('function %s, obligation %s\n  path: %s\n  solver: %s\n\n' % (r['function'], x['label'], ' -> '.join(x['trace'][-30:]), x['info']))
                f.write('no failing input was found by %d executions of the contract against the real code\n' % ev)
            violations.append({'replay': path, 'input': False})
            print('failed obligations: %s' % ', '.join('%s:%s' % (r['function'], x['label']) for r in failed for x in r['failed'])[:600])
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (PID, path))
    except build.BuildError as e:
        print('build failed: %s' % e)
        shutil.rmtree(OUT, ignore_errors=True)
        sys.exit(2)
    finally:
        shutil.rmtree(OUT, ignore_errors=True)
    write_evidence(results, jobs, violations, ev, dn, smp, bounds)
    und = [r['function'] + ' (' + r['reason'][:120] + ')' for r in results.values() if r['status'] == 'undecided' and not r['reason'].startswith('stopped')]
    print('%s: %d/%d functions proved, %d obligations discharged, %d contract executions, %.0f s%s' % (
        PID, sum(r['status'] == 'proved' for r in results.values()), len(jobs), sum(r['discharged'] for r in results.values()), ev, time.time() - T0,
        '; not proved on this tree (bounded only): ' + '; '.join(und) if und else ''))
    for ln in known():
        print('KNOWN-FINDING: property=%s %s' % (PID, ln))
    sys.exit(1 if violations else 0)

def known():
    out = []
    try:
        for ln in open(os.path.join(ROOT, 'known_findings.txt')):
            if ln.startswith('known: property=%s ' % PID):
                out.append(ln.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out

def write_evidence(results, jobs, violations, ev, dn, smp, bounds):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    fl = []
    back, assumed, libs = {}, set(P.get('assumptions', ())), set()
    for f, layer, _, _ in jobs:
        r = results.get(f)
        if r is None:
            continue
        fl.append({'function': f, 'layer': layer, 'status': r['status'], 'obligations': r['obligations'], 'discharged': r['discharged'],
                   'paths': r.get('paths', 0), 'loops': r.get('loops', 0), 'inferred_invariants': r.get('invariants', 0),
                   'callees_by_contract': r.get('calls', []), 'inlined': r.get('inlined', []),
                   'queries': r.get('queries', 0), 'solver_s': round(r.get('solver_s', 0), 2), 'reason': r.get('reason', '')})
        for k, v in r.get('backends', {}).items():
            back[k] = back.get(k, 0) + v
        assumed |= set(r.get('assumed', ()))
        libs |= set(r.get('lib', ()))
    ob = sum(x['obligations'] for x in fl)
    di = sum(x['discharged'] for x in fl)
    trusted = ['clang 18 front end and the LLVM passes sroa, mem2reg, instsimplify, early-cse, simplifycfg, loop-simplify, adce, always-inline (extraction of the verified text from /repo)',
               'engine/ir.py, engine/sym.py, engine/verify.py (obligation generator)', 'z3 and cvc5',
               'contracts of library calls: ' + ', '.join(sorted(libs))]
    callees = sorted({c for x in fl for c in x['callees_by_contract']} - {x['function'] for x in fl})
    if callees:
        trusted.append('contracts of callees proved by another check or assumed: ' + ', '.join(callees))
    cov = {'obligations': ob, 'discharged': di, 'checker_cmd': 'python3-vt engine/check.py %s' % PID, 'trusted_base': trusted,
           'functions_proved': [x['function'] for x in fl if x['status'] == 'proved'], 'functions': fl, 'back_ends': back,
           'solver_s': round(sum(x['solver_s'] for x in fl), 1),
           'bounded_functions': P.get('bounded', []), 'bounds': bounds,
           'contract_executions': ev, 'distinct_executions': dn, 'samples': smp or ['none'],
           'explanation': P.get('explanation', '')}
    e = {'property': PID, 'tier': TIER, 'seed': SEED, 'level': P.get('level', 'proof'), 'coverage': cov,
         'assumptions': sorted(assumed) + props.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    if P.get('level', 'proof') != 'proof':
        cov['evaluations'] = ev
        cov['distinct_nontrivial'] = dn
        cov['rule'] = P.get('rule', 'one evaluation = one executed contract case')
    with open(os.path.join(ROOT, 'evidence', PID + '.json'), 'w') as f:
        json.dump(e, f, indent=1)

if __name__ == '__main__':
    main()
