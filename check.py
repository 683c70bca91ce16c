#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] : decides one property on /repo's current tree."""
import sys, os, json, time, importlib, subprocess, tempfile, shutil, threading, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from irv import prover
from irv.unit import CompileError, REPO
import props

CXX = ['g++', '-std=c++20', '-O1', '-g0', '-D_GLIBCXX_ASSERTIONS', '-w', '-fno-access-control']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined']

def conf_build(name, d):
    exe = os.path.join(d, name)
    src = os.path.join(HERE, 'conf', name + '.cpp')
    san = [] if 'NOSAN' in open(src).readline() else SAN
    cmd = CXX + san + ['-I' + REPO, '-I' + os.path.join(HERE, 'conf'), src, '-o', exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return exe, r.returncode, r.stderr

def conf_run(exe, seed, secs, filt=None):
    try:
        r = subprocess.run([exe, str(seed), str(secs)] + ([filt] if filt else []), capture_output=True, text=True, errors='replace', timeout=secs + 120)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.BY_ID[pid]; t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', '%s.replay.txt' % pid)
    try:
        rc = decide(P, pid, tier, seed, t0, scratch, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(P, pid, tier, seed, t0, scratch, replay):
    secs = P.get('conf_s', 2) if tier == 'quick' else 60
    budget = 8000 if tier == 'quick' else 40000
    conf = {}; filt = ','.join(P.get('suites', [])) or None
    def run_conf(name):
        exe, rc, err = conf_build(name, scratch)
        if rc: conf[name] = (exe, 'build', err, ''); return
        r, out, err = conf_run(exe, seed, secs, filt)
        conf[name] = (exe, r, out, err)
    ths = [threading.Thread(target=run_conf, args=(n,)) for n in P['conf']]
    for t in ths: t.start()
    # ---- proofs
    results = []; mism = []; failed = []; nobl = ndis = 0; back = {}; stime = 0.0
    for mod in P['units']:
        try:
            m = importlib.import_module('specs.' + mod)
        except Exception as e:
            raise
        for u in (getattr(m, 'units', None) or [m.unit]):
            only = P.get('only', {}).get(u.name)
            try:
                R = prover.run_unit(u, only=set(only) if only else None, budget=budget, procs=7, stop_after=6 if tier == 'quick' else None)
            except CompileError as e:
                mism.append((u.name, 'extraction: ' + str(e)[:1500])); continue
            except Exception as e:
                if os.environ.get('IRV_DEBUG'): raise
                mism.append((u.name, 'engine: %s: %s' % (type(e).__name__, str(e)[:300]))); continue
            results.append((u, R))
            mism += [('%s/%s' % (u.name, a), b) for a, b in R.mismatch]
            failed += [o for o in R.failed]
            nobl += len(R.obls) + len(R.lemmas) + R.quick
            ndis += R.quick + sum(1 for o in R.obls + R.lemmas if o.status == 'unsat')
            back['z3 (in-path, ground)'] = back.get('z3 (in-path, ground)', 0) + R.quick
            for o in R.obls + R.lemmas:
                if o.status == 'unsat': back[o.solver] = back.get(o.solver, 0) + 1
                stime += o.time
    for t in ths: t.join()
    # ---- conformance of the extraction and of the ghost library with the real code
    cf_fail = None; cases = 0; sample = []; suites = {}
    def look(name, c, sd):
        nonlocal cf_fail, cases
        exe, r, out, err = c
        if r == 'build':
            if cf_fail is None: cf_fail = (name, sd, 'the public interface no longer compiles in the conformance program\n' + out[:4000], False)
            return
        if r != 0:
            if 'FAIL suite' not in out and r == 124: return
            cf_fail = (name, sd, out[-6000:] + '\n' + err[:3000], True)
        else:
            for l in out.split('\n'):
                if l.startswith('OK '): cases += int(l.split('cases=')[1].split()[0])
                if l.startswith('sample: '): sample.append(l[8:][:400])
                if l.startswith('suite '): k = l.split(); suites[name + ':' + k[1]] = suites.get(name + ':' + k[1], 0) + int(k[2].split('=')[1])
    for n, c in conf.items(): look(n, c, seed)
    # ---- a failed obligation (or a contract that no longer fits): search for a concrete failing input
    ext = 0
    if cf_fail is None and (failed or mism):
        ext = 25 if tier == 'quick' else 120
        jobs = []
        exes = [(n, c[0]) for n, c in conf.items() if c[1] == 0]
        per = max(1, 7 // max(1, len(exes)))
        def go(n, exe, sd):
            r, out, err = conf_run(exe, sd, ext, filt); look(n, (exe, r, out, err), sd)
        for n, exe in exes:
            for k in range(per):
                t = threading.Thread(target=go, args=(n, exe, seed * 100 + 17 + k)); t.start(); jobs.append(t)
        for t in jobs: t.join()
    viol = None
    names = [o.name for o in failed]
    known = []
    if cf_fail is not None:
        viol = 'concrete' if cf_fail[3] else 'nofail'
    elif failed: viol = 'nofail'
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s: %s\n' % (pid, P['title']))
            for o in failed[:20]:
                f.write('failed obligation: %s [%s] at %s: %s %s\n' % (o.name, o.kind, o.loc, o.status, o.inputs))
            for a, b in mism: f.write('contract does not fit: %s: %s\n' % (a, b))
            if cf_fail is not None:
                f.write('\nfailing input on the real code (g++ build of /verif/conf/%s.cpp against %s):\n' % (cf_fail[0], REPO))
                f.write('replay: g++ %s -I%s -I%s/conf %s/conf/%s.cpp -o /tmp/x && /tmp/x %s %s %s\n' % (' '.join(CXX[1:] + SAN), REPO, HERE, HERE, cf_fail[0], cf_fail[1], secs, filt or ''))
                f.write(cf_fail[2])
            elif failed:
                f.write('\nno failing input found by the replay search (%d cases)\n' % cases)
                f.write('\nSMT query of the first failed obligation:\n' + (failed[0].smt or '')[:60000])
    level = 'proof' if not mism else 'other'
    cov = {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, tier),
           'trusted_base': props.TRUSTED + P.get('trusted', []),
           'functions_under_contract': [{'unit': u.name, 'function': f, 'obligations': n, 'paths': p} for u, R in results for f, n, p in R.funcs],
           'lemmas': sorted({o.name for u, R in results for o in R.lemmas}),
           'back_ends': back, 'solver_time_s': round(stime, 2),
           'vacuity_checks': sum(len(R.vac) for u, R in results),
           'failed_obligations': names[:50], 'not_fitting': [list(x) for x in mism],
           'conformance': {'programs': sorted(conf), 'cases': cases, 'suites': suites, 'samples': sample[:3], 'extended_search_s': ext,
                           'role': 'validates the extraction and the ghost standard library against the compiled code; bounded, not counted as proof'}}
    if P.get('bounded'): cov['bounded_parts'] = P['bounded']
    if mism:
        cov['explanation'] = 'some contracts did not fit the current shape of the code; those functions were decided by the bounded conformance search only (bounded, not proved)'
    if mism and not viol:
        print('NOTE property=%s %d function(s) outside the verifier on this tree, decided by the bounded stand-in: %s' % (pid, len(mism), mism[0][0] + ': ' + mism[0][1][:300]))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': P.get('assumptions', []) + props.ASSUME,
          'violations': (max(1, len(failed)) if viol else 0)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if viol:
        for o in failed[:8]: print('FAILED obligation %s at %s (%s)' % (o.name, o.loc, o.status))
        if cf_fail is not None: print(cf_fail[2][:1500])
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if viol == 'concrete' else ' no-failing-input-found'))
        return 1
    print('OK property=%s obligations=%d discharged=%d functions=%d conformance_cases=%d wall=%.1fs' % (pid, nobl, ndis, sum(len(R.funcs) for _, R in results), cases, time.time() - t0))
    return 0

if __name__ == '__main__': main()
