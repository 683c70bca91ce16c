"""Obligation discharge: portfolio of z3 configurations and cvc5 over a process pool."""
import os, time, subprocess, tempfile, multiprocessing as mp, signal
import z3

def to_smt(o, theory=()):
    s = z3.Solver()
    for f in theory: s.add(f)
    for f in o.facts: s.add(f)
    s.add(z3.Not(o.goal))
    return s.sexpr()

# ---------------------------------------------------------------- abstraction of non-linear arithmetic
# Monomials of degree >= 2, and div/mod by non-literal or large divisors, become applications of uninterpreted functions (a generalisation:
# if the abstracted query is unsatisfiable, so is the original).
class TooBig(Exception): pass
def abstract_nl(fs):
    I = z3.IntSort(); MUL = z3.Function('nl_mul', I, I, I); DIV = z3.Function('nl_div', I, I, I); MOD = z3.Function('nl_mod', I, I, I)
    cache = {}; keep = []; hit = [False]; qn = [0]; comm = []; inq = [0]
    ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL)
    atoms = {}; pc = {}
    def poly(e):
        k = e.get_id()
        if k not in pc: pc[k] = poly1(e); keep.append(e)
        return pc[k]
    def poly1(e):
        if z3.is_int_value(e): return {(): e.as_long()} if e.as_long() else {}
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_UMINUS: return {m: -c for m, c in poly(e.arg(0)).items()}
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = {}
            for i, x in enumerate(e.children()):
                for m, c in poly(x).items(): r[m] = r.get(m, 0) + (c if k == z3.Z3_OP_ADD or i == 0 else -c)
            return {m: c for m, c in r.items() if c}
        if k == z3.Z3_OP_MUL:
            r = {(): 1}
            for x in e.children():
                n = {}
                for m2, c2 in poly(x).items():
                    for m1, c1 in r.items():
                        m = tuple(sorted(m1 + m2)); n[m] = n.get(m, 0) + c1 * c2
                r = n
                if len(r) > 200: raise TooBig()
            return {m: c for m, c in r.items() if c}
        a = go(e)
        if z3.is_int_value(a): return {(): a.as_long()} if a.as_long() else {}
        atoms[a.get_id()] = a; keep.append(a)
        return {(a.get_id(),): 1}
    def term(p):
        ts = []
        for m in sorted(p):
            c = p[m]
            if not m: ts.append(z3.IntVal(c)); continue
            t = atoms[m[0]]
            for x in m[1:]:
                hit[0] = True; y = t; t = MUL(y, atoms[x])
                if not inq[0]: comm.append(t == MUL(atoms[x], y))
            ts.append(t if c == 1 else c * t)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.IntVal(0)
    def go(e):
        k = e.get_id()
        if k in cache: return cache[k]
        r = go1(e); cache[k] = r; keep.append(e); keep.append(r); return r
    def go1(e):
        if z3.is_quantifier(e):
            if e.is_lambda(): return e
            vs = []
            for i in range(e.num_vars()): qn[0] += 1; vs.append(z3.Const('%s!a%d' % (e.var_name(i), qn[0]), e.var_sort(i)))
            sub = vs[::-1]
            inq[0] += 1; body = go(z3.substitute_vars(e.body(), *sub)); ps = []
            for i in range(e.num_patterns()):
                ts = [go(z3.substitute_vars(c, *sub)) for c in e.pattern(i).children()]
                ps.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            inq[0] -= 1
            return (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=ps)
        if not z3.is_app(e) or e.num_args() == 0: return e
        k = e.decl().kind()
        if e.sort() == I and k in ARITH: return term(poly(e))
        a = [go(c) for c in e.children()]
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(a[0]) and z3.is_int_value(a[1]) and a[1].as_long() > 0:
            return z3.IntVal(a[0].as_long() // a[1].as_long() if k == z3.Z3_OP_IDIV else a[0].as_long() % a[1].as_long())
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_int_value(a[1]) and 0 < a[1].as_long() < 65536):
            hit[0] = True
            return (DIV if k == z3.Z3_OP_IDIV else MOD)(a[0], a[1])
        return e.decl()(*a)
    out = [go(f) for f in fs]
    return out + comm, hit[0]
def nl_smt(o, theory):
    fs = list(theory) + list(o.facts) + [z3.Not(o.goal)]
    try: out, hit = abstract_nl(fs)
    except (z3.Z3Exception, TooBig, RecursionError): return None
    if not hit: return None
    s = z3.Solver()
    for f in out: s.add(f)
    return s.sexpr()

CONFIGS = [
    ('z3', ['auto_config=false', 'smt.mbqi=false', 'smt.random_seed=1']),
    ('cvc5', []),
    ('z3/nl', ['auto_config=false', 'smt.mbqi=false', 'smt.arith.solver=2', 'smt.random_seed=7']),
    ('z3/mbqi', []),
    ('z3/rel0', ['auto_config=false', 'smt.mbqi=false', 'smt.relevancy=0', 'smt.random_seed=3']),
]
Z3 = 'z3-new'

def run_solver(name, opts, path, ms):
    t = time.time()
    if name.startswith('cvc5'): cmd = ['cvc5', '--tlimit=%d' % ms, '--lang=smt2'] + opts + [path]
    else: cmd = [Z3, '-smt2', '-t:%d' % ms] + opts + [path]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=ms / 1000 + 1)
        out = 'unknown'
        for l in r.stdout.split('\n'):
            if l.strip() in ('sat', 'unsat', 'unknown', 'timeout'): out = l.strip(); break
        else:
            out = 'error:' + (r.stdout + r.stderr)[:100]
    except subprocess.TimeoutExpired: out = 'timeout'
    return out, time.time() - t

def solve_one(job):
    idx, smt, budget, hint, nl = job
    tot = 0.0; log = []
    order = list(CONFIGS)
    if hint: order.sort(key=lambda c: c[0] != hint)
    steps = [(n, p, min(budget, 3000)) for n, p in order[:4]]
    steps += [(n, p, budget) for n, p in order]
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='irv_')
    try:
        os.write(fd, ('(set-logic ALL)\n' + smt + '\n(check-sat)\n').encode()); os.close(fd)
        if nl:
            fd2, path2 = tempfile.mkstemp(suffix='.smt2', prefix='irv_')
            try:
                os.write(fd2, ('(set-logic ALL)\n' + nl + '\n(check-sat)\n').encode()); os.close(fd2)
                r, dt = run_solver('z3', ['auto_config=false', 'smt.mbqi=false'], path2, 1500)
            finally: os.unlink(path2)
            tot += dt; log.append(('z3/lin', r, round(dt, 2)))
            if r == 'unsat': return idx, 'unsat', 'z3/lin', tot, None, log
        for n, p, ms in steps:
            r, dt = run_solver(n, p, path, ms)
            tot += dt; log.append((n, r, round(dt, 2)))
            if r == 'unsat': return idx, 'unsat', n, tot, None, log
            if r == 'sat': return idx, 'sat', n, tot, None, log
    finally:
        os.unlink(path)
    return idx, 'unknown', None, tot, None, log

def discharge(obls, theory_of, budget=8000, procs=8, stop_after=None, hints=None):
    jobs = []
    for i, o in enumerate(obls):
        o.smt = to_smt(o, theory_of(o))
        jobs.append((i, o.smt, budget, (hints or {}).get(o.name), nl_smt(o, theory_of(o))))
    if not jobs: return
    fails = 0
    with mp.Pool(min(procs, len(jobs))) as pool:
        for idx, r, solver, t, m, log in pool.imap_unordered(solve_one, jobs, chunksize=1):
            o = obls[idx]; o.status = r; o.solver = solver; o.time = t; o.model = m; o.inputs = log
            if r != 'unsat':
                fails += 1
                if stop_after and fails >= stop_after: pool.terminate(); break

def vac_one(job):
    idx, smt = job
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='irv_')
    try:
        os.write(fd, ('(set-logic ALL)\n' + smt + '\n(check-sat)\n').encode()); os.close(fd)
        r, dt = run_solver('z3', ['auto_config=false', 'smt.mbqi=false'], path, 1500)
    finally: os.unlink(path)
    return idx, r, dt

def discharge_vac(obls, theory_of, procs=8):
    """an assertion of false behind each precondition must NOT be provable"""
    jobs = [(i, to_smt(o, theory_of(o))) for i, o in enumerate(obls)]
    if not jobs: return
    with mp.Pool(min(procs, len(jobs))) as pool:
        for idx, r, dt in pool.imap_unordered(vac_one, jobs): obls[idx].status = r; obls[idx].time = dt
