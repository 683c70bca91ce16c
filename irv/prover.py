"""Runs a unit: generate all obligations from the current source, prove lemmas, discharge everything."""
import time, json, os, z3, sys
from .engine import *
from .unit import Unit, CompileError, VERIF
from .spec import Lemma
from . import solve

class Result:
    def __init__(s, unit): s.unit = unit; s.obls = []; s.quick = 0; s.funcs = []; s.failed = []; s.mismatch = []; s.lemmas = []; s.vac = []; s.gen_s = 0; s.solve_s = 0; s.assumed = set(); s.paths = 0; s.exs = []

def lemma_closure(ls):
    seen = []; st = list(ls)
    while st:
        L = st.pop()
        if L in seen: continue
        seen.append(L); L._obls = L.obligations(); st.extend(L.uses)
    col = {}
    def visit(L):           # lemmas may not be used circularly
        col[L] = 1
        for x in L.uses:
            if col.get(x) == 1: raise SpecMismatch('circular use of lemmas: %s, %s' % (L.name, x.name))
            if x not in col: visit(x)
        col[L] = 2
    for L in seen:
        if L not in col: visit(L)
    return seen

def run_unit(unit, only=None, budget=8000, procs=8, verbose=False, vacuity=True, hints=None, stop_after=None):
    R = Result(unit); t0 = time.time()
    bp = os.path.join(VERIF, 'baseline', unit.name + '.json')
    unit.baseline = json.load(open(bp)) if os.path.exists(bp) else None
    unit.compile(os.environ.get('IRV_KEEP'))
    lem = set(); vac = []
    for spec in unit.specs:
        if only and spec.name not in only: continue
        fname = spec.name
        f = unit.M.funcs.get(fname)
        if f is None:
            c = [n for n in unit.M.funcs if hasattr(spec, 'match') and re.search(spec.match, unit.dem.get(n, n))]
            if not c: R.mismatch.append((fname, 'function not found')); continue
            f = unit.M.funcs[c[0]]
        ex = Exec(unit, f, spec)
        try:
            ex.run()
        except (Unsupported, SpecMismatch) as e:
            R.mismatch.append((fname, '%s: %s' % (type(e).__name__, e))); R.funcs.append((fname, 0, 0)); continue
        except z3.Z3Exception as e:
            if os.environ.get('IRV_DEBUG'): raise
            R.mismatch.append((fname, 'term construction: %s' % str(e)[:200])); continue
        R.exs.append(ex)
        th = [t() if callable(t) else t for t in spec.theory + unit.theory]
        for L in getattr(spec, 'lemma_theory', []) + getattr(unit, 'lemma_theory', []): lem.add(L); th.append(L.axiom())
        for o in ex.obls: o._th = th
        R.obls += ex.obls; R.quick += ex.quick; R.paths += ex.paths; R.assumed |= ex.assumed
        R.funcs.append((fname, len(ex.obls) + ex.quick, ex.paths))
        lem |= ex.lemmas_used
        if ex.paths == 0: R.mismatch.append((fname, 'no path reaches an exit'))
        v = Obl('%s/vacuity' % fname, ex.precond, z3.BoolVal(False), fname, 'vacuity', fname); v._th = th; vac.append(v)
    for L in lemma_closure(lem):
        for o in L._obls: o._th = []; R.lemmas.append(o)
    R.gen_s = time.time() - t0; t1 = time.time()
    allo = R.lemmas + R.obls
    if verbose: print('generated %d obligations (+%d immediate) in %.1fs' % (len(allo), R.quick, R.gen_s), flush=True)
    solve.discharge(allo, lambda o: o._th, budget=budget, procs=procs, hints=hints, stop_after=stop_after)
    if vacuity: solve.discharge_vac(vac, lambda o: o._th, procs)
    R.vac = vac
    R.solve_s = time.time() - t1
    for o in allo:
        if o.status != 'unsat': R.failed.append(o)
    for o in vac:
        if o.status == 'unsat': R.mismatch.append((o.fn, 'contract is vacuous: its precondition is contradictory'))
    return R
