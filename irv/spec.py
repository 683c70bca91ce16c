"""Vocabulary for contracts: quantifiers, definitions, lemmas (proved by well-founded induction), bit-vector lemmas."""
import z3
from .engine import *

Int = z3.IntSort(); Bool = z3.BoolSort()
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
def Arr(v=None, k=None): return z3.ArraySort(Int if k is None else k, Int if v is None else v)
_q = [0]
_depth = [0]
def forall(n, f, pat=None, sorts=None):
    """forall(2, lambda i, j: ..., pat=lambda i, j: [...])"""
    _q[0] += 1
    vs = [z3.Const('q%d_%d' % (k, n) + ("'" * _depth[0]), (sorts[k] if sorts else Int)) for k in range(n)]
    _depth[0] += 1      # a quantifier built inside another one gets variables of its own
    try: body = f(*vs)
    finally: _depth[0] -= 1
    q = _forall(vs, body, pat)
    if _syn_ok(body): register(q)
    return q
def _syn_ok(f):
    return f.get_id() in _ok or (z3.is_and(f) and all(_syn_ok(c) for c in f.children())) or (z3.is_implies(f) and _syn_ok(f.arg(1)))
def _forall(vs, body, pat):
    if pat is not None:
        ps = pat(*vs)
        if not isinstance(ps, (list, tuple)): ps = [ps]
        ps = [z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p for p in ps]
        return z3.ForAll(vs, body, patterns=ps)
    return z3.ForAll(vs, body)
def exists(n, f, sorts=None):
    vs = [z3.Const('e%d_%d' % (k, n), (sorts[k] if sorts else Int)) for k in range(n)]
    return z3.Exists(vs, f(*vs))
def rngq(lo, hi, f, pat=None):
    """forall i in [lo,hi): f(i)"""
    return forall(1, lambda i: Implies(And(lo <= i, i < hi), f(i)), pat)

# ---------------------------------------------------------------- discipline for hints
# A hint may only be: an instance of a definition (recursive definition of a ghost function, or an algebraic law assumed of the
# opaque parameters), an instance of a proved lemma, a conjunction / implication / universal closure of those, or a valid formula.
_ok = {}
def register(f): _ok[f.get_id()] = f; return f
def definition(fn):
    """decorator: instances returned by fn define a ghost function or state an assumed law of the template parameters"""
    def g(*a):
        r = fn(*a)
        for x in (r if isinstance(r, (list, tuple)) else [r]): register(x)
        return r
    g.__name__ = getattr(fn, '__name__', 'def'); DEFINITIONS.append(g.__name__)
    return g
DEFINITIONS = []
def hint_ok(f):
    if f.get_id() in _ok: return True
    if z3.is_and(f): return all(hint_ok(c) for c in f.children())
    if z3.is_implies(f): return hint_ok(f.arg(1))
    if z3.is_true(z3.simplify(f)): return True
    v = z3.Solver(); v.set('rlimit', 2000000); v.add(z3.Not(f))
    return v.check() == z3.unsat
def check_hint(f):
    if not hint_ok(f): raise SpecMismatch('hint is neither a definition, a lemma instance nor valid: %s' % str(f)[:200])
    return f

class Lemma:
    """stmt(*vars) holds for all vars.  proof(ih, *vars) returns facts: instances ih(...) of the lemma itself at a smaller
    measure (well-founded, checked), of other lemmas, and of definitions."""
    all = []
    def __init__(s, name, sorts, stmt, proof=None, measure=None, theory=(), pat=None, timeout=None, bv=None, cases=None):
        s.name = name; s.sorts = sorts; s.stmt = stmt; s.proof = proof; s.measure = measure; s.theory = list(theory); s.pat = pat
        s.uses = set(); s.timeout = timeout; s.bv = bv; s.cases = cases
        Lemma.all.append(s)
    def inst(s, *a): return register(s.stmt(*a))
    def axiom(s, pat=None):
        """the lemma as a quantified fact (used as theory)"""
        vs = [z3.Const('%s_v%d' % (s.name, i), so) for i, so in enumerate(s.sorts)]
        p = (pat or s.pat)
        body = s.stmt(*vs)
        if p:
            ps = p(*vs); ps = ps if isinstance(ps, list) else [ps]
            return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*x) if isinstance(x, (tuple, list)) else x for x in ps])
        return z3.ForAll(vs, body)
    def obligations(s):
        if s.bv:
            return [Obl('lemma %s (bit-vector)' % s.name, [], s.bv(), 'lemma', 'lemma', s.name)]
        vs = [z3.Const('%s_x%d' % (s.name, i), so) for i, so in enumerate(s.sorts)]
        facts = []
        if s.proof:
            def ih(*a):
                m = s.measure(*a); m0 = s.measure(*vs)
                return register(Implies(And(m >= 0, m < m0), s.stmt(*a)))
            s.uses = set()
            class U:
                def __call__(self, L, *a): s.uses.add(L); return L.inst(*a)
            facts = [check_hint(f) for f in s.proof(ih, U(), *vs)]
        th = [t() if callable(t) else t for t in s.theory]
        for L in getattr(s, 'lemma_theory', []): s.uses.add(L); th.append(L.axiom())
        o = Obl('lemma %s' % s.name, th + facts, s.stmt(*vs), 'lemma', 'lemma', s.name)
        return [o]

# ---------------------------------------------------------------- folds over an opaque monoid
lowbit_def = definition(lowbit_def)
from . import engine as _engine
_engine.CHECK_HINT = check_hint
def _lb_bv():
    out = []
    for w in (32, 64):
        x = z3.BitVec('lbx%d' % w, w); h = z3.LShR(x, 1)
        out.append((x & -x) == If(x == 0, z3.BitVecVal(0, w), If(z3.Extract(0, 0, x) == 1, z3.BitVecVal(1, w), 2 * (h & -h))))
    return And(*out)
# the machine operation x & -x satisfies the recursive definition of lowbit
lowbit_bv = Lemma('lowbit_is_x_and_minus_x', [], lambda: z3.BoolVal(True), bv=_lb_bv)
lb_pos = Lemma('lowbit_pos', [Int], lambda x: Implies(x >= 1, And(1 <= lowbit(x), lowbit(x) <= x)),
    proof=lambda ih, u, x: [u(lowbit_bv), lowbit_def(x), ih(x / 2)], measure=lambda x: x)
BUILTIN_LEMMAS['lowbit'] = lb_pos

class Monoid:
    def __init__(s, sort='T', op='uf_op', e='uf_e', comm=False, idem=False):
        s.T = OSort(sort)
        s.op = UF(op, s.T, s.T, s.T); s.ef = UF(e, s.T); s.e = s.ef()
        s.A = z3.ArraySort(Int, s.T)
        s.fold = UF('fold_' + op, s.A, Int, Int, s.T)
        a, b, c = z3.Consts('ma mb mc', s.T)
        s.ax = [z3.ForAll([a, b, c], s.op(s.op(a, b), c) == s.op(a, s.op(b, c)), patterns=[s.op(s.op(a, b), c), s.op(a, s.op(b, c))]),
                z3.ForAll([a], s.op(a, s.e) == a, patterns=[s.op(a, s.e)]), z3.ForAll([a], s.op(s.e, a) == a, patterns=[s.op(s.e, a)])]
        s.comm = definition(lambda x, y: s.op(x, y) == s.op(y, x))     # instances only: a commutativity axiom makes the solvers loop
        s.assoc = definition(lambda x, y, z: s.op(s.op(x, y), z) == s.op(x, s.op(y, z)))
        s.is_comm = comm
        if idem: s.ax.append(z3.ForAll([a], s.op(a, a) == a, patterns=[s.op(a, a)]))
        s.lemmas()
    def defn(s, A, l, r):
        """definition of fold at (A,l,r): empty -> e; else fold(A,l,r-1)*A[r-1]"""
        return register(And(Implies(r <= l, s.fold(A, l, r) == s.e), Implies(r > l, s.fold(A, l, r) == s.op(s.fold(A, l, r - 1), A[r - 1]))))
    def lemmas(s):
        f, op = s.fold, s.op
        # fold(l,r) = fold(l,m) * fold(m,r)
        s.split = Lemma('fold_split_' + s.fold.name(), [s.A, Int, Int, Int],
            lambda A, l, m, r: Implies(And(l <= m, m <= r), f(A, l, r) == op(f(A, l, m), f(A, m, r))),
            proof=lambda ih, u, A, l, m, r: [ih(A, l, m, r - 1), s.defn(A, l, r), s.defn(A, m, r), s.defn(A, l, m)],
            measure=lambda A, l, m, r: r - m, theory=s.ax)
        s.left = Lemma('fold_left_' + s.fold.name(), [s.A, Int, Int],
            lambda A, l, r: Implies(l < r, f(A, l, r) == op(A[l], f(A, l + 1, r))),
            proof=lambda ih, u, A, l, r: [u(s.split, A, l, l + 1, r), s.defn(A, l, l + 1), s.defn(A, l, l)], measure=lambda A, l, r: r - l, theory=s.ax)
        # extensionality
        s.ext = Lemma('fold_ext_' + s.fold.name(), [s.A, s.A, Int, Int, Int],
            lambda A, B_, l, r, d: Implies(forall(1, lambda i: Implies(And(l <= i, i < r), A[i] == B_[i + d]), pat=lambda i: A[i]), f(A, l, r) == f(B_, l + d, r + d)),
            proof=lambda ih, u, A, B_, l, r, d: [ih(A, B_, l, r - 1, d), s.defn(A, l, r), s.defn(B_, l + d, r + d), A[r - 1] == A[r - 1]],
            measure=lambda A, B_, l, r, d: r - l, theory=s.ax)

class AbGroup(Monoid):
    """abelian group with a proof-producing AC normaliser: norm(t) returns the law instances that bring t to a sorted sum"""
    def __init__(s, sort='T', op='uf_op', e='uf_e', neg='uf_neg'):
        s.neg = UF(neg, OSort(sort), OSort(sort))
        Monoid.__init__(s, sort, op, e, comm=True)
        s.inv = definition(lambda x: s.op(x, s.neg(x)) == s.e)
        T = s.T; o = s.op
        s.cancel = Lemma('grp_cancel', [T, T], lambda x, y: Implies(o(x, y) == s.e, y == s.neg(x)),
            proof=lambda ih, u, x, y: [s.inv(x), s.comm(x, s.neg(x)), s.assoc(s.neg(x), x, y)], theory=s.ax)
        s.negop = Lemma('grp_neg_sum', [T, T], lambda x, y: s.neg(o(x, y)) == o(s.neg(x), s.neg(y)),
            proof=lambda ih, u, x, y: [s.inv(x), s.inv(y), u(s.cancel, o(x, y), o(s.neg(x), s.neg(y)))] + s.norm(o(o(x, y), o(s.neg(x), s.neg(y))), u), theory=s.ax)
        s.negneg = Lemma('grp_neg_neg', [T], lambda x: s.neg(s.neg(x)) == x, proof=lambda ih, u, x: [s.inv(x), s.comm(x, s.neg(x)), u(s.cancel, s.neg(x), x)], theory=s.ax)
        s.nege = Lemma('grp_neg_zero', [], lambda: s.neg(s.e) == s.e, proof=lambda ih, u: [u(s.cancel, s.e, s.e)], theory=s.ax)
    def norm(s, t, u, key=None):
        """u(L, *args) registers a lemma use; returns hints"""
        H = []; o, neg, e = s.op, s.neg, s.e
        isop = lambda x: x.decl().eq(o) if z3.is_app(x) else False
        isneg = lambda x: x.decl().eq(neg) if z3.is_app(x) else False
        def k(x): return (str(x.arg(0)), 1) if isneg(x) else (str(x), 0)
        def insert(x, m):                       # op(x, m), m sorted right-nested (or e)
            if m.eq(e): return x
            y = m.arg(0) if isop(m) else m
            if isneg(y) and y.arg(0).eq(x) or isneg(x) and x.arg(0).eq(y):
                H.append(s.inv(y.arg(0) if isneg(y) else y))
                if isneg(x): H.append(s.comm(x, y))
                if isop(m): H.append(s.assoc(x, y, m.arg(1))); return m.arg(1)
                return e
            if k(x) <= k(y): return o(x, m)
            H.append(s.comm(x, y))
            if not isop(m): return o(y, x)
            r = m.arg(1); H.append(s.assoc(x, y, r)); H.append(s.assoc(y, x, r))
            n = insert(x, r)
            return y if n.eq(e) else o(y, n)
        def merge(a, b):
            if a.eq(e): return b
            if isop(a):
                H.append(s.assoc(a.arg(0), a.arg(1), b)); return insert(a.arg(0), merge(a.arg(1), b))
            return insert(a, b)
        def go(x):
            if isop(x): return merge(go(x.arg(0)), go(x.arg(1)))
            if isneg(x):
                a = go(x.arg(0))
                if a.eq(e): H.append(u(s.nege)); return e
                if isneg(a): H.append(u(s.negneg, a.arg(0))); return a.arg(0)
                if isop(a): H.append(u(s.negop, a.arg(0), a.arg(1))); return merge(go(neg(a.arg(0))), go(neg(a.arg(1))))
                return neg(a)
            return x
        s.last = go(t)
        return H
    def eqhint(s, view, *ts):
        for t in ts:
            for h in s.norm(t, lambda L, *a: view.ex.use_lemma(L, a)): view.assume_def(h)
