"""irv: verification-condition generator over LLVM IR of the real headers.

Value-semantics memory (roots x leaf shapes -> SMT terms), path enumeration between cut points, loops cut by
invariants, calls replaced by contracts.  Machine integers are mathematical integers with explicit ranges (mode
'int') or bit vectors (mode 'bv')."""
import re, z3
from .irparse import *
from .dwarf import Dw

class Unsupported(Exception): pass          # outside the verifier's reach
class SpecMismatch(Exception): pass         # the contract no longer fits the shape of the code

IntS = z3.IntSort(); BoolS = z3.BoolSort()
_cnt = [0]
def fresh_name(p):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])

class Root:
    def __init__(s, name, ty, di=None, kind='arg'):
        s.name = name; s.ty = ty; s.di = di; s.kind = kind; s.uid = name; s.arr_di = None; s.gname = None
    def __repr__(s): return 'Root(%s)' % s.name

class Ptr:
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root = root; s.path = tuple(path)
    def __repr__(s): return 'Ptr(%s,%s)' % (s.root and s.root.name, s.path)
NULL = Ptr(None, ())

class PInt:       # ptrtoint of a pointer
    __slots__ = ('p',)
    def __init__(s, p): s.p = p

class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n

class V:
    """integer value: term, width, kind: S signed, U unsigned, B bool (w=1), O opaque sort, V bit vector, F float"""
    __slots__ = ('t', 'w', 'k')
    def __init__(s, t, w, k): s.t = t; s.w = w; s.k = k
    def __repr__(s): return '%s:%s%d' % (s.t, s.k, s.w)

class Agg:
    __slots__ = ('els',)
    def __init__(s, els): s.els = list(els)

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

def rng(w, k):
    if k == 'S': return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1

_uf = {}
def UF(name, *sorts):
    key = (name,) + tuple(str(x) for x in sorts)
    if key not in _uf: _uf[key] = z3.Function(name, *sorts)
    return _uf[key]
_sorts = {}
def OSort(name):
    if name not in _sorts: _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]

pow2 = z3.Function('pow2', IntS, IntS)
band = z3.Function('band', IntS, IntS, IntS)
bor = z3.Function('bor', IntS, IntS, IntS)
bxor = z3.Function('bxor', IntS, IntS, IntS)
popcnt = z3.Function('popcnt', IntS, IntS)
ctzf = z3.Function('ctz', IntS, IntS)
clz32 = z3.Function('clz32', IntS, IntS)
clz64 = z3.Function('clz64', IntS, IntS)
lowbit = z3.Function('lowbit', IntS, IntS)
BUILTIN_LEMMAS = {}
def lowbit_def(x): return lowbit(x) == z3.If(x <= 0, 0, z3.If(x % 2 == 1, 1, 2 * lowbit(x / 2)))

def is_lit(t): return z3.is_int_value(t)
def lit(t): return t.as_long()

def has_quant(e, memo={}):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False

def has_ite(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return True
        st.extend(x.children())
    return False

class Obl:
    __slots__ = ('name', 'facts', 'goal', 'fn', 'kind', 'loc', 'status', 'solver', 'time', 'smt', 'model', 'bv', 'inputs', '_th')
    def __init__(s, name, facts, goal, fn, kind, loc):
        s.name = name; s.facts = facts; s.goal = goal; s.fn = fn; s.kind = kind; s.loc = loc
        s.status = None; s.solver = None; s.time = 0.0; s.smt = None; s.model = None; s.bv = False; s.inputs = None

class State:
    __slots__ = ('env', 'mem', 'pc', 'loops', 'written', 'visits', 'alloc', 'cur')
    def __init__(s):
        s.env = {}; s.mem = {}; s.pc = []; s.loops = {}; s.written = {}; s.visits = {}; s.alloc = None; s.cur = None
    def copy(s):
        n = State(); n.env = dict(s.env); n.mem = dict(s.mem); n.pc = list(s.pc); n.loops = dict(s.loops)
        n.written = s.written; n.visits = dict(s.visits); n.alloc = s.alloc; n.cur = s.cur
        return n

class LoopSpec:
    def __init__(s, inv=None, dec=None, use=None, unroll=None, havoc=None, name=None, head=None):
        s.inv = inv; s.dec = dec; s.use = use; s.unroll = unroll; s.name = name; s.havoc = havoc; s.head = head

class FnSpec:
    def __init__(s, name, requires=None, ensures=None, loops=(), theory=(), use=None, pre=None, modifies=None, mode='int',
                 noalias=True, params=None, inline_ok=False, dec=None, variant=None, wrapok=(), unroll=None, recursive=False,
                 only_kinds=None, nowrap=False, dist=True, at=None, match=None):
        if match: s.match = match
        s.at = at or {}          # ghost code executed when a source variable is assigned: {name: hook(view, value)}
        s.name = name; s.requires = requires; s.ensures = ensures; s.loops = list(loops); s.theory = list(theory)
        s.use = use; s.pre = pre; s.modifies = modifies; s.mode = mode; s.params = params; s.dec = dec; s.unroll = unroll
        s.wrapok = wrapok; s.recursive = recursive; s.nowrap = nowrap

def aslist(x, pre):
    """normalise the result of a spec function into [(label, formula)]"""
    if x is None: return []
    if isinstance(x, (list, tuple)):
        out = []
        if len(x) == 2 and isinstance(x[0], str): return [(x[0], B(x[1]))]
        for i, e in enumerate(x):
            if e is None: continue
            if isinstance(e, (list, tuple)) and len(e) == 2 and isinstance(e[0], str): out.append((e[0], B(e[1])))
            elif isinstance(e, (list, tuple)): out += [(n, f) for n, f in aslist(e, pre)]
            else: out.append(('%s%d' % (pre, len(out)), B(e)))
        return out
    return [(pre, B(x))]

def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def dominators(f):
    order = rpo(f); idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in f.blocks[b].succs():
            if s in preds: preds[s].append(b)
    dom = {b: set(order) for b in order}; dom[order[0]] = {order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            n = set.intersection(*[dom[p] for p in preds[b]]) | {b} if preds[b] else {b}
            if n != dom[b]: dom[b] = n; ch = True
    return order, preds, dom

def rpo(f):
    seen = set(); out = []
    st = [(f.order[0], iter(f.blocks[f.order[0]].succs()))]; seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(f.blocks[s].succs()))); break
        else:
            out.append(b); st.pop()
    return out[::-1]

def find_loops(f):
    """[(header, body set)] in RPO order of headers"""
    order, preds, dom = dominators(f)
    loops = {}
    for b in order:
        for s in f.blocks[b].succs():
            if s in dom[b]:
                body = loops.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(preds[x])
    return [(h, loops[h]) for h in order if h in loops]

class View:
    """what specifications see of a state"""
    def __init__(s, ex, st, args, old=None, res=None, loop=None, prev=None, extra=None):
        s.ex = ex; s.st = st; s.args = args; s._old = old; s.res = res; s.loop = loop; s.prev = prev; s.extra = extra or {}
        s.facts = None
    @property
    def old(s): return s._old if s._old is not None else s
    # -------- names
    def ptr(s, name):
        """pointer designated by 'root.field.field' """
        parts = name.split('.')
        p = s.base(parts[0])
        for m in parts[1:]: p = s.ex.member(p, m)
        return p
    def base(s, nm):
        if nm in s.extra: return s.extra[nm]
        if nm == 'sret': nm = 'agg.result'
        if nm == 'tmp': nm = 'ref.tmp'
        if nm in s.args:
            a = s.args[nm]
            if isinstance(a, Ptr): return a
            if isinstance(a, Root): return Ptr(a)
        r = s.ex.local_root(nm, s.loop)
        if r is not None: return Ptr(r)
        for g in s.ex.M.globals:
            if g == nm or g.endswith(('E%d%s' % (len(nm), nm), 'E%d%sE' % (len(nm), nm))): return Ptr(s.ex.unit.global_root(g))
        raise SpecMismatch('no object named %r in %s' % (nm, s.ex.f.name))
    def at(s, name, *idx):
        """pointer to element idx of the ghost container name (its __e) """
        p = s.ptr(name) if isinstance(name, str) else name
        return s.ex.elem(p, idx[0]) if len(idx) == 1 else s.at(s.ex.elem(p, idx[0]), *idx[1:])
    def __call__(s, name, *fields):
        """term held by a leaf (array term if it has element dimensions)"""
        if isinstance(name, str) and name in s.args and isinstance(s.args[name], V): return s.args[name].t
        p = s.ptr(name) if isinstance(name, str) else name
        for m in fields: p = s.ex.member(p, m)
        return s.ex.read_term(s.st, p)
    def n(s, name):
        p = s.ptr(name) if isinstance(name, str) else name
        return s.ex.read_term(s.st, s.ex.member(p, '__n'))
    def e(s, name, *fields):
        """array term with the elements of vector name (field path inside elements optional)"""
        p = s.ptr(name) if isinstance(name, str) else name
        return s.ex.named_array(s.ex.read_elems(s.st, p, fields))
    def v(s, name):
        return s.ex.loopvar(s.st, s.loop, name)
    def has(s, name):
        try: s.v(name); return True
        except SpecMismatch: return False
    # -------- hints
    def lemma(s, L, *args):
        s.facts.append(s.ex.use_lemma(L, args))
    def lemma_all(s, L, q):
        """universal closure of instances of a lemma: q = forall(k, lambda ...: L.inst(...))"""
        s.ex.lemmas_used.add(L)
        s.facts.append(CHECK_HINT(q))
    def assume_def(s, f):
        """instance of a definition (checked)"""
        s.facts.append(CHECK_HINT(f))
    def have(s, label, f):
        s.ex.oblige(s.st, 'have ' + label, B(f), 'have', extra=s.facts)
        s.facts.append(B(f))
    def focus(s, label, f, given, hints=(), abstract=()):
        """prove f from the given facts (each proved in the full context) and lemma instances only"""
        for g in given: s.ex.oblige(s.st, 'have ' + label, B(g), 'have', extra=s.facts)
        hs = []
        for h in hints: hs.append(s.ex.use_lemma(h[0], h[1:]) if isinstance(h, tuple) else CHECK_HINT(h))
        sub = [(t, z3.Const(fresh_name('abs'), t.sort())) for t in abstract if not z3.is_const(t)]       # generalise: terms become arbitrary values
        A = (lambda x: z3.substitute(B(x), *sub)) if sub else B
        o = Obl('%s/%s' % (s.ex.spec.name, label), [A(g) for g in given] + [A(h) for h in hs], A(f), s.ex.f.name, 'have', s.ex.f.name)
        o.bv = s.ex.bv; s.ex.obls.append(o)
        s.facts.append(B(f))

CHECK_HINT = None
class Exec:
    def __init__(s, unit, f, spec):
        s.unit = unit; s.M = unit.M; s.f = finish_func(f); s.spec = spec; s.dw = unit.dw
        s.obls = []; s.inlined_checks = 0; s.gdefs = []; s.named = {}
        s.bnd = {}            # ast id -> (lo, hi)
        s.keep = []           # keep asts alive
        s.qs = z3.Solver(); s.qs.set('rlimit', unit.quick_rlimit); s.qs.set('auto_config', False); s.qs.set('smt.mbqi', False)
        s.loops = find_loops(f); s.modset = {h: {} for h, _ in s.loops}
        s.loopbody = dict(s.loops)
        s.bv = spec.mode == 'bv'
        s.quick = 0; s.quick_n = 0; s.paths = 0; s.lemmas_used = set()
        s.assumed = set(); s.kindcache = {}
        s.dbgmap()
        s.restart = False
        s.dead = False

    # ------------------------------------------------------------ debug info: SSA/alloca -> source variables
    def dbgmap(s):
        s.varof = {}; s.allocavar = {}
        M = s.M
        for bn in s.f.order:
            for I in s.f.blocks[bn].ins:
                if I.op != 'dbg': continue
                m = re.match(r'(?:tail )?call void @llvm\.dbg\.(declare|value)\(metadata (?:\S+) (%(?:"[^"]*"|[-\w$.]+)), metadata !(\d+), metadata (.*?)\)(?:, !dbg !(\d+))?', I.raw)
                if not m: continue
                kind, val, var, dex, dbg = m.groups()
                if 'DW_OP' in dex and kind == 'value': continue
                nm = M.md_field(int(var), 'name'); di = M.md_field(int(var), 'type')
                val = unq(val)
                ia = M.md_field(int(dbg), 'inlinedAt') if dbg else None
                depth = 0
                while ia is not None: depth += 1; ia = M.md_field(ia, 'inlinedAt')
                if kind == 'declare': s.allocavar.setdefault(val, (nm, di, depth))
                else: s.varof.setdefault(val, []).append((nm, di, depth, bn))

    def param_types(s, f):
        """DWARF types of the parameters of an extern C wrapper"""
        if f.dbg is None: return {}
        t = s.M.md_field(f.dbg, 'type'); l = s.M.md_field(t, 'types') if t is not None else None
        if l is None: return {}
        txt = s.M.md(l)
        items = re.findall(r'null|!(\d+)', txt[txt.index('{') + 1:] if '{' in txt else '')
        items = re.findall(r'(?:null|!\d+)', txt[txt.index('{') + 1:])
        tys = [None if x == 'null' else int(x[1:]) for x in items]
        ps = [p for p in f.params if 'sret' not in p[2]]
        r = {p[1]: d for p, d in zip(ps, tys[1:])}
        for p in f.params:
            if 'sret' in p[2] and tys: r[p[1]] = tys[0]
        return r

    # ------------------------------------------------------------ types and leaves
    def ty_at(s, p):
        t = p.root.ty
        for st in p.path:
            r = s.M.resolve(t)
            if isinstance(st, int): t = r.els[st]
            else: t = r.el
        return t
    def di_at(s, p):
        return s.root_di(p.root, p.path)
    def root_di(s, root, path):
        if root.arr_di is not None and path: return s.walk_di(s.M.resolve(root.ty).el, root.arr_di, path[1:])
        return s.walk_di(root.ty, root.di, path)
    def walk_di(s, t, di, path):
        for st in path:
            if t.k == 'named' and di is not None: s.unit.named_di.setdefault(t.name, di)
            if t.k == 'named' and di is None: di = s.unit.named_di.get(t.name)
            r = s.M.resolve(t)
            if isinstance(st, int):
                f = s.dw.field(di, t, st) if di is not None else None
                di = f[1] if f else None; t = r.els[st]
            else:
                di = s.dw.elem(di) if di is not None else None; t = r.el
        if t.k == 'named' and di is None: di = s.unit.named_di.get(t.name)
        return di

    def leaves(s, t, pre=()):
        """leaf shapes below type t: [(path with 'x' for element steps, leaf type, enclosing named type)]"""
        key = (repr(t))
        c = s.unit.leafcache.get(key)
        if c is None:
            c = []
            r = s.M.resolve(t)
            if r.k == 'struct':
                for i, e in enumerate(r.els):
                    for (p, lt, en) in s.leaves(e): c.append(((i,) + p, lt, en or (t.name if t.k == 'named' else None)))
            elif r.k == 'arr':
                for (p, lt, en) in s.leaves(r.el): c.append((('x',) + p, lt, en))
            elif r.k == 'opaque': pass
            else: c.append(((), r, None))
            s.unit.leafcache[key] = c
        return c

    def leaf_kind(s, root, shape, lt, en=None):
        """(sort-kind, width) of a leaf"""
        key = (root.uid, shape)
        k = s.kindcache.get(key)
        if k: return k
        path = tuple(('x', None) if q == 'x' else q for q in shape)
        # opaque element sorts
        t = root.ty; osort = s.unit.opaque.get(t.name) if t.k == 'named' else None
        for st in shape:
            r = s.M.resolve(t); t = r.els[st] if isinstance(st, int) else r.el
            if t.k == 'named' and t.name in s.unit.opaque: osort = s.unit.opaque[t.name]
        if osort: k = ('O', 64, osort)
        elif lt.k == 'ptr': k = ('P', 64, None)
        elif lt.k == 'float': k = ('F', 64, lt.name)
        else:
            di = s.root_di(root, path)
            enc = s.dw.enc(di) if di is not None else None
            if enc not in ('S', 'U', 'B'): enc = 'S' if lt.w > 8 else 'U'
            if enc == 'B': enc = 'b'
            k = (enc, lt.w, None)
        s.kindcache[key] = k
        return k

    def ksort(s, k):
        if k[0] == 'O': return OSort(k[2])
        if k[0] == 'P': return IntS
        if k[0] == 'F': return OSort('Float_' + k[2])
        if s.bv: return z3.BitVecSort(k[1])
        return IntS
    def isort(s): return z3.BitVecSort(64) if s.bv else IntS

    def leaf_sort(s, k, dims):
        so = s.ksort(k)
        for _ in range(dims): so = z3.ArraySort(s.isort(), so)
        return so

    def shape(s, path): return tuple(st if isinstance(st, int) else 'x' for st in path)
    def idxs(s, path): return [st[1] for st in path if not isinstance(st, int)]

    def base_term(s, st, root, shape, lt):
        key = (root.uid, shape)
        t = st.mem.get(key)
        if t is None:
            k = s.leaf_kind(root, shape, lt)
            if root.kind == 'global':
                g = s.global_init(st, root, shape, lt, k)
                if g is not None: st.mem[key] = g; return g
            if k[0] == 'P' and 'x' not in shape and root.kind != 'heap' and not s.heap_of_leaf(root, shape):
                return None
            nm = '%s.%s' % (root.name, '.'.join(map(str, shape)))
            t = z3.Const(nm + '@0' if root.kind != 'alloca' else fresh_name(nm), s.leaf_sort(k, sum(1 for q in shape if q == 'x')))
            s.keep.append(t); st.mem[key] = t
            s.bound_leaf(t, k)
        return t

    def global_init(s, st, root, shape, lt, k):
        ty, init, const = s.M.globals[root.gname]
        if init is None or not const: return None
        def rec(v, t, sh):
            r = s.M.resolve(t)
            if not sh:
                if v[0] == 'zero': return s.ival(0, lt.w) if lt.k == 'int' else None
                x = s.val(st, v, lt)
                if isinstance(x, V): return x.t if s.bv else s.tokind(x, k[0]) if k[0] in 'SUb' else x.t
                return x
            if isinstance(sh[0], int):
                if v[0] == 'zero': return rec(v, r.els[sh[0]], sh[1:])
                if v[0] != 'agg': return None
                return rec(v[1][sh[0]][1], r.els[sh[0]], sh[1:])
            if v[0] == 'zero': es = [v]
            elif v[0] == 'str': es = [('int', c) for c in v[1]]
            elif v[0] == 'agg': es = [e[1] for e in v[1]]
            else: return None
            ts = [rec(e, r.el, sh[1:]) for e in es]
            if any(x is None or isinstance(x, (Ptr, FnPtr)) for x in ts): return None
            a = z3.K(s.isort(), ts[-1])
            for i, x in enumerate(ts[:-1]): a = z3.Store(a, s.ival(i), x)
            return a
        return rec(init, ty, shape)

    def heap_of_leaf(s, root, shape):
        if not s.unit.heaps: return None
        path = tuple(('x', None) if q == 'x' else q for q in shape)
        di = s.root_di(root, path)
        if di is None: return None
        pd = s.dw.pointee(di)
        nm = s.dw.name(pd) if pd is not None else None
        return s.unit.heap_root(nm) if nm else None

    def bound_leaf(s, t, k):
        """range facts of the base leaf"""
        pass

    def sel(s, t, idx):
        for i in idx: t = z3.Select(t, i)
        return t
    def sto(s, t, idx, v):
        if not idx: return v
        if len(idx) == 1: return z3.Store(t, idx[0], v)
        return z3.Store(t, idx[0], s.sto(z3.Select(t, idx[0]), idx[1:], v))

    def leaf_of(s, p):
        """descend from p to its first scalar leaf"""
        t = s.ty_at(p); path = list(p.path)
        while True:
            r = s.M.resolve(t)
            if r.k == 'struct':
                # skip empty leading members
                path.append(0); t = r.els[0]
            elif r.k == 'arr':
                path.append(('x', s.ival(0))); t = r.el
            else: return Ptr(p.root, path), r

    def read_term(s, st, p):
        """term at p; p may stop above element dimensions of a single leaf"""
        t = s.ty_at(p); r = s.M.resolve(t); ext = ()
        ls = s.leaves(t)
        if len(ls) != 1: raise SpecMismatch('not a single leaf: %s (%r)' % (p, t))
        sh = s.shape(p.path) + ls[0][0]
        base = s.base_term(st, p.root, sh, ls[0][1])
        out = s.sel(base, s.idxs(p.path))
        return out

    def read_elems(s, st, p, fields):
        if p.path and not isinstance(p.path[-1], int) and p.root.name.startswith('arr_') and len(p.path) == 1: p = Ptr(p.root)
        t = s.M.resolve(s.ty_at(p))
        # ghost container: the __e member
        try: q = s.member(p, '__e')
        except SpecMismatch: q = p
        r = s.M.resolve(s.ty_at(q))
        if r.k != 'arr': raise SpecMismatch('not an array: %s' % (p,))
        pp = Ptr(q.root, q.path + (('x', None),))
        for m in fields: pp = s.member(pp, m)
        ls = s.leaves(s.ty_at(pp))
        if len(ls) != 1: raise SpecMismatch('not a single leaf: %s' % (pp,))
        base = s.base_term(st, pp.root, s.shape(pp.path) + ls[0][0], ls[0][1])
        return s.sel(base, s.idxs(q.path))

    def named_array(s, t):
        """a constant for an array term whose indices contain conditionals (those cannot appear in patterns)"""
        if not has_ite(t): return t
        k = t.get_id()
        if k not in s.named:
            c = z3.Const(fresh_name('arr'), t.sort()); s.named[k] = (c, t); s.gdefs.append(c == t)
        return s.named[k][0]

    def elem(s, p, i):
        try: q = s.member(p, '__e')
        except SpecMismatch: q = p
        return Ptr(q.root, q.path + (('x', i if not isinstance(i, int) else s.ival(i)),))

    def member(s, p, name):
        t = s.ty_at(p); di = s.di_at(p)
        r = s.member_path(t, di, name)
        if r is None and name.startswith('#'): r = (int(name[1:]),)
        if r is None:
            r = s.unit.member_fallback(s, t, di, name)
        if r is None: raise SpecMismatch('no member %r in %r' % (name, t))
        return Ptr(p.root, p.path + r)
    def member_path(s, t, di, name):
        r = s.M.resolve(t)
        if r.k != 'struct': return None
        if di is None and t.k == 'named': di = s.unit.named_di.get(t.name)
        if di is None: return None
        for i in range(len(r.els)):
            f = s.dw.field(di, t, i)
            if f and f[0] == name: return (i,)
        for i in range(len(r.els)):
            f = s.dw.field(di, t, i)
            if f and (f[0] is None or f[0] == ''):
                q = s.member_path(r.els[i], f[1], name)
                if q is not None: return (i,) + q
        return None

    # ------------------------------------------------------------ values
    def ival(s, n, w=64):
        return z3.BitVecVal(n, w) if s.bv else z3.IntVal(n)
    def const(s, n, ty):
        if ty.k == 'int':
            if ty.w == 1: return V(z3.BoolVal(bool(n & 1)), 1, 'B')
            if s.bv: return V(z3.BitVecVal(n, ty.w), ty.w, 'V')
            lo, hi = rng(ty.w, 'S')
            n = (n - lo) % (1 << ty.w) + lo
            return V(z3.IntVal(n), ty.w, 'S')
        raise Unsupported('const %r' % ty)

    def val(s, st, v, ty):
        k = v[0]
        if k == 'loc':
            if v[1] not in st.env: raise Unsupported('undefined value %' + v[1])
            return st.env[v[1]]
        if k == 'int': return s.const(v[1], ty)
        if k == 'null': return NULL
        if k == 'undef':
            if ty.k == 'int' and ty.w > 1 and not s.bv: return s.fresh_int(st, 'undef', ty.w, 'S')
            if ty.k == 'int' and ty.w > 1: return V(z3.BitVec(fresh_name('undef'), ty.w), ty.w, 'V')
            if ty.k == 'int': return V(z3.Bool(fresh_name('undef')), 1, 'B')
            r = s.M.resolve(ty)
            if r.k == 'struct': return Agg([UNDEF] * len(r.els))
            return UNDEF
        if k == 'zero':
            r = s.M.resolve(ty)
            if r.k == 'int': return s.const(0, r)
            if r.k == 'ptr': return NULL
            if r.k == 'struct': return Agg([s.val(st, v, e) for e in r.els])
        if k == 'agg':
            return Agg([s.val(st, x, t) for t, x in v[1]])
        if k == 'glob':
            nm = v[1]
            if nm in s.M.globals: return Ptr(s.unit.global_root(nm))
            return FnPtr(nm)
        if k == 'cgep':
            b = s.val(st, v[2], PTR)
            idx = [(Ty('int', w=64), x) for x in v[3]]
            return s.gep(st, v[1], b, [s.val(st, x, t) for t, x in idx])
        if k == 'fp': return V(z3.Const('fp_' + v[1], OSort('Float_' + (ty.name or ''))), 64, 'F')
        raise Unsupported('value %r' % (v,))

    def fresh_int(s, st, nm, w, k):
        t = z3.Int(fresh_name(nm)); s.keep.append(t)
        lo, hi = rng(w, k)
        if k == 'b': lo, hi = 0, 1; k = 'U'
        s.setb(t, lo, hi); s.fact(st, z3.And(t >= lo, t <= hi))
        return V(t, w, k)

    def setb(s, t, lo, hi):
        s.keep.append(t); s.bnd[t.get_id()] = (lo, hi)

    def bounds(s, t):
        """syntactic interval (lo, hi), None = unbounded"""
        i = t.get_id()
        r = s.bnd.get(i)
        if r: return r
        if z3.is_int_value(t): n = t.as_long(); return (n, n)
        r = (None, None)
        if z3.is_app(t):
            d = t.decl().kind()
            if d == z3.Z3_OP_ADD:
                lo = hi = 0
                for c in t.children():
                    a, b = s.bounds(c)
                    lo = None if lo is None or a is None else lo + a
                    hi = None if hi is None or b is None else hi + b
                r = (lo, hi)
            elif d == z3.Z3_OP_SUB:
                cs = t.children(); lo, hi = s.bounds(cs[0])
                for c in cs[1:]:
                    a, b = s.bounds(c)
                    lo = None if lo is None or b is None else lo - b
                    hi = None if hi is None or a is None else hi - a
                r = (lo, hi)
            elif d == z3.Z3_OP_MUL and t.num_args() == 2:
                (a, b), (c, e) = s.bounds(t.arg(0)), s.bounds(t.arg(1))
                if None not in (a, b, c, e):
                    q = [a * c, a * e, b * c, b * e]; r = (min(q), max(q))
                elif a is not None and c is not None and a >= 0 and c >= 0:
                    r = (a * c, None)
            elif d == z3.Z3_OP_ITE:
                (a, b), (c, e) = s.bounds(t.arg(1)), s.bounds(t.arg(2))
                r = (None if a is None or c is None else min(a, c), None if b is None or e is None else max(b, e))
            elif d == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and lit(t.arg(1)) > 0:
                a, b = s.bounds(t.arg(0)); c = lit(t.arg(1))
                r = (None if a is None else a // c, None if b is None else b // c)
            elif d == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and lit(t.arg(1)) > 0:
                a, b = s.bounds(t.arg(0)); c = lit(t.arg(1))
                r = (0, c - 1 if b is None or a is None or a < 0 else min(b, c - 1))
            elif d == z3.Z3_OP_MOD:
                c, e = s.bounds(t.arg(1)); a, b = s.bounds(t.arg(0))
                if c is not None and c > 0: r = (0, e - 1 if e is not None else None)
            elif d == z3.Z3_OP_IDIV:
                (a, b), (c, e) = s.bounds(t.arg(0)), s.bounds(t.arg(1))
                if a is not None and a >= 0 and c is not None and c > 0: r = (0, b)
            elif d == z3.Z3_OP_UMINUS:
                a, b = s.bounds(t.arg(0)); r = (None if b is None else -b, None if a is None else -a)
        s.keep.append(t); s.bnd[i] = r
        return r

    def prove(s, g, n=1):
        """cheap in-path proof attempt with ground facts"""
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        s.quick_n += 1
        s.qs.push(); s.qs.add(z3.Not(g)); r = s.qs.check(); s.qs.pop()
        return r == z3.unsat

    def inrange(s, t, lo, hi):
        a, b = s.bounds(t)
        if a is not None and b is not None and a >= lo and b <= hi: return True
        if a is not None and a > hi or b is not None and b < lo: return False
        c = []
        if a is None or a < lo: c.append(t >= lo)
        if b is None or b > hi: c.append(t <= hi)
        return s.prove(z3.And(c))

    def S(s, v):
        """signed reading"""
        if v.k == 'S' or v.k == 'O' or v.k == 'V': return v.t
        if v.k == 'B': return z3.If(v.t, z3.IntVal(-1), z3.IntVal(0))
        if is_lit(v.t):
            n = lit(v.t); h = 1 << (v.w - 1)
            return z3.IntVal((n + h) % (1 << v.w) - h)
        h = 1 << (v.w - 1)
        if s.inrange(v.t, 0, h - 1): return v.t
        if s.prove(v.t >= h): return v.t - (1 << v.w)
        return z3.If(v.t >= h, v.t - (1 << v.w), v.t)
    def U(s, v):
        if v.k == 'U' or v.k == 'O' or v.k == 'V': return v.t
        if v.k == 'B': return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if is_lit(v.t): return z3.IntVal(lit(v.t) % (1 << v.w))
        if s.inrange(v.t, 0, 1 << v.w): return v.t
        if s.prove(v.t < 0): return v.t + (1 << v.w)
        return z3.If(v.t < 0, v.t + (1 << v.w), v.t)
    def asbool(s, v):
        if v.k == 'B': return v.t
        if v.k == 'V': return v.t == 1
        return v.t % 2 == 1
    def tokind(s, v, k):
        """integer term of v read as kind k"""
        if isinstance(v, Undef): raise Unsupported('undef used')
        if k == 'b':
            t = s.U(v) if not s.bv else v.t
            return t
        if k == 'S': return s.S(v)
        return s.U(v)

    def fact(s, st, f):
        f = B(f)
        if z3.is_true(f): return
        st.pc.append(f)
        if not has_quant(f): s.qs.add(f)

    # ------------------------------------------------------------ obligations
    def loc(s, I):
        if I is None or I.dbg is None: return s.f.name
        dbg = I.dbg; last = None; k = 0
        while dbg is not None and k < 60:
            r = s.M.line(dbg)
            fn, ln, ia, sc = r
            fl = s.M.md_field(sc, 'file') if sc is not None else None
            fname = s.M.md_field(fl, 'filename') if fl is not None else ''
            dirn = s.M.md_field(fl, 'directory') if fl is not None else ''
            if 'library/' in (fname or ''): return '%s:%d (%s)' % (fname[fname.index('library/'):], ln, fn)
            last = '%s:%d (%s)' % ((fname or '').split('/')[-1], ln, fn)
            dbg = ia; k += 1
        return last or s.f.name

    def oblige(s, st, name, goal, kind, I=None, extra=(), quick=True, assume=False):
        goal = B(goal)
        if s.dead: return
        if quick:
            g = z3.simplify(goal)
            if z3.is_true(g): s.quick += 1; return
            if not has_quant(g) and s.prove(g):
                s.quick += 1
                return
        o = Obl('%s/%s' % (s.spec.name, name), list(st.pc) + list(extra) + s.gdefs, goal, s.f.name, kind, s.loc(I) if I is not None else s.f.name)
        o.bv = s.bv
        s.obls.append(o)

    def use_lemma(s, L, args):
        s.lemmas_used.add(L); return L.inst(*args)

    # ------------------------------------------------------------ pointers
    def same_ty(s, a, b):
        if a is b: return True
        if a.k == 'named' or b.k == 'named':
            return a.k == b.k and a.name == b.name
        return repr(a) == repr(b)

    def align_to(s, p, ty):
        """reinterpret p as pointing to an object of type ty by descending to / ascending from first members"""
        if s.same_ty(s.ty_at(p), ty): return p
        # descend
        q = p; n = 0
        while n < 12:
            r = s.M.resolve(s.ty_at(q))
            if r.k == 'struct' and r.els: q = Ptr(q.root, q.path + (0,))
            elif r.k == 'arr': q = Ptr(q.root, q.path + (('x', s.ival(0)),))
            else: break
            if s.same_ty(s.ty_at(q), ty): return q
            n += 1
        q = p
        while q.path and (q.path[-1] == 0 or (not isinstance(q.path[-1], int) and s.is_zero(q.path[-1][1]))):
            q = Ptr(q.root, q.path[:-1])
            if s.same_ty(s.ty_at(q), ty): return q
        return None
    def is_zero(s, t):
        t = z3.simplify(t)
        return (z3.is_int_value(t) or z3.is_bv_value(t)) and t.as_long() == 0

    def gep(s, st, sty, b, idx):
        if isinstance(b, Undef): raise Unsupported('gep on undef')
        if not isinstance(b, Ptr): raise Unsupported('gep on %r' % (b,))
        if b.root is None:
            raise Unsupported('gep on null')
        ix = [s.idx(v) for v in idx]
        if sty.k == 'int' and sty.w == 8 and len(ix) == 1:
            t = s.M.resolve(s.ty_at(b))
            if not (t.k == 'int' and t.w == 8):
                o = z3.simplify(ix[0])
                if not (z3.is_int_value(o) or z3.is_bv_value(o)): raise Unsupported('symbolic byte offset')
                off = o.as_signed_long() if z3.is_bv_value(o) else o.as_long()
                return s.byte_off(b, off)
        p = s.align_to(b, sty)
        if p is None:
            raise Unsupported('gep type %r on %r at %s' % (sty, s.ty_at(b), b))
        if not s.is_zero(ix[0]):
            if not p.path or isinstance(p.path[-1], int):
                # constant-folded address of a trailing flexible array: one past the header of the struct
                t = s.M.resolve(s.ty_at(p)); o = z3.simplify(ix[0])
                if t.k == 'struct' and t.els and s.M.resolve(t.els[-1]).k == 'arr' and s.M.resolve(t.els[-1]).n == 0 and z3.is_int_value(o) and o.as_long() == 1 and all(s.is_zero(q) for q in ix[1:]):
                    return Ptr(p.root, p.path + (len(t.els) - 1,))
                raise Unsupported('pointer arithmetic on a non-element %s' % (p,))
            p = Ptr(p.root, p.path[:-1] + (('x', z3.simplify(p.path[-1][1] + ix[0])),))
        path = list(p.path); t = sty
        for v, i in zip(idx[1:], ix[1:]):
            r = s.M.resolve(t)
            if r.k == 'struct':
                n = z3.simplify(i).as_long()
                if n > 0 and n == len(r.els) - 1 and t.k == 'named' and s.is_flex(r.els[n - 1]): n -= 1     # the padding word of a ghost container is never accessed; the elements start at the same address
                path.append(n); t = r.els[n]
            else:
                path.append(('x', i)); t = r.el
        return Ptr(p.root, path)

    def is_flex(s, t):
        r = s.M.resolve(t); return r.k == 'arr' and r.n == 0

    def idx(s, v):
        if s.bv:
            t = v.t if v.k == 'V' else z3.If(v.t, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            return t if v.w == 64 else z3.SignExt(64 - v.w, t)
        return s.S(v)

    def byte_off(s, b, off):
        p = b
        # ascend so that the offset becomes absolute within a larger object
        while True:
            t = s.ty_at(p); sz = s.M.size_align(t)[0]
            if 0 <= off and (off < sz or (off == sz == 0)): break
            if s.M.resolve(t).k == 'struct' and off >= 0 and s.M.resolve(t).els and off in s.M.offsets(t): break
            if p.path and not isinstance(p.path[-1], int) and sz and off % sz == 0:
                return Ptr(p.root, p.path[:-1] + (('x', z3.simplify(p.path[-1][1] + s.ival(off // sz))),))
            if not p.path: raise Unsupported('byte offset %d out of %s' % (off, b))
            last = p.path[-1]
            if isinstance(last, int):
                par = Ptr(p.root, p.path[:-1]); off += s.M.offsets(s.ty_at(par))[last]; p = par
            else: raise Unsupported('byte offset from an element')
        while off > 0 or True:
            t = s.ty_at(p); r = s.M.resolve(t)
            if r.k == 'struct':
                if off == 0: return p
                offs = s.M.offsets(t)
                i = max(j for j in range(len(offs)) if offs[j] <= off)
                # prefer a sized member at that offset
                for j in range(len(offs)):
                    if offs[j] <= off < offs[j] + max(1, s.M.size_align(r.els[j])[0]): i = j; break
                off -= offs[i]; p = Ptr(p.root, p.path + (i,))
            elif r.k == 'arr':
                if off == 0: return p
                sz = s.M.size_align(r.el)[0]
                p = Ptr(p.root, p.path + (('x', s.ival(off // sz)),)); off %= sz
            else:
                if off: raise Unsupported('byte offset inside a scalar')
                return p

    def access_check(s, st, p, I):
        """element accesses stay inside their array / container"""
        t = p.root.ty
        for n, stp in enumerate(p.path):
            r = s.M.resolve(t)
            if isinstance(stp, int): par = t; t = r.els[stp]
            else:
                i = stp[1]
                if r.n and r.n > 0:
                    if s.bv: s.oblige(st, 'bounds: array index < %d' % r.n, z3.ULT(i, r.n), 'bounds', I)
                    else: s.oblige(st, 'bounds: array index in [0,%d)' % r.n, z3.And(i >= 0, i < r.n), 'bounds', I)
                elif n > 0 and isinstance(p.path[n-1], int):
                    pp = Ptr(p.root, p.path[:n-1]); nm = s.ty_at(pp)
                    if nm.k == 'named' and 'std::deque' in nm.name:
                        nt = s.read_term(st, Ptr(pp.root, pp.path + (0,))); bt = s.read_term(st, Ptr(pp.root, pp.path + (1,)))
                        s.oblige(st, 'bounds: element index in range', z3.And(i >= bt, i < bt + nt), 'bounds', I)
                    elif nm.k == 'named' and ('std::vector' in nm.name or 'std::deque' in nm.name or 'std::basic_string' in nm.name):
                        nt = s.read_term(st, Ptr(pp.root, pp.path + (0,)))
                        if s.bv: s.oblige(st, 'bounds: element index', z3.ULT(i, nt), 'bounds', I)
                        else: s.oblige(st, 'bounds: element index in range', z3.And(i >= 0, i < nt), 'bounds', I)
                t = r.el

    def load(s, st, p, ty, I=None):
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if p.root is None:
            s.oblige(st, 'null dereference', z3.BoolVal(False), 'null', I); s.dead = True; raise Dead()
        if (p.root.gname or '').startswith('_ZGV'):          # guard of a function-local static: may or may not be initialised already
            return V(z3.Int(fresh_name('guard')), ty.w, 'U')
        q, lt = s.leaf_of(p)
        if not s.same_ty(lt, ty):
            if lt.k == 'int' and ty.k == 'int' and lt.w > ty.w:
                v = s.load(st, q, lt, I); return s.cast('trunc', v, lt, ty, st)
            # empty leading members
            a = s.align_to(p, ty)
            if a is None:
                if lt.k == 'int' and ty.k == 'int' and lt.w < ty.w: raise Unsupported('wide load %r of %r' % (ty, s.ty_at(p)))
                raise Unsupported('load %r from %r at %s' % (ty, s.ty_at(p), p))
            q = a
        s.access_check(st, q, I)
        s.heap_check(st, q, I)
        sh = s.shape(q.path)
        k = s.leaf_kind(q.root, sh, lt)
        base = s.base_term(st, q.root, sh, lt)
        if k[0] == 'P':
            if base is None:
                return s.ptr_default(st, q)
            if isinstance(base, (Ptr, FnPtr)): return base
            h = s.heap_of_leaf(q.root, sh)
            if h is None: raise Unsupported('pointer leaf %s' % (q,))
            t = s.sel(base, s.idxs(q.path))
            return Ptr(h, (('x', t),))
        t = s.sel(base, s.idxs(q.path))
        t = z3.simplify(t) if q.path and s.idxs(q.path) else t
        if k[0] == 'O': return V(t, k[1], 'O')
        if k[0] == 'F': return V(t, 64, 'F')
        if s.bv: return V(t, k[1], 'V')
        lo, hi = (0, 1) if k[0] == 'b' else rng(k[1], k[0])
        if t.get_id() not in s.bnd or s.bnd[t.get_id()][0] is None or s.bnd[t.get_id()][1] is None or s.bnd[t.get_id()][0] < lo or s.bnd[t.get_id()][1] > hi:
            if not is_lit(t):
                if not (s.bounds(t)[0] is not None and s.bounds(t)[1] is not None and s.bounds(t)[0] >= lo and s.bounds(t)[1] <= hi):
                    s.setb(t, lo, hi)
        if not is_lit(t): s.fact(st, z3.And(t >= lo, t <= hi))
        return V(t, k[1], 'U' if k[0] == 'b' else k[0])

    def ptr_default(s, st, q):
        r = s.unit.ptr_init(s, q)
        if r is None: raise Unsupported('uninitialised pointer leaf %s' % (q,))
        return r

    def heap_check(s, st, q, I):
        if q.root.kind == 'heap':
            i = q.path[0][1]
            s.oblige(st, 'null dereference', i != 0, 'null', I)

    def note_write(s, st, root, shape):
        key = (root.uid, shape)
        for h, body in s.loops:
            if h in st.loops and (st.cur is None or st.cur in body):
                ms = s.modset[h]
                if key not in ms and root.uid not in st.loops[h].get('fresh', ()):
                    ms[key] = (root, shape); s.restart = True

    def store(s, st, p, v, ty, I=None):
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if p.root is None:
            s.oblige(st, 'null dereference', z3.BoolVal(False), 'null', I); raise Dead()
        if isinstance(v, Agg):
            r = s.M.resolve(ty); a = s.align_to(p, ty)
            for i, e in enumerate(v.els):
                if e is UNDEF: continue
                s.store(st, Ptr(a.root, a.path + (i,)), e, r.els[i], I)
            return
        if (p.root.gname or '').startswith('_ZGV'): return
        q, lt = s.leaf_of(p)
        if not s.same_ty(lt, ty):
            a = s.align_to(p, ty)
            if a is None:
                raise Unsupported('store %r to %r at %s' % (ty, s.ty_at(p), p))
            q = a
        s.access_check(st, q, I)
        s.heap_check(st, q, I)
        sh = s.shape(q.path)
        k = s.leaf_kind(q.root, sh, lt)
        if k[0] == 'P':
            h = s.heap_of_leaf(q.root, sh)
            if h is None:
                if 'x' in sh: raise Unsupported('pointer store to element')
                st.mem[(q.root.uid, sh)] = v; s.note_write(st, q.root, sh); return
            if isinstance(v, Undef): v = Ptr(h, (('x', z3.Int(fresh_name('up'))),))
            if v.root is None: t = z3.IntVal(0)
            elif v.root is h and len(v.path) == 1: t = v.path[0][1]
            else: raise Unsupported('storing a non-heap pointer %s' % (v,))
        elif isinstance(v, Undef): t = z3.Const(fresh_name('undef'), s.ksort(k))
        elif k[0] in 'OF': t = v.t
        elif s.bv: t = v.t if v.k == 'V' else z3.If(v.t, z3.BitVecVal(1, k[1]), z3.BitVecVal(0, k[1]))
        else: t = s.tokind(v, k[0])
        base = s.base_term(st, q.root, sh, lt)
        st.mem[(q.root.uid, sh)] = s.sto(base, s.idxs(q.path), t)
        s.note_write(st, q.root, sh)

    def write_leaf(s, st, p, ext, lt, t):
        sh = s.shape(p.path) + ext
        if isinstance(t, (Ptr, FnPtr)):
            st.mem[(p.root.uid, sh)] = t
        else:
            base = s.base_term(st, p.root, sh, lt)
            st.mem[(p.root.uid, sh)] = s.sto(base, s.idxs(p.path), t)
        s.note_write(st, p.root, sh)

    def copy_obj(s, st, d, src, I=None):
        t = s.ty_at(d)
        if not s.same_ty(t, s.ty_at(src)): raise Unsupported('object copy %r <- %r' % (t, s.ty_at(src)))
        vals = []
        for (ext, lt, en) in s.leaves(t):
            base = s.base_term(st, src.root, s.shape(src.path) + ext, lt)
            if base is None: continue
            vals.append((ext, lt, base if isinstance(base, (Ptr, FnPtr)) else s.conv_kind(src, ext, d, lt, s.sel(base, s.idxs(src.path)))))
        for ext, lt, v in vals: s.write_leaf(st, d, ext, lt, v)

    def conv_kind(s, sp, ext, dp, lt, t):
        ks = s.leaf_kind(sp.root, s.shape(sp.path) + ext, lt); kd = s.leaf_kind(dp.root, s.shape(dp.path) + ext, lt)
        if ks == kd or s.bv or {ks[0], kd[0]} <= {'U', 'b'}: return t
        if 'x' in ext: raise Unsupported('signedness mismatch in array copy')
        return s.tokind(V(t, ks[1], ks[0]), kd[0])

    # ------------------------------------------------------------ arithmetic (int mode)
    def wrapU(s, st, r, w):
        lo, hi = 0, (1 << w) - 1
        if s.inrange(r, lo, hi): return r
        a, b = s.bounds(r); m = 1 << w
        if a is not None and b is not None and a >= -m and b < 2 * m:
            if a >= 0: return z3.If(r >= m, r - m, r)
            if b < m: return z3.If(r < 0, r + m, r)
            return z3.If(r < 0, r + m, z3.If(r >= m, r - m, r))
        return r % m
    def wrapS(s, st, r, w):
        lo, hi = rng(w, 'S')
        if s.inrange(r, lo, hi): return r
        h = 1 << (w - 1)
        return (r + h) % (1 << w) - h

    def tdiv(s, a, b):
        """C truncating division"""
        bl, bh = s.bounds(b)
        al, ah = s.bounds(a)
        bpos = bl is not None and bl > 0 or s.prove(b > 0)
        apos = al is not None and al >= 0 or s.prove(a >= 0)
        if bpos and apos: return a / b
        if bpos: return z3.If(a >= 0, a / b, -((-a) / b))
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
    def trem(s, a, b):
        bl, bh = s.bounds(b); al, ah = s.bounds(a)
        bpos = bl is not None and bl > 0 or s.prove(b > 0)
        apos = al is not None and al >= 0 or s.prove(a >= 0)
        if bpos and apos: return a % b
        if bpos: return z3.If(a >= 0, a % b, -((-a) % b))
        return z3.If(a >= 0, z3.If(b > 0, a % b, a % (-b)), z3.If(b > 0, -((-a) % b), -((-a) % (-b))))

    def define(s, st, t, nm='t', lo=None, hi=None):
        """name a big term"""
        if z3.is_const(t) or is_lit(t): return t
        c = z3.Int(fresh_name(nm)); s.keep.append(c)
        if lo is None: lo, hi = s.bounds(t)
        if lo is not None and hi is not None: s.setb(c, lo, hi)
        s.fact(st, c == t)
        return c

    def at_hook(s, st, I):
        m = re.match(r'(?:tail )?call void @llvm\.dbg\.value\(metadata (?:\S+) (%(?:"[^"]*"|[-\w$.]+)), metadata !(\d+), metadata (.*?)\)', I.raw)
        if not m or 'DW_OP' in m.group(3): return
        h = s.spec.at.get(s.M.md_field(int(m.group(2)), 'name')); x = st.env.get(unq(m.group(1)))
        if h is None or not isinstance(x, V): return
        v = View(s, st, s.args, old=s.oldview); v.facts = []
        h(v, x.t)
        for f in v.facts: s.fact(st, f)
    def spec_guard(s, st, I):
        """condition under which the result of I is used, when every use is an arm of a select in the same block"""
        if not hasattr(s, '_uses'):
            s._uses = {}
            for bn in s.f.order:
                for J in s.f.blocks[bn].ins:
                    for nm in set(re.findall(r'%([-\w.$]+)', J.raw)): s._uses.setdefault(nm, []).append((bn, J))
            s._blk = {J.res: bn for bn in s.f.order for J in s.f.blocks[bn].ins if J.res}
        if not re.fullmatch(r'[-\w.$]+', I.res or ''): return None
        g = []
        for bn, J in s._uses.get(I.res, []):
            if J is I: continue
            if J.op == 'dbg': continue
            if J.op != 'select' or bn != s._blk[I.res]: return None
            try: c = s.asbool(s.val(st, J.a[0], Ty('int', w=1)))
            except Exception: return None
            me = '%' + I.res
            a1, a2 = [str(z) for z in J.raw.split('select', 1)[1].split(',')[1:3]]
            u1, u2 = (re.search(re.escape(me) + r'(?![-\w.$])', z) is not None for z in (a1, a2))
            if u1 == u2: return None
            g.append(c if u1 else z3.Not(c))
        return z3.Or(g) if g else None
    def binop(s, st, I, op, x, y, ty, flags):
        w = ty.w
        if isinstance(x, PInt) and isinstance(y, PInt) and op == 'sub':
            return V(s.ptrdiff(st, x.p, y.p), 64, 'S' if not s.bv else 'V')
        if isinstance(x, (PInt, Undef)) or isinstance(y, (PInt, Undef)): raise Unsupported('%s on pointer/undef' % op)
        if x.k == 'B' and y.k == 'B':
            if op == 'and': return V(z3.And(x.t, y.t), 1, 'B')
            if op == 'or': return V(z3.Or(x.t, y.t), 1, 'B')
            if op == 'xor': return V(z3.simplify(z3.Xor(x.t, y.t)), 1, 'B')
            raise Unsupported('i1 ' + op)
        if x.k in 'OF' or y.k in 'OF':
            if x.k == 'F': raise Unsupported('floating point ' + op)
            raise Unsupported('arithmetic on opaque value')
        if s.bv: return s.binop_bv(st, I, op, x, y, w, flags)
        nsw = 'nsw' in flags; nuw = 'nuw' in flags
        if op in ('add', 'sub', 'mul'):
            if nsw and nuw or nsw:
                a, b = s.S(x), s.S(y); lo, hi = rng(w, 'S'); k = 'S'
            else: a, b = s.U(x), s.U(y); lo, hi = rng(w, 'U'); k = 'U'
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            r = z3.simplify(r) if (is_lit(a) and is_lit(b)) or op != 'mul' else r
            if nsw or nuw:
                if not s.inrange(r, lo, hi):
                    g = s.spec_guard(st, I)
                    if g is not None:
                        # speculated by simplifycfg: the value is used only where g holds (poison elsewhere)
                        ok = z3.Implies(g, z3.And(r >= lo, r <= hi))
                        s.oblige(st, 'no %s overflow in %s' % ('signed' if nsw else 'unsigned', op), ok, 'overflow', I, quick=False)
                        s.fact(st, ok); return V(r, w, k)
                    s.oblige(st, 'no %s overflow in %s' % ('signed' if nsw else 'unsigned', op), z3.And(r >= lo, r <= hi), 'overflow', I, quick=False)
                    s.fact(st, z3.And(r >= lo, r <= hi))
                    if not is_lit(r): s.setb(r, lo, hi)
                else: s.quick += 1
                return V(r, w, k)
            if op == 'sub' and is_lit(x.t) and lit(x.t) == 0:
                # unsigned negation
                b2 = b
                if s.prove(b2 == 0): return V(z3.IntVal(0), w, 'U')
                if s.prove(b2 > 0): return V(z3.simplify((1 << w) - b2), w, 'U')
                return V(s.wrapU(st, r, w), w, 'U')
            # x + (-c)
            if op == 'add' and is_lit(y.t) and lit(y.t) < 0:
                r = z3.simplify(a + lit(y.t))
                return V(s.wrapU(st, r, w), w, 'U')
            return V(s.wrapU(st, r, w), w, 'U')
        if op in ('udiv', 'urem'):
            a, b = s.U(x), s.U(y)
            s.oblige(st, 'division by zero', b != 0, 'div', I); s.fact(st, b != 0)
            if is_lit(a) and is_lit(b) and lit(b): return V(z3.IntVal(lit(a) // lit(b) if op == 'udiv' else lit(a) % lit(b)), w, 'U')
            r = a / b if op == 'udiv' else a % b
            if not is_lit(b):
                al, ah = s.bounds(a); bl, bh = s.bounds(b)
                if op == 'udiv': s.setb(r, 0, ah)
                else: s.setb(r, 0, min(x for x in (ah, bh - 1 if bh is not None else None, (1 << w) - 1) if x is not None))
                s.fact(st, z3.And(r >= 0, r <= a) if op == 'udiv' else z3.And(r >= 0, r < b, r <= a))
            return V(r, w, 'U')
        if op in ('sdiv', 'srem'):
            a, b = s.S(x), s.S(y)
            s.oblige(st, 'division by zero', b != 0, 'div', I); s.fact(st, b != 0)
            lo, hi = rng(w, 'S')
            if is_lit(b) and 'exact' in flags:
                m = s.divlit(a, lit(b))
                if m is not None: return V(m, w, 'S')
            if not (is_lit(b) and lit(b) != -1):
                if not (s.bounds(a)[0] is not None and s.bounds(a)[0] > lo):
                    s.oblige(st, 'division overflow', z3.Not(z3.And(a == lo, b == -1)), 'overflow', I)
            r = s.tdiv(a, b) if op == 'sdiv' else s.trem(a, b)
            if not is_lit(b):
                r2 = z3.Int(fresh_name('q')); s.setb(r2, lo, hi); s.fact(st, r2 == r)
                s.fact(st, z3.And(r2 >= lo, r2 <= hi))
                if op == 'srem': s.fact(st, z3.And(z3.Implies(a >= 0, r2 >= 0), z3.Implies(a <= 0, r2 <= 0), z3.Implies(b > 0, z3.And(r2 < b, r2 > -b)), z3.Implies(b < 0, z3.And(r2 > b, r2 < -b))))
                r = r2
            return V(r, w, 'S')
        if op in ('shl', 'lshr', 'ashr'):
            k = s.U(y)
            if is_lit(k):
                c = lit(k)
                if c >= w:
                    s.oblige(st, 'shift amount < %d' % w, z3.BoolVal(False), 'shift', I); raise Dead()
                m = z3.IntVal(1 << c)
            else:
                s.oblige(st, 'shift amount < %d' % w, k < w, 'shift', I); s.fact(st, k < w)
                m = pow2(k); s.setb(m, 1, 1 << (w - 1)); s.fact(st, z3.And(m >= 1, m <= 1 << (w - 1)))
                for ax in s.pow2_facts(k): s.fact(st, ax)
            if op == 'shl':
                if nsw:
                    r = s.S(x) * m; lo, hi = rng(w, 'S')
                    if not s.inrange(r, lo, hi):
                        s.oblige(st, 'no signed overflow in shl', z3.And(r >= lo, r <= hi), 'overflow', I); s.fact(st, z3.And(r >= lo, r <= hi)); s.setb(r, lo, hi)
                    return V(r, w, 'S')
                if x.k == 'S':
                    r = z3.simplify(x.t * m); lo, hi = rng(w, 'S')
                    if s.inrange(r, lo, hi): return V(r, w, 'S')
                r = z3.simplify(s.U(x) * m)
                return V(s.wrapU(st, r, w), w, 'U')
            if op == 'lshr': return V(s.U(x) / m, w, 'U')
            return V(s.S(x) / m, w, 'S')
        if op in ('and', 'or', 'xor'): return s.bitop(st, I, op, x, y, w, flags)
        raise Unsupported('binop ' + op)

    def pow2_facts(s, k):
        out = []
        if z3.is_app(k) and not is_lit(k):
            out.append(z3.Implies(k == 0, pow2(k) == 1))
            out.append(z3.Implies(k >= 1, pow2(k) == 2 * pow2(k - 1)))
            out.append(z3.Implies(k >= 1, pow2(k - 1) >= 1))
        return out

    def divlit(s, t, c):
        t = z3.simplify(t)
        if is_lit(t) and lit(t) % c == 0: return z3.IntVal(lit(t) // c)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            a = t.children()
            if is_lit(a[0]) and lit(a[0]) % c == 0:
                r = a[1] if len(a) == 2 else z3.Product(a[1:])
                return r * (lit(a[0]) // c) if lit(a[0]) != c else r
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD,):
            ps = [s.divlit(x, c) for x in t.children()]
            if all(p is not None for p in ps): return z3.Sum(ps)
        return None

    def elemize(s, p):
        """array pointer -> pointer to its element 0"""
        while p.root is not None and (not p.path or isinstance(p.path[-1], int)):
            t = s.M.resolve(s.ty_at(p))
            if t.k == 'arr': p = Ptr(p.root, p.path + (('x', s.ival(0)),))
            else: break
        return p

    def ptrdiff(s, st, p, q):
        p, q = s.elemize(p), s.elemize(q)
        if p.root is q.root and len(p.path) == len(q.path) and p.path and not isinstance(p.path[-1], int):
            for a, b in zip(p.path[:-1], q.path[:-1]):
                if isinstance(a, int) != isinstance(b, int) or (isinstance(a, int) and a != b): break
                if not isinstance(a, int) and not s.prove(a[1] == b[1]): break
            else:
                sz = s.M.size_align(s.ty_at(p))[0] or 1
                return (p.path[-1][1] - q.path[-1][1]) * s.ival(sz)
        raise Unsupported('pointer difference %s - %s' % (p, q))

    def bitop(s, st, I, op, x, y, w, flags):
        if is_lit(x.t) and not is_lit(y.t): x, y = y, x
        if is_lit(x.t) and is_lit(y.t):
            a = lit(x.t) % (1 << w); b = lit(y.t) % (1 << w)
            r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
            return s.const(r, Ty('int', w=w))
        if is_lit(y.t):
            c = lit(y.t); cu = c % (1 << w)
            if op == 'and':
                if cu == 0: return V(z3.IntVal(0), w, 'U')
                if cu & (cu + 1) == 0: # low mask
                    if x.k == 'U' or x.k == 'S': return V(x.t % (cu + 1), w, 'U') if cu != (1 << w) - 1 else x
                inv = (~cu) % (1 << w)
                if inv & (inv + 1) == 0: return V(x.t - x.t % (inv + 1), w, x.k)
                if cu & (cu - 1) == 0: return V((s.U(x) / cu) % 2 * cu, w, 'U')
            if op == 'or':
                if cu == 0: return x
                if 'disjoint' in flags and x.k == 'U': return V(x.t + cu, w, 'U')
                if cu == 1: return V(z3.simplify(x.t + (1 - x.t % 2)) if not s.prove(x.t % 2 == 0) else x.t + 1, w, x.k)
                tz = (cu & -cu).bit_length() - 1
                if cu & (cu - 1) == 0:
                    u = s.U(x)
                    return V(z3.If((u / cu) % 2 == 1, u, u + cu), w, 'U')
            if op == 'xor':
                if cu == 0: return x
                if cu == (1 << w) - 1: return V(-1 - x.t, w, 'S') if x.k == 'S' else V((1 << w) - 1 - x.t, w, 'U')
                if cu == 1:
                    return V(z3.If(x.t % 2 == 0, x.t + 1, x.t - 1), w, x.k)
                if cu & (cu - 1) == 0:
                    u = s.U(x)
                    return V(z3.If((u / cu) % 2 == 1, u - cu, u + cu), w, 'U')
        if op == 'and':
            tot = z3.simplify(x.t + y.t)
            if is_lit(tot) and lit(tot) in (0, 1 << w) and x.k == y.k:
                for p, q in ((x, y), (y, x)):
                    if p.k == 'S' and not s.prove(p.t >= 0): continue
                    if p.k == 'U' and z3.is_app(p.t) and len(p.t.children()) > 1: continue
                    r = lowbit(p.t); s.setb(r, 0, s.bounds(p.t)[1] if s.bounds(p.t)[1] is not None else (1 << w) - 1)
                    s.lemmas_used.add(BUILTIN_LEMMAS['lowbit'])
                    s.fact(st, z3.And(r >= 0, r <= p.t, z3.Implies(p.t > 0, r >= 1), lowbit_def(p.t)))
                    return V(r, w, p.k)
        a, b = s.U(x), s.U(y)
        M = (1 << w) - 1
        if op == 'or' and 'disjoint' in flags: return V(a + b, w, 'U')
        if op == 'or':
            # multiple of 2^k plus something below 2^k
            for p, q in ((a, b), (b, a)):
                k = s.lowzeros(p)
                if k > 0 and s.inrange(q, 0, (1 << k) - 1):
                    return V(p + q, w, 'U')
        f = {'and': band, 'or': bor, 'xor': bxor}[op]
        r = f(a, b)
        s.setb(r, 0, M); s.fact(st, z3.And(r >= 0, r <= M))
        if op == 'and': s.fact(st, z3.And(r <= a, r <= b))
        if op == 'or': s.fact(st, z3.And(r >= a, r >= b, r <= a + b))
        if op == 'xor':
            s.fact(st, r <= a + b); s.fact(st, (r == 0) == (a == b))
            if x.k == 'S' or y.k == 'S': H = 1 << (w - 1); s.fact(st, (r >= H) == z3.Xor(x.t < 0 if x.k == 'S' else a >= H, y.t < 0 if y.k == 'S' else b >= H))
        return V(r, w, 'U')

    def lowzeros(s, t):
        t = z3.simplify(t)
        if is_lit(t):
            n = lit(t); return 64 if n == 0 else (n & -n).bit_length() - 1
        if z3.is_app(t):
            d = t.decl().kind()
            if d == z3.Z3_OP_MUL: return sum(s.lowzeros(c) for c in t.children())
            if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return min(s.lowzeros(c) for c in t.children())
            if d == z3.Z3_OP_ITE: return min(s.lowzeros(t.arg(1)), s.lowzeros(t.arg(2)))
        return 0

    def binop_bv(s, st, I, op, x, y, w, flags):
        a = x.t if x.k == 'V' else z3.If(x.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        b = y.t if y.k == 'V' else z3.If(y.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                g = {'add': z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                     'sub': z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)),
                     'mul': z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))}[op]
                s.oblige(st, 'no signed overflow in ' + op, g, 'overflow', I)
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            s.oblige(st, 'division by zero', b != 0, 'div', I); s.fact(st, b != 0)
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](a, b)
        elif op in ('shl', 'lshr', 'ashr'):
            s.oblige(st, 'shift amount < %d' % w, z3.ULT(b, w), 'shift', I)
            r = a << b if op == 'shl' else z3.LShR(a, b) if op == 'lshr' else a >> b
        else: r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
        return V(z3.simplify(r), w, 'V')

    def icmp(s, st, pred, x, y):
        if isinstance(x, (Ptr, FnPtr, PInt)) or isinstance(y, (Ptr, FnPtr, PInt)):
            if isinstance(x, PInt): x = x.p
            if isinstance(y, PInt): y = y.p
            return s.pcmp(st, pred, x, y)
        if isinstance(x, Undef) or isinstance(y, Undef): raise Unsupported('compare undef')
        if x.k == 'B' and y.k == 'B':
            if pred == 'eq': return x.t == y.t
            if pred == 'ne': return z3.Xor(x.t, y.t)
            i = lambda v: z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            a, b = (i(x), i(y)) if pred[0] == 'u' else (i(y), i(x))
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        if x.k == 'O' or y.k == 'O':
            if pred == 'eq': return x.t == y.t
            if pred == 'ne': return x.t != y.t
            raise Unsupported('ordering of opaque values')
        if s.bv:
            a, b = x.t, y.t
            return {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                    'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pred]()
        if pred in ('eq', 'ne'):
            if x.k == y.k: a, b = x.t, y.t
            elif is_lit(x.t): b = y.t; a = s.tokind(x, y.k)
            elif is_lit(y.t): a = x.t; b = s.tokind(y, x.k)
            else: a, b = s.U(x), s.U(y)
            return a == b if pred == 'eq' else a != b
        if pred[0] == 's': a, b = s.S(x), s.S(y)
        else: a, b = s.U(x), s.U(y)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]

    def pcmp(s, st, pred, x, y):
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            eq = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
            return z3.BoolVal(eq == (pred == 'eq'))
        if x.root is None and y.root is None: return z3.BoolVal(pred in ('eq', 'ule', 'uge'))
        if x.root is None or y.root is None:
            p = x if y.root is None else y
            if p.root.kind == 'heap' and len(p.path) == 1: r = p.path[0][1] == 0
            else: r = z3.BoolVal(False)
            return r if pred == 'eq' else z3.Not(r)
        if x.root is not y.root:
            if pred == 'eq': return z3.BoolVal(False)
            if pred == 'ne': return z3.BoolVal(True)
            raise Unsupported('ordering of unrelated pointers')
        if len(x.path) != len(y.path): x, y = s.elemize(x), s.elemize(y)
        if len(x.path) == len(y.path):
            c = []
            n = len(x.path)
            for i, (a, b) in enumerate(zip(x.path, y.path)):
                if isinstance(a, int) and isinstance(b, int):
                    if a != b: return z3.BoolVal(pred == 'ne')
                elif i < n - 1: c.append(a[1] == b[1])
                else:
                    if pred in ('eq', 'ne'): c.append(a[1] == b[1])
                    else:
                        a, b = a[1], b[1]
                        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
            e = z3.And(c) if c else z3.BoolVal(True)
            return e if pred == 'eq' else z3.Not(e)
        raise Unsupported('pointer compare %s %s' % (x, y))

    def cast(s, op, v, t1, t2, st):
        if op == 'bitcast' or op == 'freeze': return v
        if op == 'ptrtoint': return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            raise Unsupported('inttoptr')
        if isinstance(v, (PInt, Undef)): raise Unsupported('%s of %r' % (op, v))
        if op in ('zext', 'sext', 'trunc') and v.k == 'O': return V(v.t, t2.w, 'O')
        if s.bv:
            if op in ('zext', 'sext'):
                if v.k == 'B': return V(z3.If(v.t, z3.BitVecVal(1 if op == 'zext' else -1, t2.w), z3.BitVecVal(0, t2.w)), t2.w, 'V')
                return V(z3.simplify((z3.ZeroExt if op == 'zext' else z3.SignExt)(t2.w - t1.w, v.t)), t2.w, 'V')
            if op == 'trunc':
                if t2.w == 1: return V(z3.Extract(0, 0, v.t) == 1, 1, 'B')
                return V(z3.simplify(z3.Extract(t2.w - 1, 0, v.t)), t2.w, 'V')
        if op == 'zext':
            if v.k == 'B': return V(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), t2.w, 'U')
            t = s.U(v); return V(t, t2.w, 'U')
        if op == 'sext':
            return V(s.S(v), t2.w, 'S')
        if op == 'trunc':
            if t2.w == 1:
                if s.inrange(v.t, 0, 1): return V(z3.simplify(v.t == 1), 1, 'B')
                return V(v.t % 2 == 1, 1, 'B')
            lo, hi = rng(t2.w, 'S')
            if s.inrange(v.t, lo, hi) and v.k == 'S': return V(v.t, t2.w, 'S')
            if s.inrange(v.t, 0, 2 * hi + 1): return V(v.t, t2.w, 'U')
            if s.inrange(v.t, lo, hi): return V(v.t, t2.w, 'S')
            return V(v.t % (1 << t2.w), t2.w, 'U')
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ running
    def args_setup(s):
        st = State(); args = {}; pt = s.param_types(s.f)
        s.roots = {}
        for (ty, nm, at) in s.f.params:
            di = pt.get(nm)
            if ty.k == 'ptr':
                pd = s.dw.pointee(di) if di is not None else None
                if pd is None and di is not None: pd = s.dw.strip(di)
                r = s.unit.arg_root(s, nm, pd, at)
                if isinstance(r, Ptr): v = r; args[nm] = r
                else: v = Ptr(r); args[nm] = r; s.roots[nm] = r
            elif ty.k == 'int':
                if ty.w == 1: v = V(z3.Bool(nm), 1, 'B')
                elif s.bv: v = V(z3.BitVec(nm, ty.w), ty.w, 'V')
                else:
                    k = s.dw.enc(di) or 'S'
                    osn = s.unit.opaque_di(s, di)
                    if osn: v = V(z3.Const(nm, OSort(osn)), ty.w, 'O')
                    else:
                        t = z3.Int(nm); kk = 'U' if k == 'B' else k
                        lo, hi = (0, 1) if k == 'B' else rng(ty.w, kk)
                        s.setb(t, lo, hi); s.fact(st, z3.And(t >= lo, t <= hi)); v = V(t, ty.w, kk)
                args[nm] = v
            elif ty.k == 'float':
                v = V(z3.Const(nm, OSort('Float_' + ty.name)), 64, 'F'); args[nm] = v
            else: raise Unsupported('parameter type %r' % ty)
            st.env[nm] = v
            if nm.endswith('.coerce'): args[nm[:-7]] = v
        return st, args

    def run(s):
        s.iter = 0
        while True:
            s.iter += 1
            if s.iter > 40: raise Unsupported('modified-set fixpoint')
            s.obls = []; s.quick = 0; s.restart = False; s.paths = 0; s.kindcache = {}
            s.qs = z3.Solver(); s.qs.set('rlimit', s.unit.quick_rlimit); s.qs.set('auto_config', False); s.qs.set('smt.mbqi', False)
            s.bnd = {}; s.allocs = {}; s.localroots = {}
            s.dead = False
            _cnt[0] = 0
            st, args = s.args_setup(); s.args = args
            for g, init in s.unit.const_globals():
                pass
            pre = View(s, st, args)
            s.init_facts(st)
            pre.facts = []
            for lab, f in aslist(s.spec.requires(pre) if s.spec.requires else [], 'requires'): s.fact(st, f)
            s.entry = st.copy(); s.oldview = View(s, s.entry, args)
            s.precond = list(st.pc)
            if s.spec.pre:
                v = View(s, st, args, old=s.oldview); v.facts = []
                s.spec.pre(v)
                for f in v.facts: s.fact(st, f)
            s.measure0 = None
            try:
                s.block(st, s.f.order[0], None)
            except RestartRun: pass
            if not s.restart: break
        return s.obls

    def init_facts(s, st):
        # container sizes of arguments are machine sizes
        for nm, r in s.roots.items():
            if r.ty is None: continue
            for (ext, lt, en) in s.leaves(r.ty):
                if lt.k == 'int' and 'x' not in ext and lt.w > 1:
                    k = s.leaf_kind(r, ext, lt)
                    if k[0] in 'SUb' and not s.bv:
                        t = s.base_term(st, r, ext, lt)
                        lo, hi = (0, 1) if k[0] == 'b' else rng(k[1], k[0])
                        if s.is_size(r, ext): hi = s.unit.max_size
                        s.setb(t, lo, hi); s.fact(st, z3.And(t >= lo, t <= hi))

    def is_size(s, r, ext):
        t = r.ty
        for st in ext[:-1]:
            q = s.M.resolve(t); t = q.els[st] if isinstance(st, int) else q.el
        return t.k == 'named' and ('std::vector' in t.name or 'std::deque' in t.name or 'std::basic_string' in t.name) and ext[-1] == 0

    def block(s, st, bn, prev, start=0):
        while True:
            if s.restart: raise RestartRun()
            b = s.f.blocks[bn]; st.cur = bn
            i = start
            if start == 0:
                # phis
                phis = []
                while i < len(b.ins) and b.ins[i].op in ('phi', 'dbg'):
                    if b.ins[i].op == 'phi': phis.append(b.ins[i])
                    i += 1
                inc = []
                for P in phis:
                    for v, pb in P.a:
                        if pb == prev: inc.append(s.val(st, v, P.ty)); break
                    else: raise Unsupported('phi without incoming edge')
                if bn in s.loopbody:
                    k = s.loop_index(bn)
                    ls = s.loop_spec(bn)
                    if ls is not None and ls.unroll is None:
                        back = prev in s.loopbody[bn]
                        if back:
                            s.loop_back(st, bn, phis, inc, ls); return
                        s.loop_enter(st, bn, phis, inc, ls)
                        inc = None
                    else:
                        n = st.visits.get(bn, 0) + 1; st.visits[bn] = n
                        if prev not in s.loopbody[bn]: st.visits[bn] = n = 1
                        lim = (ls.unroll if ls is not None else s.spec.unroll) or 0
                        if lim == 0:
                            raise SpecMismatch('loop %d of %s has no invariant' % (k, s.f.name))
                        if n > lim + 1: raise SpecMismatch('loop %d of %s not finished after %d unrollings' % (k, s.f.name, lim))
                if inc is not None:
                    for P, v in zip(phis, inc): st.env[P.res] = v
            if s.spec.at:
                for J in b.ins[:i]:
                    if J.op == 'dbg': s.at_hook(st, J)
            start = 0
            r = s.straight(st, b, bn, i)
            if r is None: return
            prev, bn = bn, r

    def straight(s, st, b, bn, i):
        """execute b.ins[i:]; returns next block name or None when the path ended (or was forked)"""
        while i < len(b.ins):
            I = b.ins[i]; i += 1
            op = I.op
            try:
                if op == 'dbg':
                    if s.spec.at: s.at_hook(st, I)
                    continue
                if op == 'br':
                    if len(I.a) == 1: return I.a[0]
                    c = s.val(st, I.a[0], Ty('int', w=1))
                    c = s.asbool(c)
                    return s.fork(st, bn, [(c, I.a[1]), (z3.Not(c), I.a[2])])
                if op == 'switch':
                    v = s.val(st, I.a[0], I.ty); alts = []; neg = []
                    for n, lab in I.a[2]:
                        c = s.icmp(st, 'eq', v, s.const(n, I.ty)); alts.append((c, lab)); neg.append(z3.Not(c))
                    alts.append((z3.And(neg) if neg else z3.BoolVal(True), I.a[1]))
                    return s.fork(st, bn, alts)
                if op == 'ret':
                    s.ret(st, None if I.a is None else s.val(st, I.a, I.ty), I); return None
                if op == 'unreachable':
                    s.oblige(st, 'unreachable reached', z3.BoolVal(False), 'unreachable', I); s.paths += 1; return None
                if op == 'select':
                    c = s.asbool(s.val(st, I.a[0], Ty('int', w=1)))
                    x = s.val(st, I.a[1], I.ty); y = s.val(st, I.a[2], I.ty)
                    cs = z3.simplify(c)
                    if z3.is_true(cs): st.env[I.res] = x; continue
                    if z3.is_false(cs): st.env[I.res] = y; continue
                    if isinstance(x, V) and isinstance(y, V):
                        r = s.sel_val(c, x, y)
                        if r.k in 'SU' and not z3.is_true(c) and not z3.is_false(c):
                            r = V(s.define(st, r.t, 'sel'), r.w, r.k)
                        st.env[I.res] = r; continue
                    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.root is y.root and x.root is not None and len(x.path) == len(y.path) and x.path and not isinstance(x.path[-1], int) and x.path[:-1] == y.path[:-1]:
                        st.env[I.res] = Ptr(x.root, x.path[:-1] + (('x', z3.If(c, x.path[-1][1], y.path[-1][1])),)); continue
                    for cc, vv in ((c, x), (z3.Not(c), y)):
                        s.qs.push(); st2 = st.copy(); s.fact(st2, cc)
                        if s.qs.check() != z3.unsat:
                            st2.env[I.res] = vv
                            n = None
                            try:
                                r = s.straight(st2, b, bn, i)
                                if r is not None: s.block(st2, r, bn)
                            finally: pass
                        s.qs.pop()
                    return None
                s.ins(st, I)
            except Dead:
                s.dead = False; s.paths += 1
                return None
            except Unsupported as e:
                if not getattr(e, 'loc', None):
                    e.loc = s.loc(I); e.args = (str(e.args[0]) + ' [at %s: %s]' % (e.loc, I.raw[:120]),)
                raise
        raise Unsupported('block without terminator')

    def sel_val(s, c, x, y):
        if x.k == 'B': return V(z3.simplify(z3.If(c, x.t, y.t)), 1, 'B')
        if x.k in 'OFV': return V(z3.If(c, x.t, y.t), x.w, x.k)
        k = x.k if x.k == y.k else ('U' if (is_lit(x.t) and y.k == 'U' or is_lit(y.t) and x.k == 'U') else None)
        if k is None:
            if x.k == 'S' and s.inrange(x.t, 0, rng(x.w, 'S')[1]): k = 'U'
            elif y.k == 'S' and s.inrange(y.t, 0, rng(x.w, 'S')[1]): k = 'U'
            else: k = 'S'
        return V(z3.If(c, s.tokind(x, k), s.tokind(y, k)), x.w, k)

    def fork(s, st, bn, alts):
        live = []
        for c, lab in alts:
            cs = z3.simplify(c)
            if z3.is_false(cs): continue
            if z3.is_true(cs): live = [(None, lab)]; break
            s.qs.push(); s.qs.add(cs); r = s.qs.check(); s.qs.pop()
            if r != z3.unsat: live.append((c, lab))
        if not live: s.paths += 1; return None
        if len(live) == 1:
            c, lab = live[0]
            if c is not None: s.fact(st, c)
            return lab
        for c, lab in live:
            s.qs.push()
            st2 = st.copy()
            s.fact(st2, c)
            s.block(st2, lab, bn)
            s.qs.pop()
        return None

    def ret(s, st, v, I):
        s.paths += 1
        res = None
        if isinstance(v, V):
            res = v
            if not s.bv and v.k in 'SU':
                k = s.ret_kind()
                res = V(s.tokind(v, k), v.w, k)
        elif v is not None: res = v
        view = View(s, st, s.args, old=s.oldview, res=(res.t if isinstance(res, V) else res))
        view.facts = []
        if s.spec.use: s.spec.use(view)
        for lab, f in aslist(s.spec.ensures(view) if s.spec.ensures else [], 'ensures'):
            s.oblige(st, 'ensures ' + lab, f, 'ensures', None, extra=view.facts)
    def ret_kind(s):
        if s.f.dbg is None: return 'S'
        t = s.M.md_field(s.f.dbg, 'type'); l = s.M.md_field(t, 'types') if t is not None else None
        if l is None: return 'S'
        m = re.match(r'!\{(null|!\d+)', s.M.md(l))
        if not m or m.group(1) == 'null': return 'S'
        e = s.dw.enc(int(m.group(1)[1:]))
        return e if e in ('S', 'U') else 'U' if e == 'B' else 'S'

    # ------------------------------------------------------------ loops
    def loop_index(s, h): return [x for x, _ in s.loops].index(h)
    def loop_spec(s, h):
        k = s.loop_index(h); sp = s.spec.loops
        if not sp and s.spec.unroll: return None
        if len(sp) != len(s.loops):
            raise SpecMismatch('%s has %d loops, contract has %d' % (s.f.name, len(s.loops), len(sp)))
        return sp[k]

    def phi_names(s, h):
        """[(phi result, source name, DWARF type)] of header h"""
        out = []
        for I in s.f.blocks[h].ins:
            if I.op == 'phi':
                vs = s.varof.get(I.res, [])
                best = [v for v in vs if v[3] == h] or vs
                if best: nm, di = best[0][0], best[0][1]
                else: nm, di = re.sub(r'(\.addr)?(\.i\d*|\.\d+)*$', '', I.res), None
                out.append((I.res, nm, di, I.ty, [v[0] for v in best]))
        return out

    def loopvar(s, st, h, name):
        if '#' in name:         # name#k: the k-th scalar of an aggregate the optimiser has split (ordered by offset)
            base, k = name.split('#')
            for L in ([h] if h else []) + [x for x, _ in reversed(s.loops) if x in st.loops and x != h]:
                c = sorted((res for res, nm, *_ in s.phi_names(L) if re.match(re.escape(base) + r'(\.i\d*)?\.sroa', res)), key=lambda r: [int(t) for t in re.findall(r'\d+', r.split('.sroa')[1])])
                if len(c) > int(k): return s.var_term(st, c[int(k)])
            raise SpecMismatch('no split variable %r in %s' % (name, s.f.name))
        for L in ([h] if h else []) + [x for x, _ in reversed(s.loops) if x in st.loops and x != h]:
            ps = s.phi_names(L)
            for res, nm, di, ty, alts in ps:
                if nm == name or name in alts: return s.var_term(st, res)
            for res, nm, di, ty, alts in ps:
                if res == name: return s.var_term(st, res)
            r = s.unit.loopvar_fallback(s, L, name, ps)
            if r is not None: return s.var_term(st, r)
        # a scalar kept in an alloca
        r = s.local_root(name, h)
        if r is not None:
            return s.read_term(st, Ptr(r))
        for res, vs in s.varof.items():
            if res in st.env and any(v[0] == name for v in vs): return s.var_term(st, res)
        raise SpecMismatch('no loop variable %r in %s (loop %s; has %s)' % (name, s.f.name, h, [p[1] for p in s.phi_names(h)] if h else ''))

    def var_term(s, st, res):
        v = st.env[res]
        if isinstance(v, V): return v.t
        if isinstance(v, Ptr):
            if v.path and not isinstance(v.path[-1], int): return v.path[-1][1]
            return v
        raise SpecMismatch('loop variable %s has no term' % res)

    def local_root(s, name, loop=None):
        c = [(a, v) for a, v in s.allocavar.items() if v[0] == name and a in s.localroots]
        if not c:
            c = [(a, (a, None, 0)) for a in s.localroots if re.sub(r'(\.addr)?(\.i\d*|\.\d+)*$', '', a) == name]
        if not c: return s.__dict__.setdefault('results', {}).get(name)
        c.sort(key=lambda x: x[1][2])
        return s.localroots[c[0][0]]

    def havoc_phi(s, st, P, init, di):
        if isinstance(init, Ptr):
            if init.root is None or not init.path or isinstance(init.path[-1], int):
                if init.root is not None and init.root.kind != 'heap': return init
                if init.root is None:
                    h = s.unit.heap_root(s.dw.name(s.dw.pointee(di))) if di is not None and s.dw.pointee(di) is not None else None
                    if h is None: return init
                    init = Ptr(h, (('x', z3.IntVal(0)),))
            t = z3.BitVec(fresh_name(P.res), 64) if s.bv else z3.Int(fresh_name(P.res))
            return Ptr(init.root, init.path[:-1] + (('x', t),))
        ty = P.ty
        if ty.k == 'int':
            if ty.w == 1: return V(z3.Bool(fresh_name(P.res)), 1, 'B')
            if s.bv: return V(z3.BitVec(fresh_name(P.res), ty.w), ty.w, 'V')
            if isinstance(init, V) and init.k == 'O': return V(z3.Const(fresh_name(P.res), init.t.sort()), init.w, 'O')
            k = s.dw.enc(di) if di is not None else None
            if k == 'B': return s.fresh_int(st, P.res, ty.w, 'b')
            if k not in ('S', 'U'): k = init.k if isinstance(init, V) and init.k in 'SU' and not is_lit(init.t) else 'S'
            return s.fresh_int(st, P.res, ty.w, k)
        if ty.k == 'float': return V(z3.Const(fresh_name(P.res), OSort('Float_' + ty.name)), 64, 'F')
        raise Unsupported('loop phi of type %r' % ty)

    def norm_ptr(s, v):
        if isinstance(v, Ptr) and v.root is not None and v.path and isinstance(v.path[-1], int) and s.M.resolve(s.ty_at(v)).k == 'arr':
            return Ptr(v.root, v.path + (('x', z3.BitVecVal(0, 64) if s.bv else z3.IntVal(0)),))
        return v

    def loop_enter(s, st, h, phis, inc, ls):
        inc = [s.norm_ptr(v) for v in inc]
        k = s.loop_index(h)
        ps = {p[0]: p for p in s.phi_names(h)}
        saved = dict(st.env)
        for P, v in zip(phis, inc):
            if isinstance(v, V) and v.k in 'SU' and not s.bv:
                kk = s.dw.enc(ps[P.res][2]) if ps[P.res][2] is not None else None
                if kk == 'B': kk = 'U'
                if kk not in ('S', 'U'): kk = v.k if not is_lit(v.t) else 'S'
                v = V(s.tokind(v, kk), v.w, kk)
            st.env[P.res] = v
        st.loops[h] = {'fresh': ()}
        lbl = ls.name or 'loop%d' % k
        entry = st.copy()
        view = View(s, st, s.args, old=s.oldview, loop=h); view.facts = []
        view.entry = view; view.first = True; view.prev = None
        if ls.use: ls.use(view)
        for lab, f in aslist(ls.inv(view) if ls.inv else [], 'inv'):
            s.oblige(st, '%s init %s' % (lbl, lab), f, 'inv-init', s.f.blocks[h].ins[-1], extra=view.facts)
        # havoc
        for P, v in zip(phis, inc): st.env[P.res] = s.havoc_phi(st, P, v, ps[P.res][2])
        for key, (root, shape) in s.modset[h].items():
            old = st.mem.get(key)
            if isinstance(old, (Ptr, FnPtr)): raise Unsupported('pointer leaf modified in loop')
            lt = s.leaf_type(root, shape)
            kd = s.leaf_kind(root, shape, lt)
            if kd[0] == 'P' and not s.heap_of_leaf(root, shape):
                st.mem.pop(key, None); continue
            nm = fresh_name('%s.%s' % (root.name, '.'.join(map(str, shape))))
            t = z3.Const(nm, s.leaf_sort(kd, sum(1 for q in shape if q == 'x')))
            st.mem[key] = t
            if 'x' not in shape and kd[0] in 'SUb' and not s.bv:
                lo, hi = (0, 1) if kd[0] == 'b' else rng(kd[1], kd[0])
                if s.is_size(root, shape): hi = s.unit.max_size
                s.setb(t, lo, hi); s.fact(st, z3.And(t >= lo, t <= hi))
        view = View(s, st, s.args, old=s.oldview, loop=h); view.facts = []
        view.entry = View(s, entry, s.args, old=s.oldview, loop=h)
        view.first = None; view.prev = None
        for lab, f in aslist(ls.inv(view) if ls.inv else [], 'inv'): s.fact(st, f)
        if ls.head:
            view.facts = []; ls.head(view)
            for f in view.facts: s.fact(st, f)
        m = ls.dec(view) if ls.dec else None
        hs = st.copy()
        st.loops[h] = {'fresh': (), 'measure': m, 'head': hs, 'entry': entry}

    def leaf_type(s, root, shape):
        t = root.ty
        for st in shape:
            r = s.M.resolve(t); t = r.els[st] if isinstance(st, int) else r.el
        return s.M.resolve(t)

    def loop_back(s, st, h, phis, inc, ls):
        s.paths += 1; inc = [s.norm_ptr(v) for v in inc]
        k = s.loop_index(h); info = st.loops[h]; lbl = ls.name or 'loop%d' % k
        ps = {p[0]: p for p in s.phi_names(h)}
        for P, v in zip(phis, inc):
            hv = info['head'].env[P.res]
            if isinstance(hv, Ptr) and isinstance(v, Ptr):
                if hv.root is not v.root:
                    if hv.root is not None and hv.root.kind == 'heap' and v.root is None: v = Ptr(hv.root, (('x', z3.IntVal(0)),))
                    else: raise Unsupported('loop pointer changes object')
                elif len(hv.path) != len(v.path): raise Unsupported('loop pointer changes shape')
                else:
                    for i, (a, b) in enumerate(zip(hv.path, v.path)):
                        if isinstance(a, int) != isinstance(b, int) or (isinstance(a, int) and a != b): raise Unsupported('loop pointer changes shape')
                        last = i == len(hv.path) - 1
                        if not isinstance(a, int) and not last and not s.prove(a[1] == b[1]): raise Unsupported('loop pointer changes element')
                st.env[P.res] = v
            elif isinstance(hv, V) and isinstance(v, V) and hv.k in 'SU' and v.k in 'SU':
                st.env[P.res] = V(s.tokind(v, hv.k), v.w, hv.k)
            else: st.env[P.res] = v
        view = View(s, st, s.args, old=s.oldview, loop=h); view.facts = []
        view.prev = View(s, info['head'], s.args, old=s.oldview, loop=h)
        view.entry = View(s, info['entry'], s.args, old=s.oldview, loop=h)
        view.first = False
        term = s.f.blocks[h].ins[-1]
        if ls.use: ls.use(view)
        for lab, f in aslist(ls.inv(view) if ls.inv else [], 'inv'):
            s.oblige(st, '%s preserve %s' % (lbl, lab), f, 'inv-preserve', term, extra=view.facts)
        if ls.dec:
            m1 = ls.dec(view); m0 = info['measure']
            s.oblige(st, '%s decreases' % lbl, z3.And(m0 >= 0, m1 < m0), 'decreases', term, extra=view.facts)

    # ------------------------------------------------------------ instructions
    def ins(s, st, I):
        op = I.op
        if op in BIN:
            if op[0] == 'f':
                x = s.val(st, I.a[0], I.ty); y = s.val(st, I.a[1], I.ty)
                st.env[I.res] = s.unit.float_op(s, st, op, x, y, I); return
            x = s.val(st, I.a[0], I.ty); y = s.val(st, I.a[1], I.ty)
            st.env[I.res] = s.binop(st, I, op, x, y, I.ty, I.flags); return
        if op == 'icmp':
            pred, a, b = I.a
            st.env[I.res] = V(z3.simplify(s.icmp(st, pred, s.val(st, a, I.ty), s.val(st, b, I.ty))), 1, 'B'); return
        if op in CAST:
            t1, v = I.a; x = s.val(st, v, t1)
            if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
                st.env[I.res] = s.unit.float_cast(s, st, op, x, t1, I.ty); return
            st.env[I.res] = s.cast(op, x, t1, I.ty, st); return
        if op == 'freeze': st.env[I.res] = s.val(st, I.a[0][1] if isinstance(I.a[0], tuple) and len(I.a[0]) == 2 and isinstance(I.a[0][0], Ty) else I.a[0], I.ty); return
        if op == 'alloca':
            r = Root(I.res, I.ty, s.allocavar.get(I.res, (None, None))[1], 'alloca')
            if r.di is None and I.ty.k == 'named': r.di = s.unit.named_di.get(I.ty.name)
            r.uid = 'alloca:' + I.res
            s.localroots[I.res] = r
            st.env[I.res] = Ptr(r)
            for key in [k for k in st.mem if k[0] == r.uid]: del st.mem[key]
            return
        if op == 'load': st.env[I.res] = s.load(st, s.val(st, I.a[0], PTR), I.ty, I); return
        if op == 'store':
            v, p = I.a
            s.store(st, s.val(st, p, PTR), s.val(st, v, I.ty), I.ty, I); return
        if op == 'getelementptr':
            sty, b, idx = I.a
            st.env[I.res] = s.gep(st, sty, s.val(st, b, PTR), [s.val(st, v, t) for t, v in idx]); return
        if op == 'extractvalue':
            v, idx = I.a; x = s.val(st, v, I.ty)
            for i in idx: x = x.els[i]
            st.env[I.res] = x; return
        if op == 'insertvalue':
            v, ety, e, idx = I.a; x = s.val(st, v, I.ty); y = s.val(st, e, ety)
            if len(idx) != 1: raise Unsupported('nested insertvalue')
            n = Agg(x.els); n.els[idx[0]] = y; st.env[I.res] = n; return
        if op == 'call': s.call(st, I); return
        if op == 'fcmp':
            st.env[I.res] = s.unit.float_cmp(s, st, I.a[0], s.val(st, I.a[1], I.ty), s.val(st, I.a[2], I.ty)); return
        if op == 'fence': return
        raise Unsupported('instruction ' + op)

    def call(s, st, I):
        callee, args, _ = I.a
        if callee[0] == 'glob': nm = callee[1]
        else:
            f = s.val(st, callee, PTR)
            if not isinstance(f, FnPtr): raise Unsupported('indirect call')
            nm = f.name
        from . import builtins
        av = lambda i: s.val(st, args[i][1], args[i][0])
        if builtins.handle(s, st, I, nm, args, av): return
        c = s.unit.contract_for(nm)
        if c is not None:
            r = s.apply_contract(st, I, nm, c, [s.val(st, v, t) for t, v, a in args])
            if I.res is not None: st.env[I.res] = r
            return
        raise Unsupported('call to %s without contract' % s.unit.demangle(nm))

    def apply_contract(s, st, I, nm, spec, vals):
        """modular call: assert requires, havoc the frame, assume ensures"""
        f = s.M.funcs.get(nm) or s.M.decls.get(nm)
        names = spec.params or [p[1] for p in f.params]
        args = {}
        pt = s.param_types(f)
        for (ty, pn, at), n, v in zip(f.params, names, vals):
            if isinstance(v, V) and v.k in 'SU' and not s.bv:
                k = s.dw.enc(pt[pn]) if pt.get(pn) is not None else v.k
                if k == 'B': k = 'U'
                if k in ('S', 'U'): v = V(s.tokind(v, k), v.w, k)
            args[n] = v
            if n.endswith('.coerce'): args[n[:-7]] = v
        a = args.get('agg.result')   # the object a contract returns is also known under the contract's name
        if isinstance(a, Ptr) and a.root is not None and not a.path: s.__dict__.setdefault('results', {})[spec.name] = a.root
        pre = st.copy(); pv = View(s, pre, args); pv.facts = []
        pv.call = True
        tag = spec.name
        if spec.recursive and spec.dec is not None and (spec is s.spec or (getattr(spec, 'group', None) and getattr(s.spec, 'group', None) == spec.group)):
            m0 = s.spec.dec(View(s, s.entry, s.args)); m1 = spec.dec(pv)
            s.oblige(st, 'call %s: measure decreases' % tag, z3.And(m1 >= 0, m1 < m0), 'decreases', I)
        for lab, g in aslist(spec.requires(pv) if spec.requires else [], 'requires'):
            s.oblige(st, 'call %s: requires %s' % (tag, lab), g, 'requires', I); s.fact(st, g)
        for mod in (spec.modifies(pv) if spec.modifies else []):
            p = pv.ptr(mod) if isinstance(mod, str) else mod
            for ext, lt, en in s.leaves(s.ty_at(p)):
                sh = s.shape(p.path) + ext
                kd = s.leaf_kind(p.root, sh, lt)
                if kd[0] == 'P' and not s.heap_of_leaf(p.root, sh): continue
                t = z3.Const(fresh_name('%s_%s' % (tag, '_'.join(map(str, sh)))), s.leaf_sort(kd, sum(1 for q in ext if q == 'x')))
                s.write_leaf(st, p, ext, lt, t)
                if 'x' not in ext and kd[0] in 'SUb' and not s.bv:
                    lo, hi = (0, 1) if kd[0] == 'b' else rng(kd[1], kd[0])
                    if s.is_size(p.root, sh): hi = s.unit.max_size
                    s.setb(t, lo, hi); s.fact(st, z3.And(t >= lo, t <= hi))
        res = None
        if I.ty.k == 'int':
            if I.ty.w == 1: res = V(z3.Bool(fresh_name('r')), 1, 'B')
            elif s.bv: res = V(z3.BitVec(fresh_name('r'), I.ty.w), I.ty.w, 'V')
            else:
                osn = spec.res_sort if hasattr(spec, 'res_sort') else None
                if osn is None and f.dbg is not None:
                    t = s.M.md_field(f.dbg, 'type'); l = s.M.md_field(t, 'types') if t is not None else None
                    m = re.match(r'!\{!(\d+)', s.M.md(l)) if l is not None else None
                    if m: osn = s.unit.opaque_di(s, int(m.group(1)))
                if osn: res = V(z3.Const(fresh_name('r'), OSort(osn)), I.ty.w, 'O')
                else:
                    k = 'S'
                    if f.dbg is not None:
                        t = s.M.md_field(f.dbg, 'type'); l = s.M.md_field(t, 'types') if t is not None else None
                        m = re.match(r'!\{(null|!\d+)', s.M.md(l)) if l is not None else None
                        if m and m.group(1) != 'null': k = s.dw.enc(int(m.group(1)[1:])) or 'S'
                    res = s.fresh_int(st, 'r', I.ty.w, 'b' if k == 'B' else k)
        elif I.ty.k == 'ptr':
            h = spec.res_heap if hasattr(spec, 'res_heap') else None
            if h: res = Ptr(s.unit.heap_root(h), (('x', z3.Int(fresh_name('rp'))),))
            elif f.params and 'returned' in f.params[0][2]: res = vals[0]
            elif returned_param(f) is not None: res = vals[returned_param(f)]
            else: raise Unsupported('pointer-returning contract')
        pst = st
        rt = res.t if isinstance(res, V) else (res.path[0][1] if isinstance(res, Ptr) and res.path and isinstance(res.path[0], tuple) else res)
        v = View(s, pst, args, old=pv, res=rt); v.facts = []
        for lab, g in aslist(spec.ensures(v) if spec.ensures else [], 'ensures'): s.fact(st, g)
        s.assumed.add(nm)
        return res

def returned_param(f):
    """index of the parameter that every return instruction of f returns unchanged, or None"""
    ps = [p[1] for p in f.params]; rs = set()
    if hasattr(f, 'blocks'): finish_func(f)
    for b in getattr(f, 'blocks', {}).values():
        for I in b.ins:
            if I.op == 'ret': rs.add(I.a)
    if len(rs) == 1:
        r = rs.pop()
        if r is not None and r[0] == 'loc' and r[1] in ps: return ps.index(r[1])
    return None
class Dead(Exception): pass
class RestartRun(Exception): pass
