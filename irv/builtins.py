"""Meaning of LLVM intrinsics, of the ghost-library primitives and of uninterpreted (template-parameter) functions."""
import re, z3
from .engine import *
from . import engine as E

def fillq(ex, A, A2, lo, hi, f):
    i = z3.Int('i!f') if not ex.bv else z3.BitVec('i!f', 64)
    le = (lambda a, b: a <= b) if not ex.bv else z3.ULE
    lt = (lambda a, b: a < b) if not ex.bv else z3.ULT
    return z3.ForAll([i], z3.Select(A2, i) == z3.If(z3.And(le(lo, i), lt(i, hi)), f(i), z3.Select(A, i)), patterns=[z3.Select(A2, i)])

def term64(ex, v): return v.t if ex.bv else ex.S(v)

def split_elem(p):
    if not p.path or isinstance(p.path[-1], int): raise Unsupported('element pointer expected: %s' % (p,))
    return Ptr(p.root, p.path[:-1]), p.path[-1][1]

def elem_leaves(ex, arrp):
    et = ex.M.resolve(ex.ty_at(arrp)).el
    return [(('x',) + ext, lt, ext) for ext, lt, en in ex.leaves(et)], et

def to_elem(ex, p):
    """normalise a pointer to an array element position"""
    if p.path and not isinstance(p.path[-1], int): return p
    t = ex.M.resolve(ex.ty_at(p))
    if t.k == 'arr': return Ptr(p.root, p.path + (('x', ex.ival(0)),))
    if t.k == 'struct' and len(t.els) == 1: return to_elem(ex, Ptr(p.root, p.path + (0,)))
    return p

def fill(ex, st, dst, frm, to, vp):
    dst = to_elem(ex, dst)
    arr, b = split_elem(dst)
    ls, et = elem_leaves(ex, arr)
    vp = ex.align_to(vp, et) or vp
    lo = z3.simplify(b + frm); hi = z3.simplify(b + to)
    for ext, lt, e2 in ls:
        A = ex.sel(ex.base_term(st, arr.root, ex.shape(arr.path) + ext, lt), ex.idxs(arr.path))
        if vp.root is None: raise Unsupported('fill value')
        val = ex.base_term(st, vp.root, ex.shape(vp.path) + e2, lt)
        val = ex.conv_kind(vp, e2, Ptr(arr.root, arr.path + (('x', None),)), lt, ex.sel(val, ex.idxs(vp.path)))
        A2 = z3.Const(fresh_name('fill'), A.sort())
        ex.fact(st, fillq(ex, A, A2, lo, hi, lambda i: val))
        ex.write_leaf(st, arr, ext, lt, A2)

def fillall(ex, st, dst, vp):
    dst = to_elem(ex, dst)
    arr, b = split_elem(dst)
    ls, et = elem_leaves(ex, arr)
    vp = ex.align_to(vp, et) or vp
    for ext, lt, e2 in ls:
        val = ex.base_term(st, vp.root, ex.shape(vp.path) + e2, lt)
        if val is None or isinstance(val, Ptr): raise Unsupported('fill with pointers')
        val = ex.conv_kind(vp, e2, Ptr(arr.root, arr.path + (('x', None),)), lt, ex.sel(val, ex.idxs(vp.path)))
        ex.write_leaf(st, arr, ext, lt, z3.K(ex.isort(), val))

def copy_range(ex, st, dst, src, n, rev=False):
    dst = to_elem(ex, dst); src = to_elem(ex, src)
    da, db = split_elem(dst); sa, sb = split_elem(src)
    ls, et = elem_leaves(ex, da)
    if not ex.same_ty(et, ex.M.resolve(ex.ty_at(sa)).el): raise Unsupported('range copy of different types')
    out = []
    for ext, lt, e2 in ls:
        D = ex.sel(ex.base_term(st, da.root, ex.shape(da.path) + ext, lt), ex.idxs(da.path))
        Sx = ex.sel(ex.base_term(st, sa.root, ex.shape(sa.path) + ext, lt), ex.idxs(sa.path))
        A2 = z3.Const(fresh_name('copy'), D.sort())
        if rev: f = lambda i: z3.Select(Sx, z3.simplify(sb + n - 1) - (i - db))
        else:
            off = z3.simplify(sb - db)
            f = lambda i: z3.Select(Sx, i + off)
        ex.fact(st, fillq(ex, D, A2, db, z3.simplify(db + n), f))
        out.append((ext, lt, A2))
    for ext, lt, A2 in out: ex.write_leaf(st, da, ext, lt, A2)

def uf_call(ex, st, I, nm, vals):
    """uninterpreted pure function uf_<ret>_<name>: ret is a sort name, 'b' (bool), 'i'/'u'/'l' (machine integer)"""
    m = re.match(r'uf_([A-Za-z0-9]+)_(\w+)$', nm)
    ret, name = m.group(1), m.group(2)
    ts = [v.t for v in vals]
    sorts = [t.sort() for t in ts]
    if ret == 'b':
        f = UF('uf_' + name, *sorts, BoolS); r = f(*ts)
        if I.ty.w == 1: return V(r, 1, 'B')
        return V(z3.If(r, ex.ival(1, I.ty.w), ex.ival(0, I.ty.w)), I.ty.w, 'V' if ex.bv else 'U')
    if ret in ('i', 'u', 'l'):
        f = UF('uf_' + name, *sorts, IntS); r = f(*ts)
        k = 'U' if ret == 'u' else 'S'
        lo, hi = rng(I.ty.w, k); ex.setb(r, lo, hi); ex.fact(st, z3.And(r >= lo, r <= hi))
        return V(r, I.ty.w, k)
    f = UF('uf_' + name, *sorts, OSort(ret))
    r = f(*ts)
    return V(r, I.ty.w if I.ty.k == 'int' else 64, 'O')

def handle(ex, st, I, nm, args, av):
    bv = ex.bv
    if nm.startswith('llvm.'):
        b = nm.split('.')[1]
        if b in ('umin', 'umax', 'smin', 'smax'):
            x, y = av(0), av(1)
            if bv:
                c = {'umin': z3.ULT(x.t, y.t), 'umax': z3.UGT(x.t, y.t), 'smin': x.t < y.t, 'smax': x.t > y.t}[b]
                st.env[I.res] = V(z3.If(c, x.t, y.t), x.w, 'V'); return True
            k = 'U' if b[0] == 'u' else 'S'
            a, c = ex.tokind(x, k), ex.tokind(y, k)
            st.env[I.res] = V(z3.If(a <= c, a, c) if b.endswith('min') else z3.If(a >= c, a, c), x.w, k); return True
        if b == 'abs':
            x = av(0)
            if bv: st.env[I.res] = V(z3.If(x.t < 0, -x.t, x.t), x.w, 'V'); return True
            t = ex.S(x); lo, hi = rng(x.w, 'S')
            if not (ex.bounds(t)[0] is not None and ex.bounds(t)[0] > lo):
                ex.oblige(st, 'no signed overflow in abs', t > lo, 'overflow', I); ex.fact(st, t > lo)
            st.env[I.res] = V(z3.If(t < 0, -t, t), x.w, 'S'); return True
        if b == 'ctpop':
            x = av(0)
            if bv:
                r = z3.BitVecVal(0, x.w)
                for i in range(x.w): r = r + z3.ZeroExt(x.w - 1, z3.Extract(i, i, x.t))
                st.env[I.res] = V(r, x.w, 'V'); return True
            u = ex.U(x); r = popcnt(u); ex.setb(r, 0, x.w); ex.fact(st, z3.And(r >= 0, r <= x.w, z3.Implies(u == 0, r == 0), z3.Implies(u > 0, r >= 1)))
            st.env[I.res] = V(r, x.w, 'U'); return True
        if b in ('cttz', 'ctlz'):
            x = av(0); zp = av(1)
            w = x.w
            if z3.is_true(z3.simplify(ex.asbool(zp))):
                ex.oblige(st, 'ctz/clz of zero', x.t != 0, 'ctz', I); ex.fact(st, x.t != 0)
            if bv:
                r = z3.BitVecVal(w, w)
                rg = range(w - 1, -1, -1) if b == 'cttz' else range(w)
                for i in rg:
                    r = z3.If(z3.Extract(i, i, x.t) == 1, z3.BitVecVal(i if b == 'cttz' else w - 1 - i, w), r)
                st.env[I.res] = V(r, w, 'V'); return True
            u = ex.U(x)
            if is_lit(u) and lit(u) != 0:
                n = lit(u); r = (n & -n).bit_length() - 1 if b == 'cttz' else w - n.bit_length()
                st.env[I.res] = V(z3.IntVal(r), w, 'S'); return True
            if b == 'cttz':
                r = ctzf(u); ex.setb(r, 0, w)
                ex.fact(st, z3.And(r >= 0, r <= w, z3.Implies(u != 0, z3.And(r < w, pow2(r) >= 1, pow2(r) <= u, u % pow2(r) == 0, (u / pow2(r)) % 2 == 1)), z3.Implies(u == 0, r == w)))
                st.env[I.res] = V(r, w, 'U'); return True
            f = z3.Function('clz%d' % w, IntS, IntS); r = f(u); ex.setb(r, 0, w)
            ex.fact(st, z3.And(r >= 0, r <= w, z3.Implies(u != 0, z3.And(r < w, pow2(w - 1 - r) <= u, u < 2 * pow2(w - 1 - r))), z3.Implies(u == 0, r == w)))
            st.env[I.res] = V(r, w, 'U'); return True
        if b in ('memcpy', 'memmove'):
            d, s_, n = av(0), av(1), av(2)
            t = z3.simplify(n.t)
            if not (z3.is_int_value(t) or z3.is_bv_value(t)): raise Unsupported('memcpy of symbolic size')
            n = t.as_long()
            if n == 0: return True
            copy_sized(ex, st, d, s_, n); return True
        if b == 'memset':
            d, v, n = av(0), av(1), av(2)
            t = z3.simplify(n.t); vv = z3.simplify(v.t)
            if not (is_lit(t) or z3.is_bv_value(t)) or vv.as_long() != 0: raise Unsupported('memset')
            zero_sized(ex, st, d, t.as_long()); return True
        if b in ('assume',):
            c = ex.asbool(av(0)); ex.oblige(st, 'llvm.assume', c, 'assume', I); ex.fact(st, c); return True
        if b == 'expect': st.env[I.res] = av(0); return True
        if b in ('lifetime', 'dbg', 'experimental', 'stackrestore', 'prefetch'): return True
        if b == 'stacksave': st.env[I.res] = NULL; return True
        if b in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and 'with.overflow' in nm:
            x, y = av(0), av(1)
            if bv: raise Unsupported(nm)
            k = 'S' if b[0] == 's' else 'U'; w = x.w
            p, q = ex.tokind(x, k), ex.tokind(y, k)
            r = p + q if b[1:] == 'add' else p - q if b[1:] == 'sub' else p * q
            lo, hi = rng(w, k)
            ov = z3.Not(z3.And(r >= lo, r <= hi))
            wr = ex.wrapU(st, r, w) if k == 'U' else ex.wrapS(st, r, w)
            st.env[I.res] = Agg([V(wr, w, k), V(ov, 1, 'B')]); return True
        if b in ('trap', 'ubsantrap'):
            ex.oblige(st, 'trap reached', z3.BoolVal(False), 'unreachable', I); raise Dead()
        if b in ('fshl', 'fshr') and bv:
            x, y, c = av(0).t, av(1).t, av(2).t; w = x.size()
            if b == 'fshl': r = (x << z3.URem(c, w)) | z3.If(z3.URem(c, w) == 0, z3.BitVecVal(0, w), z3.LShR(y, w - z3.URem(c, w)))
            else: r = z3.LShR(y, z3.URem(c, w)) | z3.If(z3.URem(c, w) == 0, z3.BitVecVal(0, w), x << (w - z3.URem(c, w)))
            st.env[I.res] = V(r, w, 'V'); return True
        raise Unsupported('intrinsic ' + nm)
    if nm == '__vc_assert':
        c = ex.asbool(av(0)) if av(0).w == 1 else av(0).t != 0
        ex.oblige(st, 'ghost library precondition', c, 'bounds', I); ex.fact(st, c); return True
    if nm == '__vc_assume':
        c = ex.asbool(av(0)) if av(0).w == 1 else av(0).t != 0
        ex.fact(st, c); return True
    if nm == '__vc_fill': fill(ex, st, av(0), term64(ex, av(1)), term64(ex, av(2)), av(3)); return True
    if nm == '__vc_fillall': fillall(ex, st, av(0), av(1)); return True
    if nm == '__vc_copy': copy_range(ex, st, av(0), av(1), term64(ex, av(2))); return True
    if nm == '__vc_rcopy': copy_range(ex, st, av(0), av(1), term64(ex, av(2)), rev=True); return True
    if nm == '__vc_obj':
        d, s_ = av(0), av(1)
        if not ex.same_ty(ex.ty_at(d), ex.ty_at(s_)):
            d2 = ex.align_to(d, ex.ty_at(s_)); s2 = ex.align_to(s_, ex.ty_at(d))
            if d2 is not None and ex.same_ty(ex.ty_at(d2), ex.ty_at(s_)): d = d2
            elif s2 is not None: s_ = s2
        ex.copy_obj(st, d, s_, I); return True
    if nm == '__vc_iota':
        p = to_elem(ex, av(0)); n = term64(ex, av(1)); v0 = av(2)
        arr, b = split_elem(p); ls, et = elem_leaves(ex, arr)
        if len(ls) != 1: raise Unsupported('iota')
        ext, lt, e2 = ls[0]
        A = ex.sel(ex.base_term(st, arr.root, ex.shape(arr.path) + ext, lt), ex.idxs(arr.path))
        A2 = z3.Const(fresh_name('iota'), A.sort())
        t0 = v0.t if bv else ex.S(v0)
        ex.fact(st, fillq(ex, A, A2, b, z3.simplify(b + n), lambda i: t0 + (i - b)))
        ex.write_leaf(st, arr, ext, lt, A2); return True
    if nm == '__vc_havoc':
        p = av(0)
        for ext, lt, en in ex.leaves(ex.ty_at(p)):
            sh = ex.shape(p.path) + ext; kd = ex.leaf_kind(p.root, sh, lt)
            ex.write_leaf(st, p, ext, lt, z3.Const(fresh_name('hv'), ex.leaf_sort(kd, sum(1 for q in ext if q == 'x'))))
        return True
    if nm == '__vc_sort' or nm == '__vc_rsort':
        sort_range(ex, st, av(0), av(1), nm == '__vc_rsort'); return True
    if nm == '__vc_lower_bound' or nm == '__vc_upper_bound':
        # (first, last, value*) -> index offset; sortedness is a precondition
        f, l, vp = to_elem(ex, av(0)), to_elem(ex, av(1)), av(2)
        arr, b = split_elem(f); _, e = split_elem(l)
        ls, et = elem_leaves(ex, arr)
        if len(ls) != 1: raise Unsupported('lower_bound on records')
        ext, lt, e2 = ls[0]
        A = ex.sel(ex.base_term(st, arr.root, ex.shape(arr.path) + ext, lt), ex.idxs(arr.path))
        q, l2 = ex.leaf_of(vp)
        val = ex.conv_kind(Ptr(q.root, q.path), (), Ptr(arr.root, arr.path + (('x', None),) ), lt, ex.read_term(st, q)) if not bv else ex.read_term(st, q)
        i, j = z3.Ints('i!s j!s')
        ex.oblige(st, 'binary search precondition: range sorted', z3.ForAll([i, j], z3.Implies(z3.And(b <= i, i <= j, j < e), A[i] <= A[j])), 'requires', I)
        r = z3.Int(fresh_name('lb')); ex.setb(r, -(1 << 62), 1 << 62)
        lt_ = (lambda x: x < val) if nm == '__vc_lower_bound' else (lambda x: x <= val)
        ex.fact(st, z3.And(b <= r, r <= e))
        ex.fact(st, z3.ForAll([i], z3.Implies(z3.And(b <= i, i < r), lt_(A[i])), patterns=[A[i]]))
        ex.fact(st, z3.ForAll([i], z3.Implies(z3.And(r <= i, i < e), z3.Not(lt_(A[i]))), patterns=[A[i]]))
        ex.fact(st, z3.Implies(r < e, z3.Not(lt_(A[r]))))
        ex.fact(st, z3.Implies(r > b, lt_(A[r - 1])))
        st.env[I.res] = Ptr(arr.root, arr.path + (('x', r),)); return True
    if nm == '__assert_fail' or 'glibcxx_assert_fail' in nm:
        what = ''
        try:
            g = I.a[1][0][1]
            if g[0] == 'glob':
                init = ex.M.globals[g[1]][1]
                if init and init[0] == 'str': what = init[1].rstrip(b'\0').decode('utf8', 'replace')
        except Exception: pass
        ex.oblige(st, 'assert(%s)' % what, z3.BoolVal(False), 'assert', I); ex.paths += 1; raise Dead()
    if nm in ('abort', 'exit', '_ZSt9terminatev') or nm.startswith('_ZSt') and 'throw' in nm:
        ex.oblige(st, 'call of %s' % nm, z3.BoolVal(False), 'unreachable', I); raise Dead()
    if nm.startswith('uf_'):
        if ex.unit.uf_hook and ex.unit.uf_hook(ex, st, I, nm, args, av): return True
        vals = []
        sret = None
        for i, (t, v, at) in enumerate(args):
            x = av(i)
            if isinstance(x, Ptr):
                if 'sret' in at: sret = x; continue
                q, lt = ex.leaf_of(x); x = ex.load(st, q, lt, I)
            elif isinstance(x, FnPtr): raise Unsupported('function pointer argument')
            vals.append(x)
        r = uf_call(ex, st, I, nm, vals)
        if sret is not None:
            q, lt = ex.leaf_of(sret); ex.store(st, q, r, lt, I)
        elif I.res is not None: st.env[I.res] = r
        return True
    if nm in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'): return True
    if nm in ('_Znwm', '_Znam'):
        r = ex.unit.alloc_hook(ex, st, I, nm, args, av)
        if r is None: raise Unsupported('heap allocation')
        st.env[I.res] = r; return True
    return False

def sort_range(ex, st, f, l, rev=False):
    f, l = to_elem(ex, f), to_elem(ex, l)
    arr, b = split_elem(f); _, e = split_elem(l)
    ls, et = elem_leaves(ex, arr)
    p = z3.Function(fresh_name('perm'), IntS, IntS); q = z3.Function(fresh_name('perminv'), IntS, IntS)
    i, j = z3.Ints('i!s j!s')
    inr = lambda x: z3.And(b <= x, x < e)
    As = []
    for ext, lt, e2 in ls:
        A = ex.sel(ex.base_term(st, arr.root, ex.shape(arr.path) + ext, lt), ex.idxs(arr.path))
        A2 = z3.Const(fresh_name('sorted'), A.sort()); As.append((A, A2))
        ex.fact(st, z3.ForAll([i], z3.If(inr(i), A2[i] == A[p(i)], A2[i] == A[i]), patterns=[A2[i]]))
        ex.write_leaf(st, arr, ext, lt, A2)
    ex.fact(st, z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(p(i)), q(p(i)) == i)), patterns=[p(i)]))
    ex.fact(st, z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(q(i)), p(q(i)) == i)), patterns=[q(i)]))
    for A, A2 in As:
        ex.fact(st, z3.ForAll([i], z3.Implies(inr(i), A2[q(i)] == A[i]), patterns=[A[i]]))
    if len(As) == 1:
        A2 = As[0][1]
        c = (lambda x, y: x <= y) if not rev else (lambda x, y: x >= y)
        ex.fact(st, z3.ForAll([i, j], z3.Implies(z3.And(b <= i, i <= j, j < e), c(A2[i], A2[j])), patterns=[z3.MultiPattern(A2[i], A2[j])]))
    elif len(As) == 2:
        (_, X), (_, Y) = As
        le = lambda i, j: z3.Or(X[i] < X[j], z3.And(X[i] == X[j], Y[i] <= Y[j])) if not rev else z3.Or(X[i] > X[j], z3.And(X[i] == X[j], Y[i] >= Y[j]))
        ex.fact(st, z3.ForAll([i, j], z3.Implies(z3.And(b <= i, i <= j, j < e), le(i, j)), patterns=[z3.MultiPattern(X[i], X[j])]))
    else: raise Unsupported('sort of wide records')

def sized(ex, p, n):
    """sub-object (or enclosing object) at p with byte size n"""
    q = p
    if ex.M.size_align(ex.ty_at(q))[0] == n: return q
    while True:
        r = ex.M.resolve(ex.ty_at(q))
        if r.k == 'struct' and r.els: q = Ptr(q.root, q.path + (0,))
        elif r.k == 'arr': q = Ptr(q.root, q.path + (('x', ex.ival(0)),))
        else: break
        if ex.M.size_align(ex.ty_at(q))[0] == n: return q
    q = p
    while q.path and (q.path[-1] == 0 or (not isinstance(q.path[-1], int) and ex.is_zero(q.path[-1][1]))):
        q = Ptr(q.root, q.path[:-1])
        if ex.M.size_align(ex.ty_at(q))[0] == n: return q
    return None

def copy_sized(ex, st, d, s_, n):
    a, b = sized(ex, d, n), sized(ex, s_, n)
    if a is None or b is None:
        # tail padding: memcpy of a base subobject without its padding
        for p in (d, s_):
            pass
        a, b = d, s_
        if not ex.same_ty(ex.ty_at(a), ex.ty_at(b)):
            b2 = ex.align_to(b, ex.ty_at(a)); a2 = ex.align_to(a, ex.ty_at(b))
            if b2 is not None: b = b2
            elif a2 is not None: a = a2
            else: raise Unsupported('memcpy of %d bytes between %r and %r' % (n, ex.ty_at(d), ex.ty_at(s_)))
        # field-wise prefix copy
        t = ex.ty_at(a); r = ex.M.resolve(t)
        if r.k != 'struct': raise Unsupported('partial memcpy of %r' % t)
        for i, off in enumerate(ex.M.offsets(t)):
            sz = ex.M.size_align(r.els[i])[0]
            if off + sz <= n: ex.copy_obj(st, Ptr(a.root, a.path + (i,)), Ptr(b.root, b.path + (i,)))
            elif off < n: raise Unsupported('memcpy splits a member')
        return
    if not ex.same_ty(ex.ty_at(a), ex.ty_at(b)):
        b2 = ex.align_to(b, ex.ty_at(a)); a2 = ex.align_to(a, ex.ty_at(b))
        if b2 is not None: b = b2
        elif a2 is not None: a = a2
        else:
            # constant global initialiser vs element array of the same element types
            la, lb = ex.leaves(ex.ty_at(a)), ex.leaves(ex.ty_at(b))
            if len(la) == len(lb) and all(x[1].k == y[1].k and x[1].w == y[1].w and x[0].count('x') == y[0].count('x') for x, y in zip(la, lb)):
                for (e1, l1, _), (e2, l2, _) in zip(la, lb):
                    t = ex.sel(ex.base_term(st, b.root, ex.shape(b.path) + e2, l2), ex.idxs(b.path))
                    ex.write_leaf(st, a, e1, l1, t)
                return
            raise Unsupported('memcpy between %r and %r' % (ex.ty_at(a), ex.ty_at(b)))
    ex.copy_obj(st, a, b)

def zero_sized(ex, st, d, n):
    a = sized(ex, d, n)
    if a is None: raise Unsupported('memset of %d bytes at %r' % (n, ex.ty_at(d)))
    for ext, lt, en in ex.leaves(ex.ty_at(a)):
        k = ex.leaf_kind(a.root, ex.shape(a.path) + ext, lt)
        if k[0] == 'P' and not ex.heap_of_leaf(a.root, ex.shape(a.path) + ext):
            st.mem[(a.root.uid, ex.shape(a.path) + ext)] = NULL; continue
        if k[0] == 'F': raise Unsupported('memset of float')
        t = z3.Const('zero_' + str(ex.ksort(k)), ex.ksort(k)) if k[0] == 'O' else z3.BitVecVal(0, k[1]) if ex.bv else z3.IntVal(0)
        for _ in range(ext.count('x')): t = z3.K(ex.isort(), t)
        ex.write_leaf(st, a, ext, lt, t)
