"""A verified unit: one /verif/units/<name>.cpp wrapping real /repo headers, compiled to IR, with contracts."""
import os, re, subprocess, hashlib, tempfile, shutil
from .irparse import *
from .dwarf import Dw
from .engine import *
from . import engine as E

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IRV_REPO', '/repo')
GCCINC = '/usr/lib/gcc/x86_64-linux-gnu/13/include'
INC = ['-nostdinc', '-nostdinc++', '-isystem', VERIF + '/ghost', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13',
       '-isystem', '/usr/lib/llvm-18/lib/clang/18/include', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include']
FLAGS = ['--target=wasm64', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-exceptions', '-fno-discard-value-names',
         '-fno-threadsafe-statics', '-fno-access-control', '-fno-builtin', '-D__x86_64__', '-D__LP64__=1', '-DIRV_UNIT', '-w', '-ferror-limit=5', '-fstandalone-debug']

class CompileError(Exception): pass

class Unit:
    def __init__(s, name, specs=(), contracts=(), opaque=None, keep=(), theory=(), heaps=None, defs=(), uf_hook=None, src=None, post=''):
        s.name = name; s.specs = list(specs); s.contracts = list(contracts); s.opaque_names = opaque or {}; s.keep = list(keep)
        s.theory = list(theory); s.heaps = heaps or {}; s.defs = list(defs); s.uf_hook = uf_hook; s.src = src or name; s.post = post
        s.quick_rlimit = 400000; s.max_size = 1 << 58
        s.leafcache = {}; s.named_di = {}; s.groots = {}; s.hroots = {}; s.opaque = {}
        s.ptrinit = None

    # ------------------------------------------------------------ extraction
    def compile(s, keepdir=None):
        d = tempfile.mkdtemp(prefix='irv_')
        try:
            src = os.path.join(VERIF, 'units', s.src + '.cpp'); a = d + '/a.ll'; b = d + '/b.ll'; c = d + '/c.ll'
            cmd = ['clang++'] + FLAGS + INC + ['-I' + REPO] + ['-D' + x for x in s.defs] + ['-S', '-emit-llvm', src, '-o', a]
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
            if r.returncode: raise CompileError('extraction of unit %s failed:\n%s' % (s.name, r.stderr[:3000]))
            txt = open(a).read()
            names = re.findall(r'^define [^@]*@("?[^"(]+"?)\(', txt, re.M)
            dem = demangle(names)
            out = []
            for l in txt.split('\n'):
                if l.startswith('define'):
                    m = re.search(r'@("?)([^"(]+)\1\(', l); nm = m.group(2)
                    isw = not nm.startswith('_Z') and not nm.startswith('__')
                    keep = isw or any(re.search(k, dem.get(nm, nm)) for k in s.keep)
                    if not keep: l = re.sub(r' (#\d+)( comdat.*| align.*| !dbg.*| \{.*|)$', r' alwaysinline \1\2', l, 1)
                    else: l = re.sub(r' (#\d+)( comdat.*| align.*| !dbg.*| \{.*|)$', r' noinline \1\2', l, 1)
                elif l.startswith('attributes #'):
                    l = l.replace(' noinline', '').replace(' optnone', '')
                out.append(l)
            txt = '\n'.join(out)
            # wrappers and kept functions must survive globaldce
            open(b, 'w').write(txt)
            for rnd in range(4):
                # a further round inlines calls through function pointers that the previous round turned into direct calls
                r = subprocess.run(['opt', '-S', '-passes=always-inline,function(sroa,simplifycfg,early-cse,simplifycfg%s),globaldce' % s.post, b, '-o', c], capture_output=True, text=True, timeout=300)
                if r.returncode: raise CompileError('opt failed on unit %s:\n%s' % (s.name, r.stderr[:3000]))
                s.ll = open(c).read()
                ai = set(re.findall(r'^attributes (#\d+) = \{[^}]*\balwaysinline\b', s.ll, re.M))
                left = [m.group(2) for l in s.ll.split('\n') if l.startswith('define') and any(re.search(r' %s\b' % a, l) for a in ai) for m in [re.search(r'@("?)([^"(]+)\1\(', l)]]
                if not any(re.search(r'\bcall\b[^@\n]*@"?%s"?\(' % re.escape(n), s.ll) for n in left): break
                shutil.copy(c, b)
            if keepdir: shutil.copy(c, os.path.join(keepdir, s.name + '.ll'))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        s.M = parse_module(s.ll); s.dw = Dw(s.M)
        s.dem = demangle(list(s.M.funcs) + list(s.M.decls))
        s.tymap = {}; s.tyname = {}
        for nm, f in s.M.funcs.items():
            if nm.startswith('vcty_'):
                finish_func(f)
                t = s.M.md_field(s.M.md_field(f.dbg, 'type'), 'types')
                di = s.dw.pointee([int(x[1:]) for x in re.findall(r'!\d+', s.M.md(t)[2:])][0])
                for b in f.blocks.values():
                    for I in b.ins:
                        if I.op == 'getelementptr':
                            s.tymap[di] = I.a[0]; s.tyname[nm[5:]] = (I.a[0], di)
                            if I.a[0].k == 'named': s.named_di[I.a[0].name] = di
        for alias, sort in s.opaque_names.items():
            if alias in s.tyname: s.opaque[s.tyname[alias][0].name] = sort
        return s

    def demangle(s, n): return s.dem.get(n, n)
    def contract_for(s, nm):
        d = s.dem.get(nm, nm)
        for c in s.contracts:
            pat = c.match if hasattr(c, 'match') else '^' + re.escape(c.name) + r'$'
            if re.search(pat, d): return c
        return None
    def global_root(s, nm):
        if nm not in s.groots:
            ty, init, const = s.M.globals[nm]
            di = None
            m = re.search(r'^@"?%s"? = .*!dbg !(\d+)' % re.escape(nm), s.ll, re.M)
            if m:
                v = s.M.md_field(int(m.group(1)), 'var')
                if v is not None: di = s.M.md_field(v, 'type')
            r = Root('glob_' + nm, ty, di, 'global'); r.gname = nm; s.groots[nm] = r
        return s.groots[nm]
    def const_globals(s): return []
    def heap_root(s, cname):
        if cname not in s.heaps: return None
        if cname not in s.hroots:
            ty, di = s.tyname[s.heaps[cname]]
            r = Root('heap_' + s.heaps[cname], Ty('arr', n=0, el=ty), None, 'heap')
            s.hroots[cname] = r
        return s.hroots[cname]
    def arg_root(s, ex, nm, pd, at):
        if pd is None: raise Unsupported('untyped pointer parameter %s' % nm)
        if s.dw.name(pd) in s.heaps:
            return Ptr(s.heap_root(s.dw.name(pd)), (('x', z3.Int(nm)),))
        ty = s.tymap.get(pd)
        if ty is None:
            enc = s.dw.enc(pd); sz = s.dw.size(pd)
            if enc in ('S', 'U', 'B'): ty = Ty('int', w=sz)
            elif enc == 'F': ty = Ty('float', name={32: 'float', 64: 'double', 128: 'fp128'}[sz])
            else: raise Unsupported('no LLVM type for parameter %s (%s)' % (nm, s.dw.name(pd)))
        if nm.startswith('arr_'):
            r = Root(nm, Ty('arr', n=0, el=ty), None, 'arg')
            r.arr_di = pd
            ex.roots[nm] = r
            return Ptr(r, (('x', ex.ival(0)),))
        return Root(nm, ty, pd, 'arg')
    def opaque_di(s, ex, di):
        if di is None: return None
        t = s.tymap.get(s.dw.strip(di))
        return s.opaque.get(t.name) if t is not None and t.k == 'named' else None
    def ptr_init(s, ex, q):
        return s.ptrinit(ex, q) if s.ptrinit else None
    def alloc_hook(s, ex, st, I, nm, args, av): return None
    def member_fallback(s, ex, t, di, name):
        """a renamed data member: take the member (of the recorded type and position) whose name is new"""
        base = s.baseline.get('fields', {}) if getattr(s, 'baseline', None) else {}
        key = s.dw.name(di) if di is not None else None
        if key is None or key not in base: return None
        bl = base[key]
        if name not in [b[0] for b in bl]: return None
        bt = [b[1] for b in bl if b[0] == name][0]
        cur = s.field_list(ex, t, di)
        known = {b[0] for b in bl}
        newc = [c for c in cur if c[0] not in known and c[1] == bt]
        miss = [b[0] for b in bl if b[1] == bt and b[0] not in {c[0] for c in cur}]
        if len(newc) == len(miss) and name in miss: return newc[miss.index(name)][2]
        return None
    def field_list(s, ex, t, di, pre=()):
        out = []; r = s.M.resolve(t)
        for i in range(len(r.els)):
            f = s.dw.field(di, t, i)
            if not f: continue
            if f[0] is None or f[0] == '': out += s.field_list(ex, r.els[i], f[1], pre + (i,))
            else: out.append((f[0], shortty(s.M, r.els[i]), pre + (i,)))
        return out
    def loopvar_fallback(s, ex, h, name, ps):
        base = s.baseline.get('loops', {}) if getattr(s, 'baseline', None) else {}
        bl = base.get(ex.f.name)
        if not bl: return None
        k = ex.loop_index(h)
        if k >= len(bl): return None
        bl = bl[k]
        if name not in [b[0] for b in bl]: return None
        known = {b[0] for b in bl}; curn = {p[1] for p in ps} | {a for p in ps for a in p[4]}
        bt = [b[1] for b in bl if b[0] == name][0]
        newc = [p for p in ps if p[1] not in known and repr(p[3]) == bt]
        miss = [b[0] for b in bl if b[1] == bt and b[0] not in curn]
        if len(newc) == len(miss) and name in miss: return newc[miss.index(name)][0]
        return None
    def float_op(s, *a): raise Unsupported('floating point')
    def float_cast(s, *a): raise Unsupported('floating point')
    def float_cmp(s, *a): raise Unsupported('floating point')

    def record_baseline(s, exs):
        fields = {}; loops = {}
        for nm, (t, di) in s.tyname.items():
            if t.k == 'named' and s.M.resolve(t).k == 'struct':
                st = [(t, di)]; seen = set()
                while st:
                    tt, d = st.pop()
                    if d is None or tt.k != 'named' or tt.name in seen: continue
                    seen.add(tt.name); key = s.dw.name(d)
                    fl = s.field_list(None, tt, d)
                    if key and not key.startswith('vector<'): fields[key] = [[a, b] for a, b, _ in fl]
        for ex in exs:
            loops[ex.f.name] = [[[p[1], repr(p[3])] for p in ex.phi_names(h)] for h, _ in ex.loops]
        return {'fields': fields, 'loops': loops}

def shortty(M, t):
    if t.k == 'named': return re.sub(r'\.\d+$', '', t.name)
    return repr(t)

def demangle(names):
    names = [n.strip('"') for n in names]
    if not names: return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    d = dict(zip(names, r.stdout.split('\n')))
    rest = [n for n in names if n.startswith('_Z') and d.get(n) == n]        # manglings newer than binutils
    if rest:
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(rest), capture_output=True, text=True)
        d.update(zip(rest, r.stdout.split('\n')))
    return d
