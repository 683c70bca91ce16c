"""DWARF-directed naming: maps LLVM struct fields to C++ member names and signedness."""
import re

class Dw:
    def __init__(s, M):
        s.M = M; s._mem = {}; s._strip = {}

    def tag(s, i):
        m = re.search(r'\btag: (\w+)', s.M.md(i))
        if m: return m.group(1)
        if 'DIBasicType' in s.M.md(i): return 'base'
        return None

    def strip(s, i):
        if i in s._strip: return s._strip[i]
        k = i
        while k is not None and s.tag(k) in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_member',
                                             'DW_TAG_inheritance', 'DW_TAG_restrict_type'):
            k = s.M.md_field(k, 'baseType')
        s._strip[i] = k
        return k

    def pointee(s, i):
        i = s.strip(i)
        if i is None: return None
        if s.tag(i) in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return s.strip(s.M.md_field(i, 'baseType'))
        return None

    def size(s, i):
        i = s.strip(i)
        if i is None: return 0
        if s.tag(i) in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'): return 64
        return int(s.M.md_field(i, 'size') or 0)

    def enc(s, i):
        """'S','U','B'(bool),'F' or None"""
        i = s.strip(i)
        if i is None: return None
        t = s.tag(i)
        if t == 'base':
            e = s.M.md_field(i, 'encoding')
            return {'DW_ATE_signed': 'S', 'DW_ATE_signed_char': 'S', 'DW_ATE_unsigned': 'U', 'DW_ATE_unsigned_char': 'U',
                    'DW_ATE_boolean': 'B', 'DW_ATE_float': 'F', 'DW_ATE_UTF': 'U'}.get(e)
        if t == 'DW_TAG_enumeration_type':
            b = s.M.md_field(i, 'baseType')
            return s.enc(b) if b is not None else 'U'
        if t in ('DW_TAG_pointer_type', 'DW_TAG_reference_type'): return 'P'
        return None

    def members(s, i):
        """[(name or None (base class), type, bit offset)]"""
        i = s.strip(i)
        if i in s._mem: return s._mem[i]
        out = []
        if i is not None:
            el = s.M.md_field(i, 'elements')
            if el is not None:
                for m in s.M.md_list(el):
                    md = s.M.md(m); t = s.tag(m)
                    if t == 'DW_TAG_member':
                        if 'DIFlagStaticMember' in md: continue
                        out.append((s.M.md_field(m, 'name') or '', s.M.md_field(m, 'baseType'), int(s.M.md_field(m, 'offset') or 0)))
                    elif t == 'DW_TAG_inheritance':
                        out.append((None, s.M.md_field(m, 'baseType'), int(s.M.md_field(m, 'offset') or 0)))
        s._mem[i] = out
        return out

    def elem(s, i):
        i = s.strip(i)
        if i is not None and s.tag(i) == 'DW_TAG_array_type': return s.M.md_field(i, 'baseType')
        return None

    def field(s, di, ty, idx):
        """DWARF (name, type) of LLVM field idx of struct type ty described by di; None if unknown"""
        if di is None: return None
        M = s.M; off = M.offsets(ty)[idx] * 8; fsz = M.size_align(M.resolve(ty).els[idx])[0] * 8
        cands = [m for m in s.members(di) if m[2] == off]
        if not cands: return None
        if len(cands) > 1:
            fl = M.resolve(M.resolve(ty).els[idx]); isarr = fl.k == 'arr' and fl.n == 0
            ar = [m for m in cands if (s.tag(s.strip(m[1])) == 'DW_TAG_array_type') == isarr]
            if ar: cands = ar
        if len(cands) > 1:
            ar = [m for m in cands if not (m[0] is None and s.members(m[1]) == [])]
            if ar: cands = ar
        if len(cands) > 1:
            ex = [m for m in cands if s.size(m[1]) == fsz and (fsz == 0) == (s.size(m[1]) == 0)]
            if ex: cands = ex
            nz = [m for m in cands if not (s.size(m[1]) == 8 and s.members(m[1]) == [] and fsz != 8)]
            if nz: cands = nz
        return cands[0]

    def name(s, di):
        di = s.strip(di)
        return s.M.md_field(di, 'name') if di is not None else None
