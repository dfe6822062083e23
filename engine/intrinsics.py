"""Built-in contracts: specification primitives (vf_*), C library, C++ runtime."""
import z3, re
from values import *
from engine import LITBASE, CODEBIT
import fp

TABLE = {}
PREFIX = []
B64 = z3.BitVecSort(64)
U8 = ('i', 8); U32 = ('i', 32); U64 = ('i', 64); PTR = ('ptr',)

def intr(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d

def cstr(eng, st, p):
    h = eng.handle(st, p)
    b = eng.litbytes(h)
    if b is None: raise Unsupported('literal string expected')
    return b.decode('latin1')

def sptr(h):
    if isinstance(h, LinInt): h = h.bv()
    if isinstance(h, int) and h == 0: return NULL
    return Ptr(('S', h))

# ---------------------------------------------------------------- inputs
def sym_input(eng, st, kind, name, w):
    n = sum(1 for k, nm, t in st.inputs if nm == name)
    if kind == 'double' and eng.fpmode == 'real':
        t = eng.fresh('in_' + name, 'real'); st.inputs.append(('real', name, t)); return t
    t = eng.fresh('in_' + name, 'bool' if w == 1 else w)
    st.inputs.append((kind, name, t))
    return t

@intr('vf_in_u64', 'vf_in_i64')
def _(eng, st, a, ins): return sym_input(eng, st, 'u64', cstr(eng, st, a[0]), 64)
@intr('vf_in_u32', 'vf_in_i32')
def _(eng, st, a, ins): return sym_input(eng, st, 'u32', cstr(eng, st, a[0]), 32)
@intr('vf_in_u16')
def _(eng, st, a, ins): return sym_input(eng, st, 'u16', cstr(eng, st, a[0]), 16)
@intr('vf_in_u8')
def _(eng, st, a, ins): return sym_input(eng, st, 'u8', cstr(eng, st, a[0]), 8)
@intr('vf_in_bool')
def _(eng, st, a, ins): return sym_input(eng, st, 'bool', cstr(eng, st, a[0]), 1)
@intr('vf_in_double')
def _(eng, st, a, ins): return sym_input(eng, st, 'double', cstr(eng, st, a[0]), 64)
@intr('vf_in_str')
def _(eng, st, a, ins):
    t = sym_input(eng, st, 'str', cstr(eng, st, a[0]), 64)
    eng.sym_string(st, t)
    return t
def arr_input(eng, st, name, argn):
    uf = eng.uf('inarr_' + name, *([B64] * (argn + 1)))
    if not any(k == 'arr' and n == name for k, n, t in st.inputs): st.inputs.append(('arr', name, (uf, argn, 64)))
    return uf
@intr('vf_uf1')
def _(eng, st, a, ins): return arr_input(eng, st, cstr(eng, st, a[0]), 1)(bv(a[1], 64))
@intr('vf_unless0')
def _(eng, st, a, ins):
    k = lin_of(simpi(a[0])); c = simp(k.bv() == 0) if not k.const() else k.c == 0
    if not isinstance(c, bool) and k.c: c = eng.decide(st, c) if eng.decide(st, c) is not None else c
    if isinstance(c, bool): return 0 if c else a[1]
    return simp(z3.If(c, z3.BitVecVal(0, 64), bv(a[1], 64)))
@intr('vf_uf_sorted')
def _(eng, st, a, ins):
    n = cstr(eng, st, a[0]); uf = arr_input(eng, st, n, 1)
    eng.mono[uf.name()] = 'inc'
    return uf(bv(a[1], 64))
@intr('vf_uf2')
def _(eng, st, a, ins): return arr_input(eng, st, cstr(eng, st, a[0]), 2)(bv(a[1], 64), bv(a[2], 64))
@intr('vf_ufs1')
def _(eng, st, a, ins):
    f = arr_input(eng, st, cstr(eng, st, a[0]), 1); eng.mono[f.name()] = 'str'
    r = f(bv(a[1], 64)); eng.sym_string(st, r); return r
@intr('vf_ufs2')
def _(eng, st, a, ins):
    f = arr_input(eng, st, cstr(eng, st, a[0]), 2); eng.mono[f.name()] = 'str'
    r = f(bv(a[1], 64), bv(a[2], 64)); eng.sym_string(st, r); return r
# pure uninterpreted functions of the specification (same meaning natively: implemented there)
@intr('vf_pure1')
def _(eng, st, a, ins): return eng.uf('pure_' + cstr(eng, st, a[0]), B64, B64)(bv(a[1], 64))
@intr('vf_pure2')
def _(eng, st, a, ins): return eng.uf('pure_' + cstr(eng, st, a[0]), B64, B64, B64)(bv(a[1], 64), bv(a[2], 64))
# the order of a container of n elements is a permutation of its slots
@intr('vf_order')
def _(eng, st, a, ins):
    for f in ('ord_slot', 'ord_rank'): eng.mono[eng.uf('pure_' + f, B64, B64, B64).name()] = 'perm'
    eng.assume(st, eng.uf('pure_ord_size', B64, B64)(bv(a[0], 64)) == bv(a[1], 64)); return None
@intr('vf_fresh_u64')
def _(eng, st, a, ins):
    t = eng.fresh('fr_' + cstr(eng, st, a[0]), 64); return t
@intr('vf_d2bits')
def _(eng, st, a, ins):
    if eng.fpmode == 'real': raise Unsupported('bits of real')
    return a[0]
@intr('vf_bits2d')
def _(eng, st, a, ins): return a[0]

# ---------------------------------------------------------------- conditions
@intr('vf_assume_')
def _(eng, st, a, ins):
    c = a[0]
    if isinstance(c, int): c = bool(c)
    if c is True: return None
    if c is False or not eng.feasible(st, c): st.done = 'assumed away'; return None
    eng.assume(st, c)
@intr('vf_assert_')
def _(eng, st, a, ins):
    c = a[0]
    if isinstance(c, int): c = bool(c)
    eng.obligation(st, simp(zb(c)) if not isinstance(c, bool) else c, cstr(eng, st, a[1]), 'post')
@intr('vf_cover_')
def _(eng, st, a, ins):
    n = cstr(eng, st, a[0])
    if eng.quiet: return
    if not eng.covers.get(n):
        r, m = eng.check(st, [])
        eng.covers[n] = r != 'unsat'
@intr('vf_reg_inv')
def _(eng, st, a, ins):
    tag = cstr(eng, st, a[3])
    st.invs.append((a[0], a[1], a[2], tag))
@intr('vf_clear_inv')
def _(eng, st, a, ins): st.invs = []
@intr('vf_set_unroll')
def _(eng, st, a, ins): st.unroll = a[0]
@intr('vf_trace')
def _(eng, st, a, ins):
    if not eng.quiet or eng.dbg > 2: print('TRACE', cstr(eng, st, a[0]), a[1], [eng.dm(f.fn.name)[:40] for f in st.frames[-3:]])
@intr('vf_same_obj')
def _(eng, st, a, ins):
    import loops
    return loops.same(a[0], a[1])
@intr('vf_stop')
def _(eng, st, a, ins): st.done = 'assumed away'

def clokey(st, clo):
    """what a closure captured"""
    if isinstance(clo.rid, tuple) or clo.rid == 0: return ''
    rg = st.mem[clo.rid]; out = []
    for o in sorted(rg.cells):
        w, v = rg.cells[o]
        if isinstance(v, PtrInt): v = v.p
        if isinstance(v, Ptr): out.append('p%s.%s' % (v.rid if not isinstance(v.rid, tuple) else v.rid[0] + str(v.rid[1:]), v.off.key()))
        elif isinstance(v, int): out.append('%d' % v)
        else: out.append(str(v)[:200] + '#%d' % v.get_id())
    return '|'.join(out)
# fold: recursive specification function; value after k steps
@intr('vf_fold_')
def _fold(eng, st, a, ins):
    fn, clo, init, k = a
    name = 'fold_' + fn.rid[1] + '_' + clokey(st, clo)
    f = eng.uf(name, B64, B64, B64)
    iv = bv(init, 64)
    def val(l):
        if l.const():
            if 0 <= l.c <= 64:
                v = init
                for j in range(l.c): v = eng.eval_closure(st, fn, [clo, v, j], 64)
                return v
        if l.c >= 1 and not l.const():
            p = l.addc(-1)
            pb = f(iv, bv(p.bv(), 64))
            base(p)
            v = eng.eval_closure(st, fn, [clo, pb, p.bv()], 64)
            r = f(iv, bv(l.bv(), 64))
            eng.axiom(st, r == bv(v, 64))
            return v
        base(l)
        return f(iv, bv(l.bv(), 64))
    def base(l):
        b = bv(l.bv(), 64)
        key = ('foldbase', f.name(), iv.get_id(), b.get_id())
        if key not in st.facts:
            st.facts[key] = (iv, b)
            eng.axiom(st, z3.Implies(b == 0, f(iv, b) == iv))
    r = val(lin_of(k))
    if getattr(_fold, 'down', False):
        l = lin_of(k)
        if not l.const():
            b = bv(l.bv(), 64); p = l.addc(-1)
            key = ('folddown', f.name(), iv.get_id(), b.get_id())
            if key not in st.facts:
                st.facts[key] = (iv, b)
                v = eng.eval_closure(st, fn, [clo, f(iv, bv(p.bv(), 64)), p.bv()], 64)
                eng.axiom(st, z3.Implies(b != 0, f(iv, b) == bv(v, 64)))
    return r
_fold.down = False
@intr('vf_foldd_')
def _(eng, st, a, ins):
    _fold.down = True
    try: return _fold(eng, st, a, ins)
    finally: _fold.down = False

# ---------------------------------------------------------------- regions
@intr('vf_new_region')
def _(eng, st, a, ins):
    stride = a[0]; key = cstr(eng, st, a[1])
    r = eng.new_region(st, None, 'vec_' + key[:40], 'undef')
    r.stride = stride; r.key = 'k:%s:%d' % (key, stride)
    return Ptr(r.id)
@intr('vf_copy_region')
def _(eng, st, a, ins):
    d, s = a[0], a[1]
    rs = st.mem[s.rid]; rd = st.wr(d.rid)
    if rs.stride != rd.stride or rs.key != rd.key: raise Unsupported('copy between different element types')
    rd.arrs = dict(rs.arrs); rd.init = rs.init; rd.gen = rs.gen; rd.name = rs.name
    # contents that were never looked at stay shared with the source
    src = rs
    if rs.gen is None and rs.init != 'zero':
        rid = rs.id; nm = rs.name
        def gen(f, w, nm=nm, rid=rid):
            n = '%s#%d.%d:%d' % (nm, rid, f, w)
            if n not in eng.symserials: eng.note(n)
            from values import ABase
            return ABase(eng.uf(n, B64, z3.BitVecSort(w * 8)), w * 8, n)
        rd.gen = gen
    return None
@intr('vf_copy_elems')
def _(eng, st, a, ins):
    d, di, s, si, n = a
    eng.copy_elems(st, d.rid, simpi(di), s.rid, simpi(si), simpi(n))
@intr('vf_set_count')
def _(eng, st, a, ins): st.wr(a[0].rid).count = simpi(a[1])
@intr('vf_free_region')
def _(eng, st, a, ins): st.wr(a[0].rid).freed = True
@intr('vf_zero_region')
def _(eng, st, a, ins):
    r = st.wr(a[0].rid); r.arrs = {}; r.init = 'zero'
@intr('vf_fill_elem')
def _(eng, st, a, ins):
    """elements [lo, hi) become copies of the value at ptr"""
    d, lo, hi, src = a
    dr = st.wr(d.rid)
    for o, w, v in eng.read_block(st, eng.region(st, src.rid), src, dr.stride):
        if isinstance(v, (Ptr, PtrInt)): v = eng.encode(st, v)
        ps = eng.pieces(dr, o, w)
        for f, n in ps:
            x = v
            if (f, n) != (o, w):
                x = simp(z3.Extract((f - o) * 8 + n * 8 - 1, (f - o) * 8, bv(eng.tobits(v, w), w * 8)))
            else: x = eng.tobits(v, w)
            one = idxdiff(simpi(hi), simpi(lo))
            if one is not None and 0 <= one <= 4:
                for j in range(one): dr.arrs[(f, n)] = AWrite(eng.arr(st, dr, f, n), lin_of(simpi(lo)).addc(j).bv(), x, n * 8)
            else: dr.arrs[(f, n)] = ARange(eng.arr(st, dr, f, n), simpi(lo), simpi(hi), (lambda i, x=x: x), n * 8)
@intr('vf_unsupported')
def _(eng, st, a, ins): raise Unsupported(cstr(eng, st, a[0]))
@intr('vf_s_coded')
def _(eng, st, a, ins):
    # is this string a writable buffer (handle made by vf_obj_id)?
    h = simpi(a[0])
    return isinstance(h, int) and h >= CODEBIT
def simpi(v):
    return v.bv() if isinstance(v, LinInt) else v
@intr('vf_obj_id')
def _(eng, st, a, ins):
    return eng.encode(st, a[0])
@intr('vf_obj_ptr')
def _(eng, st, a, ins):
    v = simpi(a[0])
    return eng.decode(v)
@intr('vf_havoc_obj')
def _(eng, st, a, ins):
    """n bytes at ptr become arbitrary"""
    p, n = a[0], a[1]
    rg = st.wr(p.rid); o = p.off.c
    for x in [x for x in rg.cells if o <= x < o + n]:
        w, v = rg.cells[x]
        if isinstance(v, (Ptr, PtrInt)): continue
        rg.cells[x] = (w, eng.fresh('havoc', w * 8))

# ---------------------------------------------------------------- strings
@intr('vf_s_of')
def _(eng, st, a, ins): return eng.handle(st, a[0])
@intr('vf_s_ofn')
def _(eng, st, a, ins):
    p, n = a[0], simpi(a[1])
    if isinstance(p.rid, tuple) or eng.region(st, p.rid).text is not None or (p.off.const() and p.off.c in eng.region(st, p.rid).strs):
        h = eng.handle(st, p)
        l = eng.slen(st, h)
        if isinstance(l, int) and isinstance(n, int): 
            return eng.lit(eng.litbytes(h)[:n]) if n <= l else eng.lit(eng.litbytes(h))
        if eng.valid(st, bv(l, 64) == bv(n, 64)) == 'yes': return h
        return ssub(eng, st, h, 0, n)
    if not isinstance(n, int):
        raise Unsupported('string of symbolic length')
    bs = [eng.load(st, Ptr(p.rid, p.off.addc(i)), U8) for i in range(n)]
    if all(isinstance(b, int) for b in bs): return eng.lit(bytes(bs))
    parts = [char_handle(eng, st, b) for b in bs]
    return eng.scat(st, *parts)
@intr('vf_s_ptr')
def _(eng, st, a, ins):
    h = simpi(a[0])
    if isinstance(h, z3.ExprRef): eng.sym_string(st, h)      # the text of a string object is never a null pointer
    return sptr(h)
@intr('vf_s_len')
def _(eng, st, a, ins): return eng.slen(st, simpi(a[0]))
@intr('vf_s_at')
def _(eng, st, a, ins): return eng.sat(st, simpi(a[0]), simpi(a[1]))
@intr('vf_s_cat')
def _(eng, st, a, ins): return eng.scat(st, simpi(a[0]), simpi(a[1]))
def char_handle(eng, st, c):
    if isinstance(c, int): return eng.lit(bytes([c])) if c else eng.lit(b'')
    f = eng.uf('schr', z3.BitVecSort(8), B64)
    r = f(c)
    k = ('schr', r.get_id())
    if k not in st.facts:
        st.facts[k] = r
        eng.sym_string(st, r)
        sl = eng.slen(st, r)
        eng.axiom(st, sl == z3.If(c == 0, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)))
        eng.axiom(st, bv(eng.sat(st, r, 0), 8) == c)
    return r
@intr('vf_s_chr')
def _(eng, st, a, ins): return char_handle(eng, st, a[0])
def ssub(eng, st, h, p, n):
    b = eng.litbytes(h)
    if b is not None and isinstance(p, int) and isinstance(n, int):
        return eng.lit(b[p:p + n] if n < (1 << 62) else b[p:])
    ln = eng.slen(st, h)
    if isinstance(p, int) and p == 0:
        if isinstance(n, int) and n == mask(64): return h
        if eng.valid(st, z3.UGE(bv(n, 64), bv(ln, 64)), 2000) == 'yes': return h
    f = eng.uf('ssub', B64, B64, B64, B64)
    # canonical count
    avail = lin_of(ln).add(lin_of(p), -1).bv()
    cnt = simp(z3.If(z3.ULT(bv(n, 64), bv(avail, 64)), bv(n, 64), bv(avail, 64)))
    r = f(bv(h, 64), bv(p, 64), bv(cnt, 64))
    eng.subs[r.get_id()] = (r, h, p, cnt)
    k = ('ssub', r.get_id())
    if k not in st.facts:
        st.facts[k] = r
        eng.sym_string(st, r)
        eng.axiom(st, bv(eng.slen(st, r), 64) == bv(cnt, 64))
        for i in range(4):
            eng.axiom(st, z3.Implies(z3.ULT(z3.BitVecVal(i, 64), bv(cnt, 64)), bv(eng.sat(st, r, i), 8) == bv(eng.sat(st, h, lin_of(p).addc(i).bv()), 8)))
    return r
@intr('vf_s_sub')
def _(eng, st, a, ins): return ssub(eng, st, simpi(a[0]), simpi(a[1]), simpi(a[2]))
@intr('vf_s_rfind')
def _(eng, st, a, ins):
    """position of the last byte c at or before the end; -1 if none"""
    h, c = simpi(a[0]), a[1]
    b = eng.litbytes(h)
    if b is not None and isinstance(c, int): return b.rfind(bytes([c])) & mask(64)
    r = eng.uf('srfind', B64, z3.BitVecSort(8), B64)(bv(h, 64), bv(c, 8))
    ln = eng.slen(st, h)
    eng.axiom(st, z3.Or(r == mask(64), z3.ULT(r, bv(ln, 64))))
    eng.axiom(st, z3.Implies(r != mask(64), bv(eng.sat(st, h, r), 8) == bv(c, 8)))
    return r
@intr('vf_s_find')
def _(eng, st, a, ins):
    h, c, p = simpi(a[0]), a[1], simpi(a[2])
    b = eng.litbytes(h)
    if b is not None and isinstance(c, int) and isinstance(p, int): return b.find(bytes([c]), p) & mask(64)
    r = eng.uf('sfind', B64, z3.BitVecSort(8), B64, B64)(bv(h, 64), bv(c, 8), bv(p, 64))
    ln = eng.slen(st, h)
    eng.axiom(st, z3.Or(r == mask(64), z3.And(z3.ULT(r, bv(ln, 64)), z3.UGE(r, bv(p, 64)))))
    eng.axiom(st, z3.Implies(r != mask(64), bv(eng.sat(st, h, r), 8) == bv(c, 8)))
    # it is the first one: searches from different places in the same text agree
    key = (bv(h, 64).get_id(), bv(c, 8).get_id()); P = bv(p, 64)
    for P2, r2 in eng.finds.get(key, []):
        for a1, q1, a2, q2 in ((P, r, P2, r2), (P2, r2, P, r)):
            if q1.eq(q2): continue
            eng.axiom(st, z3.Implies(z3.ULE(a1, a2), z3.And(z3.ULE(q1, q2), z3.Implies(z3.UGE(q1, a2), q1 == q2))))
    if not any(r.eq(r2) for _, r2 in eng.finds.get(key, [])): eng.finds.setdefault(key, []).append((P, r)); eng.keepalive += [bv(h, 64), bv(c, 8)]
    return r
def scmp(eng, st, x, y):
    bx, by = eng.litbytes(x), eng.litbytes(y)
    if bx is not None and by is not None:
        return 0 if bx == by else (1 if bx > by else mask(32))
    X, Y = bv(x, 64), bv(y, 64)
    eq = simp(X == Y)
    if eq is True: return 0
    f = eng.uf('srank', B64, B64)
    eng.axiom(st, (f(X) == f(Y)) == (X == Y))
    for j, b in enumerate(eng.lits): pass
    return simp(z3.If(X == Y, z3.BitVecVal(0, 32), z3.If(z3.ULT(f(X), f(Y)), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))))
@intr('vf_s_cmp')
def _(eng, st, a, ins): return scmp(eng, st, simpi(a[0]), simpi(a[1]))
@intr('vf_s_eq')
def _(eng, st, a, ins):
    x, y = simpi(a[0]), simpi(a[1])
    if any(isinstance(h, int) and h >= CODEBIT for h in (x, y)): raise Unsupported('buffer used as text')
    if isinstance(x, int) and isinstance(y, int): return x == y
    for u, v in ((x, y), (y, x)):
        # a part of a text equals a literal exactly if its bytes do
        b = eng.litbytes(v); d = eng.subs.get(u.get_id()) if not isinstance(u, int) else None
        if b and d and len(b) <= 16:
            _, h, p, cnt = d
            same = [bv(eng.sat(st, h, lin_of(p).addc(i).bv()), 8) == c for i, c in enumerate(b)]
            eng.axiom(st, (bv(u, 64) == bv(v, 64)) == z3.And(bv(cnt, 64) == len(b), *same))
    return simp(bv(x, 64) == bv(y, 64))
def need_str(eng, st, p):
    h = eng.handle(st, p)
    if isinstance(h, int):
        if h == 0:
            eng.obligation(st, False, 'no null pointer passed to a string function', 'safety'); st.done = 'stopped'; return None
    elif eng.feasible(st, h == 0):
        eng.obligation(st, h != 0, 'no null pointer passed to a string function', 'safety')
    return h
@intr('strcmp')
def _(eng, st, a, ins):
    x = need_str(eng, st, a[0]); 
    if st.done: return 0
    y = need_str(eng, st, a[1])
    if st.done: return 0
    return scmp(eng, st, x, y)
@intr('strncmp')
def _(eng, st, a, ins):
    x = need_str(eng, st, a[0])
    if st.done: return 0
    y = need_str(eng, st, a[1])
    if st.done: return 0
    n = simpi(a[2])
    if not isinstance(n, int) or n > 64: raise Unsupported('strncmp')
    r = z3.BitVecVal(0, 32)
    bx, by = eng.litbytes(x), eng.litbytes(y)
    for i in range(n - 1, -1, -1):
        cx, cy = eng.sat(st, x, i), eng.sat(st, y, i)
        if by is not None and i > len(by) and bx is None: continue
        CX, CY = bv(cx, 8), bv(cy, 8)
        r = z3.If(CX == CY, z3.If(CX == 0, z3.BitVecVal(0, 32), r), z3.If(z3.ULT(CX, CY), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return simp(r)
@intr('strlen')
def _(eng, st, a, ins):
    x = need_str(eng, st, a[0])
    if st.done: return 0
    return eng.slen(st, x)
def set_str(eng, st, p, h):
    """buffer at p now holds the C string h"""
    rg = eng.access(st, p, 1, 'string copy')
    if st.done: return
    if rg.stride is not None or not p.off.const(): raise Unsupported('string into array')
    b = eng.litbytes(h)
    room = (rg.size - p.off.c) if rg.size is not None else None
    if room is not None:
        l = eng.slen(st, h)
        eng.obligation(st, (l < room) if isinstance(l, int) else simp(z3.ULT(l, room)), 'string fits its buffer', 'safety')
        if st.done: return
    rg = st.wr(p.rid); o = p.off.c
    for x in [x for x in rg.cells if x >= o]:
        # bytes after the terminator keep their old value; nothing in scope looks at them
        w, v = rg.cells[x]
        if w == 1 or room is None: del rg.cells[x]
        elif b is not None and x < o + len(b) + 1: del rg.cells[x]
        else:
            if w == 8 and isinstance(v, int): del rg.cells[x]
    for x in [x for x in rg.strs if x >= o]: del rg.strs[x]
    rg.strs[o] = h
@intr('vf_s_put')
def _(eng, st, a, ins): set_str(eng, st, a[0], simpi(a[1]))
@intr('strcpy')
def _(eng, st, a, ins):
    h = need_str(eng, st, a[1])
    if st.done: return a[0]
    set_str(eng, st, a[0], h)
    return a[0]
@intr('strncpy')
def _(eng, st, a, ins):
    h = need_str(eng, st, a[1])
    if st.done: return a[0]
    l = eng.slen(st, h); n = simpi(a[2])
    if (isinstance(l, int) and isinstance(n, int) and l < n) or (not (isinstance(l, int) and isinstance(n, int)) and eng.valid(st, z3.ULT(bv(l, 64), bv(n, 64))) == 'yes'):
        set_str(eng, st, a[0], h)
        return a[0]
    raise Unsupported('strncpy that may truncate')
@intr('strchr')
def _(eng, st, a, ins):
    h = need_str(eng, st, a[0])
    if st.done: return NULL
    c = a[1]
    b = eng.litbytes(h)
    if b is not None and isinstance(c, int):
        i = b.find(bytes([c]))
        return NULL if i < 0 else Ptr(a[0].rid, a[0].off.addc(i))
    raise Unsupported('strchr')

def dec(eng, st, v, w, signed):
    """decimal text of an integer"""
    v = simpi(v)
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return eng.lit(str(sgn(v, w) if signed else v).encode())
    if z3.is_bool(v): v = bv(v, w)
    e = v
    if w < 64: e = simp(z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v))
    if isinstance(e, int): return dec(eng, st, e, 64, True)
    if w == 64 and not signed:
        # text agrees with the signed rendering below 2^63
        r = eng.uf('sdecu', B64, B64)(e)
        s = eng.uf('sdec', B64, B64)(e)
        eng.axiom(st, z3.Implies(e >= 0, r == s))
    else:
        r = eng.uf('sdec', B64, B64)(e)
    k = ('dec', r.get_id())
    if k not in st.facts:
        st.facts[k] = (r, e)
        eng.sym_string(st, r)
        eng.axiom(st, r != LITBASE)
        eng.axiom(st, eng.uf('satoll', B64, B64)(r) == e)
        l = eng.slen(st, r)
        eng.axiom(st, z3.And(z3.UGE(l, 1), z3.ULE(l, 20)))
    return r
@intr('vf_s_dec')
def _(eng, st, a, ins): return dec(eng, st, a[0], 64, True)
@intr('vf_s_udec')
def _(eng, st, a, ins): return dec(eng, st, a[0], 64, False)
@intr('vf_s_dbl')
def _(eng, st, a, ins):
    """text of a double under a named format"""
    f = eng.uf('sdbl', B64, B64, B64)
    r = f(bv(eng.handle(st, a[0]), 64), bv(a[1], 64))
    k = ('sdbl', r.get_id())
    if k not in st.facts:
        st.facts[k] = r
        eng.sym_string(st, r); eng.axiom(st, r != LITBASE)
    return r
@intr('vf_s_fn1')
def _(eng, st, a, ins):
    """an uninterpreted text valued function of one word"""
    r = eng.uf('sfn_' + cstr(eng, st, a[0]), B64, B64)(bv(a[1], 64)); eng.sym_string(st, r); return r

def c_format(eng, st, fmt, args):
    out = []; i = 0; n = 0
    for m in re.finditer(r'%([-+ #0]*)(\d*|\*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([diuxXcsfeg%])', fmt):
        if m.start() > i: out.append(eng.lit(fmt[i:m.start()].encode('latin1')))
        i = m.end()
        c = m.group(5)
        if c == '%': out.append(eng.lit(b'%')); continue
        if m.group(2) == '*' or m.group(3) == '*': raise Unsupported('format width *')
        v = args[n]; n += 1
        spec = fmt[m.start():m.end()]
        if c == 's': out.append(need_str(eng, st, v)); continue
        if c == 'c': out.append(char_handle(eng, st, simp(z3.Extract(7, 0, bv(v, 32))) if not isinstance(v, int) else v & 255)); continue
        if c in 'feg':
            if isinstance(v, int): out.append(eng.lit((spec % fp.b2d(v)).encode())); continue
            r = eng.uf('sdbl', B64, B64, B64)(bv(eng.lit(spec.encode()), 64), bv(v, 64)); eng.sym_string(st, r); eng.axiom(st, r != LITBASE); out.append(r); continue
        w = 64 if m.group(4) in ('l', 'll', 'z', 'j', 't') else 32
        v = simpi(v)
        if c in 'di' and not m.group(1) and not m.group(2): out.append(dec(eng, st, v, w, True)); continue
        if c == 'u' and not m.group(1) and not m.group(2): out.append(dec(eng, st, v, w, False)); continue
        if isinstance(v, int):
            s = re.sub('hh|h|ll|l|z|j|t', '', spec)
            out.append(eng.lit((s % (sgn(v, w) if c in 'di' else v)).encode())); continue
        e = v if w == 64 else (z3.SignExt(32, v) if c in 'di' else z3.ZeroExt(32, v))
        r = eng.uf('sint', B64, B64, B64)(bv(eng.lit(re.sub('hh|h|ll|l|z|j|t', '', spec).encode()), 64), z3.simplify(e)); eng.sym_string(st, r); eng.axiom(st, r != LITBASE); out.append(r)
    if i < len(fmt): out.append(eng.lit(fmt[i:].encode('latin1')))
    return eng.scat(st, *out)
@intr('snprintf')
def _(eng, st, a, ins):
    h = c_format(eng, st, cstr(eng, st, a[2]), a[3:])
    n = simpi(a[1]); l = eng.slen(st, h)
    if isinstance(l, int) and isinstance(n, int):
        if l >= n: h = eng.lit(eng.litbytes(h)[:max(n - 1, 0)])
        set_str(eng, st, a[0], h); return l & mask(32)
    if eng.valid(st, z3.ULT(bv(l, 64), bv(n, 64))) == 'yes':
        set_str(eng, st, a[0], h)
    else:
        t = ssub(eng, st, h, 0, lin_of(n).addc(-1).bv()); set_str(eng, st, a[0], t)
    return simp(z3.Extract(31, 0, bv(l, 64)))
@intr('sprintf')
def _(eng, st, a, ins):
    h = c_format(eng, st, cstr(eng, st, a[1]), a[2:])
    set_str(eng, st, a[0], h)
    return simp(z3.Extract(31, 0, bv(eng.slen(st, h), 64)))
@intr('vf_s_format')
def _(eng, st, a, ins):
    return c_format(eng, st, cstr(eng, st, a[0]), a[1:])
def atoll(eng, st, h):
    b = eng.litbytes(h)
    if b is not None:
        m = re.match(rb'\s*([-+]?\d+)', b)
        v = int(m.group(1)) if m else 0
        return max(-(1 << 63), min((1 << 63) - 1, v)) & mask(64)
    return eng.uf('satoll', B64, B64)(bv(h, 64))
@intr('atoll', 'atol')
def _(eng, st, a, ins):
    h = need_str(eng, st, a[0])
    return atoll(eng, st, h) if not st.done else 0
@intr('strtol', 'strtoll')
def _(eng, st, a, ins):
    if a[2] not in (10, 0): raise Unsupported('strtol base')
    h = need_str(eng, st, a[0])
    if st.done: return 0
    if a[1].rid != 0:
        e = eng.uf('sendnum', B64, B64)(bv(h, 64))
        eng.axiom(st, z3.ULE(e, bv(eng.slen(st, h), 64)))
        eng.store(st, a[1], PTR, Ptr(a[0].rid, a[0].off.add(lin_of(e))))
    return atoll(eng, st, h)
@intr('strtoul', 'strtoull')
def _(eng, st, a, ins):
    if a[2] not in (10, 0): raise Unsupported('strtol base')
    h = need_str(eng, st, a[0])
    if st.done: return 0
    if a[1].rid != 0: raise Unsupported('strtoul end')
    b = eng.litbytes(h)
    if b is not None: return atoll(eng, st, h)
    return eng.uf('satoll', B64, B64)(bv(h, 64))
@intr('atoi')
def _(eng, st, a, ins):
    h = need_str(eng, st, a[0])
    if st.done: return 0
    v = atoll(eng, st, h)
    return v & mask(32) if isinstance(v, int) else simp(z3.Extract(31, 0, v))
@intr('atof', 'strtod')
def _(eng, st, a, ins):
    h = need_str(eng, st, a[0])
    if st.done: return 0
    b = eng.litbytes(h)
    if eng.fpmode == 'real': raise Unsupported('atof in real mode')
    if b is not None:
        m = re.match(rb'\s*([-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?)', b)
        return fp.d2b(float(m.group(1)) if m else 0.0)
    return eng.uf('satof', B64, B64)(bv(h, 64))

# ---------------------------------------------------------------- memory
@intr('memcpy', 'memmove', '__memcpy_chk')
def _(eng, st, a, ins):
    mc(eng, st, a); return a[0]
def mc(eng, st, a):
    d, s, n = a[0], a[1], simpi(a[2])
    # copying the bytes of an abstract string with its terminator is a string copy
    ish = (isinstance(s.rid, tuple) and s.rid[0] == 'S')
    if not ish and not isinstance(s.rid, tuple) and s.rid != 0:
        sr = eng.region(st, s.rid)
        ish = s.off.const() and s.off.c in sr.strs and not isinstance(n, int)
    if ish:
        h = eng.handle(st, s); l = eng.slen(st, h)
        if eng.valid(st, bv(lin_of(l).addc(1).bv(), 64) == bv(n, 64)) == 'yes':
            set_str(eng, st, d, h); return
        # copy without the terminator: the caller adds it
        if eng.valid(st, bv(l, 64) == bv(n, 64)) == 'yes':
            set_str(eng, st, d, h); return
        raise Unsupported('memcpy of part of a string')
    eng.copy_mem(st, d, s, n)
def _memcpy(eng, st, a, ins): mc(eng, st, a)
PREFIX.append(('llvm.memcpy.', _memcpy)); PREFIX.append(('llvm.memmove.', _memcpy))
def _memset(eng, st, a, ins): eng.fill_mem(st, a[0], a[1], a[2]); return a[0]
PREFIX.append(('llvm.memset.', _memset)); TABLE['memset'] = _memset
@intr('memcmp', 'bcmp')
def _(eng, st, a, ins):
    n = simpi(a[2])
    if not isinstance(n, int) or n > 64: raise Unsupported('memcmp')
    r = z3.BitVecVal(0, 32)
    for i in range(n - 1, -1, -1):
        x = bv(eng.load(st, Ptr(a[0].rid, a[0].off.addc(i)), U8), 8); y = bv(eng.load(st, Ptr(a[1].rid, a[1].off.addc(i)), U8), 8)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return simp(r)
def _new(eng, st, a, ins):
    n = simpi(a[0])
    r = eng.new_region(st, n if isinstance(n, int) else None, 'heap')
    r.kind = 'heap'
    if not isinstance(n, int):
        l = lin_of(n)
        g = l.gcd()
        if l.c == 0 and g > 1:
            r.stride = g; r.key = 'heap:%d' % g; r.count = l.div(g).bv()
    return Ptr(r.id)
for n in ('_Znwm', '_Znam', 'malloc'): TABLE[n] = _new
@intr('calloc')
def _(eng, st, a, ins):
    n = eng.binop(st, 'mul', ('i', 64), a[0], a[1], ())
    p = _new(eng, st, [n], ins); st.mem[p.rid].init = 'zero'
    return p
def _del(eng, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr): p = eng.decode(p)
    if p.rid == 0: return None
    if isinstance(p.rid, tuple):
        if p.rid[0] == 'S': return None
        raise Unsupported('delete of unknown pointer')
    rg = eng.region(st, p.rid)
    if rg.freed:
        eng.obligation(st, False, 'no double free', 'safety'); st.done = 'stopped'; return None
    st.wr(p.rid).freed = True
for n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'): TABLE[n] = _del

# ---------------------------------------------------------------- C++ runtime
@intr('__cxa_allocate_exception')
def _(eng, st, a, ins):
    r = eng.new_region(st, a[0] if isinstance(a[0], int) else None, 'exc'); return Ptr(r.id)
@intr('__cxa_free_exception')
def _(eng, st, a, ins): return None
@intr('__cxa_throw')
def _(eng, st, a, ins):
    from symexec import Control
    ti = a[1]
    name = None
    for g, rid in st.globs.items():
        if rid == ti.rid: name = g
    st.exc = (a[0], name)
    return Control(eng.unwind(st))
@intr('__cxa_rethrow', '_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def _(eng, st, a, ins):
    from symexec import Control
    if st.caught: st.exc = st.caught[-1]
    return Control(eng.unwind(st))
@intr('__cxa_begin_catch')
def _(eng, st, a, ins):
    st.caught.append(st.exc); return a[0]
@intr('__cxa_end_catch')
def _(eng, st, a, ins):
    if st.caught: st.caught.pop()
@intr('llvm.eh.typeid.for')
def _(eng, st, a, ins): return eth(eng, st, a)
def eth(eng, st, a):
    for g, rid in st.globs.items():
        if rid == a[0].rid: return eng.typeid(g)
    return eng.typeid('?')
PREFIX.append(('llvm.eh.typeid.for', lambda eng, st, a, ins: eth(eng, st, a)))
@intr('_ZSt9terminatev', '__clang_call_terminate', 'abort', 'exit', '_exit', '__cxa_pure_virtual')
def _(eng, st, a, ins):
    eng.obligation(st, False, 'the program does not terminate abnormally', 'safety'); st.done = 'stopped'
@intr('__assert_fail')
def _(eng, st, a, ins):
    eng.obligation(st, False, 'assertion in the code holds', 'safety'); st.done = 'stopped'
@intr('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', 'llvm.lifetime', 'llvm.donothing')
def _(eng, st, a, ins): return 0
@intr('__cxa_guard_acquire')
def _(eng, st, a, ins):
    v = eng.load(st, a[0], U8)
    if v == 0:
        eng.store(st, a[0], U8, 1); return 1
    return 0
@intr('__dynamic_cast')
def _(eng, st, a, ins): raise Unsupported('dynamic_cast')
for n in ('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.va_start', 'llvm.va_end', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.invariant'):
    PREFIX.append((n, lambda eng, st, a, ins: None))
def _expect(eng, st, a, ins): return a[0]
PREFIX.append(('llvm.expect', _expect))
def _trap(eng, st, a, ins):
    eng.obligation(st, False, 'the program does not terminate abnormally', 'safety'); st.done = 'stopped'
PREFIX.append(('llvm.trap', _trap))
def minmax(f):
    def g(eng, st, a, ins):
        w = ins.ty[1]
        A, B = bv(simpi(a[0]), w), bv(simpi(a[1]), w)
        return simp(z3.If(f(A, B), A, B))
    return g
PREFIX.append(('llvm.umin', minmax(lambda a, b: z3.ULE(a, b)))); PREFIX.append(('llvm.umax', minmax(lambda a, b: z3.UGE(a, b))))
PREFIX.append(('llvm.smin', minmax(lambda a, b: a <= b))); PREFIX.append(('llvm.smax', minmax(lambda a, b: a >= b)))
def _abs(eng, st, a, ins):
    w = ins.ty[1]; v = simpi(a[0])
    if isinstance(v, int): return abs(sgn(v, w)) & mask(w)
    return simp(z3.If(v < 0, -v, v))
PREFIX.append(('llvm.abs', _abs))
TABLE['abs'] = TABLE['labs'] = TABLE['llabs'] = _abs
def _bswap(eng, st, a, ins):
    w = ins.ty[1]; v = simpi(a[0])
    if isinstance(v, int): return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
    return simp(z3.Concat(*[z3.Extract(i + 7, i, v) for i in range(0, w, 8)]))
PREFIX.append(('llvm.bswap', _bswap))
@intr('htonl', 'ntohl', 'htons', 'ntohs')
def _(eng, st, a, ins): return _bswap(eng, st, a, ins)
def fshl(eng, st, a, ins):
    w = ins.ty[1]; x, y, s = bv(a[0], w), bv(a[1], w), bv(a[2], w)
    s = z3.URem(s, z3.BitVecVal(w, w))
    return simp(z3.If(s == 0, x, (x << s) | z3.LShR(y, z3.BitVecVal(w, w) - s)))
PREFIX.append(('llvm.fshl', fshl))
def ovf(signed, op):
    def g(eng, st, a, ins):
        w = ins.ty[1][0][1]
        A, B = bv(simpi(a[0]), w), bv(simpi(a[1]), w)
        if op == 'mul' and not signed:
            r = A * B; o = z3.Not(z3.BVMulNoOverflow(A, B, False))
        elif op == 'add' and not signed: r = A + B; o = z3.ULT(r, A)
        else: raise Unsupported('overflow intrinsic')
        return [simp(r), simp(o)]
    return g
PREFIX.append(('llvm.umul.with.overflow', ovf(False, 'mul'))); PREFIX.append(('llvm.uadd.with.overflow', ovf(False, 'add')))

# ---------------------------------------------------------------- mathematics
def mathfn(name):
    def g(eng, st, a, ins):
        if eng.fpmode == 'real':
            args = [fp.rv(x) for x in a]
            if name == 'round':
                v = args[0]
                key = ('round', v.get_id()); r = st.facts.get(key)
                if r is None:
                    n = z3.Int('r!%d' % next(eng.anon)); eng.note(n.decl().name())
                    R = z3.ToReal(n); h = z3.RealVal('1/2')
                    eng.axiom(st, z3.And(z3.Implies(v >= 0, z3.And(R <= v + h, R > v - h)), z3.Implies(v < 0, z3.And(R >= v - h, R < v + h))))
                    r = (R, v); st.facts[key] = r
                return r[0]
            if name == 'fabs': return z3.If(args[0] >= 0, args[0], -args[0])
            f = eng.uf('m_' + name, *([z3.RealSort()] * (len(args) + 1)))
            return f(*args)
        if eng.fpmode == 'ufx' and name in ('sin', 'cos', 'asin', 'sqrt'): return fp.libm(eng, st, name, a[0])
        if name == 'fabs': return simp(bv(a[0], 64) & z3.BitVecVal((1 << 63) - 1, 64))
        if all(isinstance(x, int) for x in a) and name in ('round', 'floor', 'ceil', 'sqrt'):
            import math
            x = fp.b2d(a[0])
            try: return fp.d2b({'round': lambda: math.copysign(math.floor(abs(x) + 0.5), x), 'floor': lambda: float(math.floor(x)), 'ceil': lambda: float(math.ceil(x)), 'sqrt': lambda: math.sqrt(x)}[name]())
            except (ValueError, OverflowError): pass
        return eng.uf('m_' + name, *([B64] * (len(a) + 1)))(*[bv(x, 64) for x in a])
    return g
for n in ('round', 'floor', 'ceil', 'trunc', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'pow', 'fabs', 'exp', 'log', 'fmod', 'lround', 'rint', 'nearbyint'):
    TABLE[n] = mathfn(n)
    for q in ('llvm.%s.f64' % n,): TABLE[q] = TABLE[n]
