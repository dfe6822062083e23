"""Loops cut by inductive invariants.

cut() replaces "any number of iterations" by a state with a ghost iteration counter K in which every location the
body modifies has a closed form in K, a user supplied value, or a fresh symbol, and in which every surviving
candidate invariant is assumed.  Everything assumed is established: initiation on the entry state, preservation on
every path through the body back to the header; what fails is dropped and the fixpoint is repeated.
"""
import z3, itertools
from values import *
from engine import *
import symexec
from symexec import LoopCtx, _ctxid, free_names, Unsupported

class Form:
    __slots__ = ('likely', 'kind', 'c', 'sym', 'alts', 'g', 'w', 'why')
    def __init__(self, kind, c=None, sym=None):
        self.kind = kind; self.c = c; self.sym = sym; self.alts = []; self.g = None; self.w = None; self.why = ''

def same(a, b):
    if a is b: return True
    if isinstance(a, OptPtr) and isinstance(b, OptPtr): return a.null.eq(b.null) and same(a.p, b.p)
    if isinstance(a, OptPtr) or isinstance(b, OptPtr): return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if isinstance(a.rid, tuple) or isinstance(b.rid, tuple):
            if not (isinstance(a.rid, tuple) and isinstance(b.rid, tuple)): return False
            if a.rid[0] != b.rid[0]: return False
            x, y = a.rid[1], b.rid[1]
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                if not x.eq(y): return False
            elif isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef): return False
            elif x != y: return False
        elif a.rid != b.rid: return False
        return a.off.same(b.off)
    if isinstance(a, PtrInt) and isinstance(b, PtrInt): return same(a.p, b.p)
    if isinstance(a, LinInt): a = a.bv()
    if isinstance(b, LinInt): b = b.bv()
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

def width_of(v, w):
    if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)): return 'bool'
    if isinstance(v, z3.ExprRef) and z3.is_bv(v): return v.size()
    if isinstance(v, z3.ExprRef) and z3.is_real(v): return 'real'
    if isinstance(v, LinInt): return 64
    return w

def eqterm(a, b, w):
    """a == b as a term; None if incomparable"""
    try:
        if isinstance(a, PtrInt): a = a.p
        if isinstance(b, PtrInt): b = b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): return None
            if same(a, b): return True
            ta = a.rid[0] if isinstance(a.rid, tuple) else a.rid
            tb = b.rid[0] if isinstance(b.rid, tuple) else b.rid
            if ta == 'S' and tb == 'S' and a.off.same(b.off): return simp(bv(a.rid[1], 64) == bv(b.rid[1], 64))
            if ta == tb and not isinstance(ta, str): return simp(bv(a.off.bv(), 64) == bv(b.off.bv(), 64))
            return None
        if w == 'bool': return simp(zb(bool(a) if isinstance(a, int) else a) == zb(bool(b) if isinstance(b, int) else b))
        if w == 'real': return simp(a == b)
        return simp(bv(a, w) == bv(b, w))
    except Unsupported:
        return None

def small(t, n):
    seen = set(); w = [t]
    while w:
        x = w.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if len(seen) > n: return False
        w.extend(x.children())
    return True

class Cut:
    def __init__(self, eng, E, blk, depth, body):
        self.e = eng; self.E = E; self.blk = blk; self.depth = depth; self.body = body
        self.fr = E.frames[-1]
        self.forms = {}        # loc -> Form
        self.K = eng.fresh('K', 64)
        self.start = eng.symserial
        self.textlocs = set()
        self.cands = []        # dict(term, alive)
        self.candkeys = set(); self.smallk = False
        self.users = []        # user lambdas
        for kind, clo, fn, tag in E.invs:
            if tag and tag not in eng.dm(self.fr.fn.name): continue
            self.users.append((kind, clo, fn))
        self.invs = [dict(clo=c, fn=f, alive=True) for k, c, f in self.users if k == 0]
        self.vals = [(c, f) for k, c, f in self.users if k == 1]
    # -- locations ----------------------------------------------------------------------------
    def get(self, st, loc):
        v = self.get0(st, loc)
        if loc in self.textlocs: v = self.astext(st, v)
        return v
    def astext(self, st, v):
        """a pointer to a literal, as text"""
        if isinstance(v, Ptr) and isinstance(v.rid, int) and v.rid != 0 and v.off.const():
            rg = st.mem.get(v.rid)
            if rg is not None and (rg.text is not None or (rg.const and rg.stride is None and rg.size == 1)): return Ptr(('S', self.e.handle(st, v)))
        return v
    def get0(self, st, loc):
        if loc[0] == 'reg': return st.frames[self.depth - 1].regs.get(loc[1])
        rg = st.mem.get(loc[1])
        if rg is None: return None
        if loc[0] == 'cell':
            c = rg.cells.get(loc[2]); return c[1] if c is not None and c[0] == loc[3] else None
        if loc[0] == 'str': return rg.strs.get(loc[2])
        if loc[0] == 'arr': return self.e.arr(st, rg, loc[2], loc[3])
    def set(self, st, loc, v):
        if loc[0] == 'reg': st.frames[self.depth - 1].regs[loc[1]] = v
        elif loc[0] == 'cell':
            rg = st.wr(loc[1])
            if v is None: rg.cells.pop(loc[2], None)
            else: rg.cells[loc[2]] = (loc[3], v)
        elif loc[0] == 'str':
            rg = st.wr(loc[1])
            if v is None: rg.strs.pop(loc[2], None)
            else: rg.strs[loc[2]] = v
        elif loc[0] == 'arr':
            st.wr(loc[1]).arrs[(loc[2], loc[3])] = v
    def diff(self, H, B):
        out = []
        fh = H.frames[self.depth - 1].regs; fb = B.frames[self.depth - 1].regs
        for ins in self.fr.fn.blocks[self.blk]:
            if ins.op != 'phi': break
            if not same(fh[ins.res], fb[ins.res]): out.append(('reg', ins.res))
        for rid, rh in H.mem.items():
            rb = B.mem.get(rid)
            if rb is rh: continue
            if rb is None: continue
            if rid not in self.E.mem: continue
            if rb.stride != rh.stride:
                raise NewStride(rid, rb.stride, rb.key, rb.count)
            if rb.freed != rh.freed: raise Unsupported('object freed in loop')
            for o in set(rh.cells) | set(rb.cells):
                a, b = rh.cells.get(o), rb.cells.get(o)
                if a is None:
                    if rh.init == 'undef' or rh.init == 'havoc': 
                        # lazily materialised or dead temporary
                        if rh.init == 'undef': self.undef.add((rid, o))
                        elif b is not None: out.append(('cell', rid, o, b[0]))
                        continue
                    out.append(('cell', rid, o, b[0])); continue
                if b is None or a[0] != b[0]:
                    out.append(('cellsplit', rid, o)); continue
                if not same(a[1], b[1]): out.append(('cell', rid, o, a[0]))
            for o in set(rh.strs) | set(rb.strs):
                a, b = rh.strs.get(o), rb.strs.get(o)
                if a is None and rh.init == 'undef': continue
                if a is None or b is None or not same(a, b): out.append(('str', rid, o))
            for fw in set(rh.arrs) | set(rb.arrs):
                a = rh.arrs.get(fw); b = rb.arrs.get(fw)
                if a is None:
                    a = self.e.arr(H, rh, *fw)
                    if not isinstance(b, (AWrite, ARange)) : continue      # default content
                if b is not None and b is not a: out.append(('arr', rid) + fw)
            if same(rh.count, rb.count) is False and rh.count is not rb.count: raise Unsupported('size changed in loop')
        return out
    # -- evaluation of forms ------------------------------------------------------------------
    def value(self, st, loc, f, k):
        """value of loc after k iterations; for symbols only at k == K"""
        v0 = self.get(self.E, loc)
        if f.kind == 'lin':
            w = f.w
            if isinstance(k, int): kk = k & mask(w)
            else: kk = k if w == 64 else z3.Extract(w - 1, 0, k)
            return simp(bv(v0, w) + z3.BitVecVal(f.c, w) * bv(kk, w))
        if f.kind == 'ptrlin':
            p = v0.p if isinstance(v0, PtrInt) else v0
            p = Ptr(p.rid, p.off.add(lin_of(k).scale(f.c)))
            return PtrInt(p) if isinstance(v0, PtrInt) else p
        if f.kind == 'user':
            c, fn = self.vals[f.c]
            r = self.e.eval_closure(st, fn, [c, k], 64)
            w = f.w
            if w == 'bool': return simp(bv(r, 64) != 0)
            if w == 'ptr':
                if isinstance(r, z3.ExprRef): self.e.sym_string(st, r)      # a fold over texts is a text
                return Ptr(('S', r))
            if w == 64: return r
            return simp(z3.Extract(w - 1, 0, bv(r, 64)))
        return None
    def hvalue(self, H, loc, f):
        v0 = self.get(self.E, loc)
        if f.kind in ('lin', 'ptrlin', 'user'): return self.value(H, loc, f, self.K)
        if f.kind == 'fresh': return f.sym
        if f.kind == 'ptrsym':
            return Ptr(v0.rid, v0.off.add(Lin(0, {f.sym.get_id(): (f.c, f.sym)})))
        if f.kind == 'strptr': return Ptr(('S', f.sym))
        if f.kind == 'ptropt': return OptPtr(f.g, Ptr(f.w, Lin(0, {f.sym.get_id(): (f.c, f.sym)})))
        if f.kind == 'unk': return Ptr(('?', 'loop'))
        if f.kind == 'drop': return None
        if f.kind == 'range':
            w = loc[3] * 8
            lo = f.c; g = f.g; K = self.K
            def fn(i, lo=lo, g=g, K=K):
                if not isinstance(g, z3.ExprRef): return g
                return simp(z3.substitute(g, (K, bv(lin_of(i).add(lin_of(lo), -1).bv(), 64))))
            return ARange(v0, lo, lin_of(lo).add(lin_of(self.K)).bv(), fn, w)
        if f.kind == 'afresh': return ABase(f.sym, loc[3] * 8, 'loop')
        raise Unsupported('form ' + f.kind)
    def flat(self, v, w):
        if isinstance(v, Ptr):
            if v.rid == 0: return bv(0, 64)
            if isinstance(v.rid, tuple) and v.rid[0] == 'S' and v.off.const() and v.off.c == 0: return bv(v.rid[1], 64)
            return None
        if isinstance(v, (int, Lin)) or z3.is_bv(v): return bv(v, w if isinstance(w, int) else 64)
        return None
    def local(self, t, kn, syms, const=False):
        """a small term over the counter and what was known before the loop"""
        names = free_names(t)
        if len(names) > 4 or any(s in names for s in syms) or not self.ok_names(t, syms) or (kn not in names and not const): return False
        return small(t, 80)
    def ok_names(self, t, extra=()):
        if not isinstance(t, z3.ExprRef): return True
        kn = self.K.decl().name()
        for n in free_names(t):
            if n == kn or n in extra: continue
            if self.e.symserials.get(n, 0) > self.start: return False
        return True
    # -- choice of forms ----------------------------------------------------------------------
    def choose(self, loc, backs):
        """alternatives for a newly modified location, best first"""
        E = self.E
        v0 = self.get(E, loc)
        alts = []
        if loc[0] == 'arr':
            f = self.array_form(loc, backs)
            if f: alts.append(f)
            fw = loc[3] * 8
            uf = self.e.uf('loopA!%d' % next(self.e.anon), z3.BitVecSort(64), z3.BitVecSort(fw))
            self.e.note(uf.name())
            alts.append(Form('afresh', sym=uf))
            return alts
        vs = [self.get(B, loc) for B in backs]
        if v0 is None:
            rg = E.mem[loc[1]]
            if rg.init == 'undef' or loc[0] == 'str': return [Form('drop')]
            if rg.init == 'zero':
                ty = ('ptr',) if any(isinstance(v, Ptr) for v in vs) else ('i', loc[3] * 8)
                v0 = NULL if ty[0] == 'ptr' else 0
            else: 
                v0 = self.e.fresh(rg.name + '+%d' % loc[2], loc[3] * 8) if not any(isinstance(v, Ptr) for v in vs) else Ptr(('?', 'uninit'))
            E.wr(loc[1]).cells[loc[2]] = (loc[3], v0)
            raise Again()
        isptr = isinstance(v0, (Ptr, PtrInt, OptPtr)) or any(isinstance(v, (Ptr, PtrInt, OptPtr)) for v in vs)
        if isptr and loc[0] == 'cell':
            # null or an element of one region
            rids = set()
            for v in [v0] + vs:
                q = v.p if isinstance(v, OptPtr) else v
                if isinstance(q, Ptr) and q.rid != 0: rids.add(q.rid if not isinstance(q.rid, tuple) else '')
                elif not isinstance(q, Ptr): rids.add('')
            hasnull = any(isinstance(v, OptPtr) or (isinstance(v, Ptr) and v.rid == 0) for v in [v0] + vs)
            if hasnull and len(rids) == 1 and '' not in rids:
                rid = rids.pop(); rg = E.mem.get(rid)
                if rg is not None and rg.stride and all(self.opt_ok(v, rid, rg.stride) for v in [v0] + vs):
                    f = Form('ptropt', c=rg.stride, sym=self.e.fresh('hp', 64)); f.g = self.e.fresh('hnull', 'bool'); f.w = rid
                    alts.append(f)
        if isptr and any(isinstance(v, OptPtr) for v in [v0] + vs): alts.append(Form('unk')); return alts
        if isptr and loc[0] != 'arr' and any(isinstance(v, Ptr) and isinstance(v.rid, tuple) and v.rid[0] == 'S' for v in [v0] + vs):
            self.textlocs.add(loc)
            v0 = self.get(E, loc); vs = [self.get(B, loc) for B in backs]
        if isptr:
            p0 = v0.p if isinstance(v0, PtrInt) else v0
            ps = [v.p if isinstance(v, PtrInt) else v for v in vs]
            if isinstance(p0, Ptr) and all(isinstance(p, Ptr) for p in ps):
                hv = [self.hval_now.get(loc, v0)]
                hp = hv[0].p if isinstance(hv[0], PtrInt) else hv[0]
                if all(not isinstance(p.rid, tuple) and p.rid == p0.rid for p in ps) and not isinstance(p0.rid, tuple) and p0.rid != 0:
                    ds = [p.off.add(hp.off, -1) for p in ps]
                    nz = [d for d in ds if not (d.const() and d.c == 0)]
                    if nz and all(d.const() and d.c == nz[0].c for d in ds):
                        alts.append(Form('ptrlin', c=nz[0].c))
                    rg = E.mem.get(p0.rid)
                    g = rg.stride if rg is not None and rg.stride else None
                    if g is None:
                        from math import gcd
                        g = 0
                        for d in ds: g = gcd(gcd(g, d.gcd()), abs(d.c))
                    if g and all(d.divisible(g) for d in ds):
                        f = Form('ptrsym', c=g, sym=self.e.fresh('hp', 64)); alts.append(f)
                elif (isinstance(p0.rid, tuple) and p0.rid[0] == 'S' or p0.rid == 0) and all((isinstance(p.rid, tuple) and p.rid[0] == 'S') or p.rid == 0 for p in ps):
                    for j in range(len(self.vals)):
                        f = Form('user', c=j); f.w = 'ptr'; alts.append(f)
                    alts.append(Form('strptr', sym=self.e.fresh('hs', 64)))
            if self.e.dbg > 1: print('  pointer', loc, v0, vs)
            alts.append(Form('unk'))
            return alts
        w = width_of(v0, (loc[3] * 8) if loc[0] == 'cell' else (64 if loc[0] == 'str' else self.regw(loc)))
        if w == 'real' or (self.e.fpmode == 'real' and any(isinstance(v, z3.ExprRef) and z3.is_real(v) for v in vs)):
            f = Form('fresh', sym=self.e.fresh('hr', 'real')); f.w = 'real'; return [f]
        if w != 'bool':
            h0 = self.hval_now.get(loc, v0)
            ds = []
            for v in vs:
                d = simp(bv(v, w) - bv(h0, w))
                ds.append(d)
            if all(isinstance(d, int) for d in ds) and len(set(ds)) == 1 and ds[0] != 0:
                f = Form('lin', c=sgn(ds[0], w)); f.w = w; alts.append(f)
        us = []
        for j in range(len(self.vals)):
            f = Form('user', c=j); f.w = w; us.append(f)
        if len(us) > 1 and w != 'bool': 
            for f in us:
                f.likely = self.likely(loc, f, self.hval_now.get(loc, v0), backs, w)
                if f.likely: us.remove(f); us.insert(0, f); break
        alts += us
        f = Form('fresh', sym=self.e.fresh('h_' + str(loc[1])[:20], w)); f.w = w; alts.append(f)
        return alts
    def likely(self, loc, f, h0, backs, w):
        """would this closed value be preserved by the iteration just executed?"""
        try:
            k1 = lin_of(self.K).addc(1).bv()
            if loc not in self.hval_now:      # executed from the entry values
                if all(self.agree(B, self.get(B, loc), self.value(self.E, loc, f, 1), w) for B in backs): return True
            a = self.value(self.H, loc, f, self.K); b = self.value(self.H, loc, f, k1)
            return all(isinstance(x, int) and x == 0 for x in (simp(bv(self.get(B, loc), w) - bv(h0, w) + bv(a, w) - bv(b, w)) for B in backs))
        except Exception: return False
    def opt_ok(self, v, rid, stride):
        if isinstance(v, OptPtr): v = v.p
        return isinstance(v, Ptr) and (v.rid == 0 or (v.rid == rid and v.off.divisible(stride)))
    def regw(self, loc):
        for ins in self.fr.fn.blocks[self.blk]:
            if ins.op == 'phi' and ins.res == loc[1]:
                t = self.e.m.res(ins.ty)
                if t[0] == 'i': return 'bool' if t[1] == 1 else t[1]
                if t[0] == 'double': return 64
                return 64
        return 64
    def initial_ok(self, loc, f):
        if f.kind != 'user': return True
        v0 = self.get(self.E, loc)
        try:
            v = self.value(self.E, loc, f, 0)
        except Unsupported: return False
        t = eqterm(v, v0, f.w)
        if t is None: return False
        return t is True or self.e.valid(self.E, t, 3000) == 'yes'
    def chain(self, H, B, loc):
        """writes of this iteration on top of H's array; None if not of simple shape"""
        a = self.get(H, loc); b = self.get(B, loc)
        out = []
        while b is not a:
            if isinstance(b, AWrite): out.append(b); b = b.prev
            else: return None
        return out[::-1]
    def agree(self, B, v, d, w):
        t = eqterm(v, d, w)
        return t is True or t not in (None, False) and self.e.check(B, [bnot(t)], 1000)[0] == 'unsat'
    def array_form(self, loc, backs):
        w = loc[3] * 8
        K = self.K; lo = None; parts = []
        for B in backs:
            ch = self.chain(self.H, B, loc)
            if ch is None:
                if self.e.dbg > 2: print('  no array form', loc, 1)
                return None
            if len(ch) == 0: parts.append((B, None)); continue
            if any(idxdiff(x.i, ch[0].i) != 0 for x in ch):
                if self.e.dbg > 2: print('  no array form', loc, 2)
                return None
            i = lin_of(ch[0].i).add(lin_of(K), -1)
            l = i.bv()
            if isinstance(l, z3.ExprRef):
                if K.decl().name() in free_names(l):
                    if self.e.dbg > 2: print('  no array form', loc, 3)
                    return None
                if not self.ok_names(l):
                    if self.e.dbg > 2: print('  no array form', loc, 4)
                    return None
            if lo is not None and idxdiff(lo, l) != 0:
                if self.e.dbg > 2: print('  no array form', loc, 5)
                return None
            lo = l
            v = ch[-1].v
            if not self.ok_names(v):
                if self.e.dbg > 2: print('  no array form', loc, 6)
                return None
            parts.append((B, v))
        if lo is None:
            if self.e.dbg > 2: print('  no array form', loc, 7)
            return None
        f = Form('range', c=lo)
        a0 = self.get(self.E, loc)
        prev = a0.read(lin_of(lo).add(lin_of(K)).bv())
        g = None
        vs = [prev if v is None else v for _, v in parts]
        common = set.intersection(*[{c.get_id() for c in B.pc[self.hpc:]} for B in backs])
        g = vs[-1]
        # one of the values may be the value on every path
        dist = []
        for v in vs:
            if not any(same(v, d) for d in dist): dist.append(v)
        if 1 < len(dist):
            cs = []
            for clo, fn in self.vals:
                for k in (lin_of(K).addc(1).bv(), K):
                    try: t = self.e.eval_closure(self.H, fn, [clo, k], 64)
                    except Unsupported: continue
                    if isinstance(t, int): t = z3.BitVecVal(t, 64)
                    cs.append(simp(z3.Extract(w - 1, 0, t)) if w < 64 else t)
            for d in cs + (sorted(dist, key=lambda d: -len(str(d)) if isinstance(d, z3.ExprRef) else 0) if len(dist) <= 4 else []):
                if not self.ok_names(d): continue
                if all(same(v, d) or self.agree(B, v, d, w) for (B, _), v in zip(parts, vs)):
                    vs = [d] * len(vs); g = d; break
        for (B, _), v in list(zip(parts, vs))[-2::-1]:
            if same(v, g): continue
            n0 = self.hpc
            conds = [c for c in B.pc[n0:] if c.get_id() not in self.e.axids and c.get_id() not in common]     # (checked by preserved)
            c = z3.And(*conds) if conds else z3.BoolVal(True)
            if not self.ok_names(c):
                if self.e.dbg > 2: print('  no array form', loc, 8)
                return None
            g = z3.If(c, bv(v, w), bv(g, w))
        if isinstance(g, z3.ExprRef): g = simp(g)
        if not self.ok_names(g):
            if self.e.dbg > 2: print('  no array form', loc, 9)
            return None
        f.g = g
        return f
    # -- one round -----------------------------------------------------------------------------
    def build(self):
        H = self.E.copy()
        H.loops = H.loops[:]
        self.hval_now = {}
        later = []
        for loc, f in self.forms.items():
            if f.kind == 'user': later.append((loc, f)); continue
            v = self.hvalue(H, loc, f); self.set(H, loc, v)
        for loc, f in later:
            v = self.hvalue(H, loc, f); self.set(H, loc, v)
        for loc, f in self.forms.items():
            if loc[0] != 'arr': self.hval_now[loc] = self.get(H, loc)
        for c in self.cands:
            if c['alive']: self.e.assume(H, c['term'])
        for v in self.invs:
            if v['alive']:
                try: self.e.assume(H, self.e.eval_closure(H, v['fn'], [v['clo'], self.K], 1))
                except Unsupported: v['alive'] = False
        for loc, f in self.forms.items():
            if f.sym is not None and f.kind in ('fresh', 'ptrsym', 'strptr', 'ptropt'): H.tainted.append(f.sym.decl().name())
            if f.kind == 'ptropt': H.tainted.append(f.g.decl().name())
            if f.kind == 'afresh': H.tainted.append(f.sym.name())
            if f.kind == 'strptr':
                self.e.assume(H, z3.ULT(f.sym, CODEBIT))
        H.cmps = []
        ctx = LoopCtx(self.depth, self.blk, self.body, 'inv'); ctx.uid = next(_ctxid)
        H.loops.append(ctx)
        self.ctx = ctx
        self.hpc = len(H.pc)
        return H
    def hsubst(self, st, term, k, initial):
        """term with K := k and header symbols := their values in st"""
        sub = [(self.K, bv(k, 64))]
        for loc, f in self.forms.items():
            if f.sym is None or f.kind in ('afresh',): continue
            if f.sym.decl().name() not in free_names(term) and not (f.kind == 'ptropt' and f.g.decl().name() in free_names(term)): continue
            v = self.get(st, loc)
            if f.kind == 'ptropt':
                if not self.opt_ok(v, f.w, f.c): return None
                if isinstance(v, OptPtr): sub += [(f.g, v.null), (f.sym, bv(v.p.off.div(f.c).bv(), 64))]
                elif v.rid == 0: sub += [(f.g, z3.BoolVal(True)), (f.sym, bv(0, 64))]
                else: sub += [(f.g, z3.BoolVal(False)), (f.sym, bv(v.off.div(f.c).bv(), 64))]
                continue
            if f.kind == 'ptrsym':
                p = v.p if isinstance(v, PtrInt) else v
                v0 = self.get(self.E, loc)
                d = p.off.add(v0.off, -1)
                if not isinstance(p, Ptr) or isinstance(p.rid, tuple) or p.rid != v0.rid or not d.divisible(f.c): return None
                sub.append((f.sym, bv(d.div(f.c).bv(), 64)))
            elif f.kind == 'strptr':
                if v.rid == 0: sub.append((f.sym, bv(0, 64)))
                elif isinstance(v.rid, tuple) and v.rid[0] == 'S' and v.off.const() and v.off.c == 0: sub.append((f.sym, bv(v.rid[1], 64)))
                else: return None
            else:
                if f.w == 'bool': sub.append((f.sym, zb(bool(v) if isinstance(v, int) else v)))
                elif f.w == 'real': sub.append((f.sym, v))
                else: sub.append((f.sym, bv(v, f.w)))
        return simp(z3.substitute(term, *sub))
    def add_cands(self, H, back):
        syms = [f.sym.decl().name() for f in self.forms.values() if f.sym is not None and f.kind != 'afresh']
        kn = self.K.decl().name()
        new = False
        def add(t):
            nonlocal new
            if len(self.cands) > 60: return
            if not isinstance(t, z3.ExprRef) or z3.is_bool(t) is False: return
            k = t.get_id()
            if k in self.candkeys: return
            self.candkeys.add(k); self.keep.append(t)
            i = self.hsubst(self.E, t, 0, True)
            if i is None: return
            if i is True or self.e.valid(self.E, i, 2000) == 'yes':
                self.cands.append(dict(term=t, alive=True)); new = True
        opts = [f for f in self.forms.values() if f.kind == 'ptropt']; locs = [l for l, f in self.forms.items() if f.kind == 'ptropt']
        def osig(v): return 2 if isinstance(v, OptPtr) else 0 if isinstance(v, Ptr) and v.rid == 0 else 1
        for i, f in enumerate(opts):
            add(z3.Or(f.g, z3.ULT(f.sym, self.K)))
            for j, g in enumerate(opts[:i]):
                if all(osig(self.get(B, locs[i])) == osig(self.get(B, locs[j])) for B in back) or len(opts) < 5:
                    add(f.g == g.g); add(z3.Or(f.g, g.g, f.sym == g.sym))
        for A, B, w in H.cmps:
            names = free_names(A) | free_names(B)
            if kn not in names and not any(s in names for s in syms): continue
            if not self.ok_names(A, syms) or not self.ok_names(B, syms): continue
            add(simp(z3.ULE(A, B))); add(simp(z3.ULE(B, A)))
            if w <= 64:
                add(simp(A <= B)); add(simp(B <= A))
            # the counter itself is bounded by a 64-bit bound
            if w == 64:
                for x, y in ((A, B), (B, A)):
                    if kn in free_names(x) and kn not in free_names(y): add(z3.ULE(self.K, y))
        # what the first iteration changes for good
        for loc, f in self.forms.items():
            if f.kind != 'fresh' or f.sym is None or f.w in ('real', 'bool'): continue
            try:
                v0 = self.flat(self.get(self.E, loc), f.w); vals = [self.flat(self.get(B, loc), f.w) for B in back]
            except Unsupported: continue
            if v0 is None or any(v is None for v in vals): continue
            v0 = z3.simplify(v0); vals = [z3.simplify(v) for v in vals if not v.eq(f.sym)]
            if z3.is_bv_value(v0) and vals and all(z3.is_bv_value(v) and v.eq(vals[0]) for v in vals):
                add(f.sym == z3.If(self.K == 0, v0, vals[0]))
        if not self.e.o.get('rich'): return new
        # what every iteration found true before it went round again held in the one before this
        def common(bs):
            r = None
            for B in bs:
                ts = {t.get_id(): t for t in B.pc[self.hpc:]}
                r = ts if r is None else {i: t for i, t in r.items() if i in ts}
            out = [t for t in list((r or {}).values())[:12] if self.local(t, kn, syms)]
            if 2 <= len(bs) <= 6:
                ways = [[t for i, t in ((t.get_id(), t) for t in B.pc[self.hpc:]) if i not in r and self.local(t, kn, syms)] for B in bs]
                if all(ways) and sum(map(len, ways)) < 40: out.append(z3.Or([z3.And(w) for w in ways]))
            return out
        prev = lambda t: z3.substitute(t, (self.K, self.K - 1))
        for t in common(back): add(simp(z3.Or(self.K == 0, prev(t))))
        # found at last, or not found yet: a flag or result that keeps its first value until one iteration sets it
        for loc, f in self.forms.items():
            if f.kind not in ('strptr', 'fresh') or f.sym is None or f.w in ('real', 'bool'): continue
            try:
                v0 = self.flat(self.get(self.E, loc), f.w)
                vals = [(B, self.flat(self.get(B, loc), f.w)) for B in back]
            except Unsupported: continue
            if v0 is None or any(v is None for _, v in vals): continue
            still = lambda B, v: v.eq(f.sym) or v.eq(v0) or self.e.valid(B, v == v0, 500) == 'yes'
            stay = [B for B, v in vals if still(B, v)]
            sets = [v for B, v in vals if B not in stay]
            if not sets or not stay or len(sets) > 3: continue
            if all(self.local(v, kn, syms, True) for v in sets):
                add(simp(z3.Or(f.sym == v0, z3.And(self.K != 0, z3.Or([f.sym == prev(v) for v in sets])))))
            for t in common([B for B, v in vals if B not in stay]): add(simp(z3.Or(f.sym == v0, z3.And(self.K != 0, prev(t)))))
            for t in common(stay): add(simp(z3.Or(f.sym != v0, self.K == 0, prev(t))))
        return new
    def run_body(self, H, record):
        eng = self.e
        back, exits, done = [], [], []
        if not record: eng.quiet += 1
        try:
            eng.run([H.copy()] , self.ctx, back, exits, done)
        finally:
            if not record: eng.quiet -= 1
        return back, exits, done
    def solve(self):
        self.keep = []
        self.undef = set()
        eng = self.e
        rounds = 0
        self.hval_now = {}
        cache = eng.loopcache.setdefault((self.fr.fn.name, self.blk, self.depth), {})
        while True:
            rounds += 1
            if rounds > 30: raise Unsupported('invariant inference does not converge')
            H = self.build(); self.H = H
            back, exits, done = self.run_body(H, False)
            changed = False
            new = {}
            for B in back:
                for loc in self.diff(H, B):
                    if loc[0] == 'cellsplit': self.split_cell(loc, B); raise Again()
                    if loc not in self.forms: new[loc] = 1
            if self.undef:
                # dead temporaries: forget what an earlier iteration left there
                pass
            scal = [l for l in new if l[0] != 'arr']
            picks = [(loc, self.choose(loc, back)) for loc in (scal or new)]
            # counters first: what else changes is looked at when it is computed from them
            if any(a[0].kind in ('lin', 'ptrlin') for _, a in picks): picks = [p for p in picks if p[1][0].kind != 'user' or len(self.vals) == 1 or getattr(p[1][0], 'likely', None)]
            for loc, alts in picks:
                f = alts.pop(0)
                while not self.initial_ok(loc, f): f = alts.pop(0)
                f.alts = alts
                self.forms[loc] = f; changed = True
                if f.kind == 'lin' and f.w == 32 and not self.smallk:
                    # an index counted in an int: containers are far smaller, and only that makes it exact
                    self.smallk = True; t = z3.ULT(self.K, bv(1 << 30, 64)); self.keep.append(t); self.candkeys.add(t.get_id())
                    self.cands.append(dict(term=t, alive=True))
            if self.add_cands(H, back): changed = True
            if changed: continue
            # check forms
            weak = []      # failing user forms
            for loc, f in list(self.forms.items()):
                if f.kind in ('fresh', 'unk', 'drop', 'afresh'): continue
                ok = self.preserved(loc, f, back)
                if not ok:
                    if f.kind == 'user': weak.append((loc, f)); continue
                    self.demote(loc, f); changed = True
            if changed: continue
            for loc, f in weak:
                self.demote(loc, f); changed = True
            if changed: continue
            # candidates
            for c in self.cands:
                if not c['alive']: continue
                for B in back:
                    t = self.hsubst(B, c['term'], lin_of(self.K).addc(1).bv(), False)
                    if t is None or not (t is True or eng.valid(B, t, 3000) == 'yes'):
                        c['alive'] = False; changed = True; break
            for v in self.invs:
                if not v['alive']: continue
                try:
                    if not v.get('init'):
                        t = eng.eval_closure(self.E, v['fn'], [v['clo'], 0], 1)
                        if not (t is True or eng.valid(self.E, t, 5000) == 'yes'): 
                            v['alive'] = False; changed = True; v['why'] = 'init'
                            if self.e.dbg > 1: print('  inv fails initially:', t)
                            continue
                        v['init'] = True
                    for B in back:
                        t = eng.eval_closure(B, v['fn'], [v['clo'], lin_of(self.K).addc(1).bv()], 1)
                        if not (t is True or eng.valid(B, t, 8000) == 'yes'):
                            v['alive'] = False; changed = True; v['why'] = 'step'
                            if self.e.dbg > 1: print('  inv fails', eng.check(B, [z3.Not(t)], 8000), ':', t, 'at', B.pc[self.hpc:] if self.e.dbg < 4 else B.pc)
                            break
                except Unsupported as ex:
                    v['alive'] = False; changed = True; v['why'] = str(ex)
            if changed: continue
            break
        if eng.dbg > 1:
            print('LOOP', eng.dm(self.fr.fn.name)[:60], self.blk, 'rounds', rounds, 'backs', len(back))
            for loc, f in self.forms.items(): print('   ', loc, f.kind, f.c, f.g, f.sym)
            for c in self.cands:
                if c['alive']: print('    inv', c['term'])
            for v in self.invs: print('    user inv', v['alive'], v.get('why'))
        ninv = sum(c['alive'] for c in self.cands) + sum(v['alive'] for v in self.invs)
        eng.loopinfo.append(dict(function=eng.dm(self.fr.fn.name), block=self.blk, rounds=rounds, closed=sum(f.kind in ('lin', 'ptrlin', 'user', 'range') for f in self.forms.values()),
                                 havoced=sum(f.kind in ('fresh', 'afresh', 'ptrsym', 'strptr', 'ptropt') for f in self.forms.values()), invariants=ninv)) if not eng.quiet else None
        if eng.quiet:
            return exits, done
        H = self.build(); self.H = H
        back, exits, done = self.run_body(H, True)
        return exits, done
    def preserved(self, loc, f, back):
        eng = self.e
        k1 = lin_of(self.K).addc(1).bv()
        for B in back:
            if f.kind == 'range':
                ch = self.chain(self.H, B, loc)
                if ch is None: return False
                i = lin_of(f.c).add(lin_of(self.K)).bv()
                for x in ch:
                    if idxdiff(x.i, i) != 0: return False
                v = self.get(B, loc).read(i)
                t = eqterm(v, f.g, loc[3] * 8)
                if self.e.dbg > 1: f.why = '%s = %s (%s) at %s' % (v, f.g, eng.check(B, [bnot(t)])[0] if t not in (None, True, False) else t, B.pc[self.hpc:])
            else:
                b = self.get(B, loc)
                if f.kind == 'ptrsym':
                    p = b.p if isinstance(b, PtrInt) else b
                    v0 = self.get(self.E, loc)
                    p0 = v0.p if isinstance(v0, PtrInt) else v0
                    if not isinstance(p, Ptr) or isinstance(p.rid, tuple) or p.rid != p0.rid: return False
                    if not p.off.add(p0.off, -1).divisible(f.c): return False
                    continue
                if f.kind == 'ptropt':
                    if not self.opt_ok(b, f.w, f.c): return False
                    continue
                if f.kind == 'strptr':
                    if not isinstance(b, Ptr) or not (b.rid == 0 or isinstance(b.rid, tuple) and b.rid[0] == 'S'): return False
                    continue
                if b is None: return False
                try: v = self.value(B, loc, f, k1)
                except Unsupported: return False
                t = eqterm(b, v, f.w if f.w != 'ptr' else None)
                if self.e.dbg > 1: f.why = '%s = %s at %s' % (b, v, B.pc[self.hpc:])
            if t is None or t is False: return False
            if t is not True and eng.valid(B, t, 8000) != 'yes': return False
        return True
    def demote(self, loc, f):
        if self.e.dbg > 1: print('  demote', loc, f.kind, f.c, f.why)
        alts = f.alts
        while alts:
            g = alts.pop(0)
            if self.initial_ok(loc, g):
                g.alts = alts; self.forms[loc] = g
                return
        raise Unsupported('no form for %s' % (loc,))
    def split_cell(self, loc, B):
        """the body accesses a cell with another width: make the entry state use the finer pieces"""
        _, rid, o = loc
        rb = B.mem[rid]; rg = self.E.wr(rid)
        a = rg.cells.get(o)
        if a is None: raise Unsupported('cell layout changes in loop')
        w, v = a
        if isinstance(v, (Ptr, PtrInt)): raise Unsupported('pointer cell split in loop')
        key = ('split', rid, o)
        if key in self.E.facts: raise Unsupported('cell layout changes in loop')
        self.E.facts[key] = 1
        fine = [(p, n) for p, (n, _) in rb.cells.items() if o <= p < o + w and p + n <= o + w]
        if not fine or sum(n for _, n in fine) != w:
            big = [(p, n) for p, (n, _) in rb.cells.items() if p <= o and o + w <= p + n]
            if big:
                p, n = big[0]
                nv = self.e.load_cell(self.E, rg, p, n, ('i', n * 8))
                self.e.store_cell(self.E.wr(rid), p, n, nv)
                return
            raise Unsupported('cell layout changes in loop')
        del rg.cells[o]
        for p, n in fine:
            lo = 8 * (p - o)
            rg.cells[p] = (n, (v >> lo) & mask(8 * n) if isinstance(v, int) else simp(z3.Extract(lo + 8 * n - 1, lo, bv(v, 8 * w))))

class Again(Exception): pass
class NewStride(Exception):
    def __init__(self, rid, stride, key, count): self.rid = rid; self.stride = stride; self.key = key; self.count = count

def cut(eng, E, blk, depth, body):
    tries = 0
    while True:
        tries += 1
        if tries > 40: raise Unsupported('loop cut does not converge')
        c = Cut(eng, E, blk, depth, body)
        try:
            exits, done = c.solve()
            break
        except Again: continue
        except NewStride as n:
            eng.set_stride(E, n.rid, n.stride, n.key)
            E.wr(n.rid).count = n.count
            continue
    for s in exits: s.cmps = E.cmps
    return eng.finish(exits, done)
