"""Symbolic executor / verification condition generator over LLVM IR."""
import z3, time, itertools, sys, os
import values
from values import *
import llparse

sys.setrecursionlimit(20000)

class Restart(Exception): pass
class NeedInvariant(Exception):
    def __init__(self, ctx): self.ctx = ctx
class OutOfTime(Exception): pass

TQ = int(os.environ.get('VFTQ','40'))
LITBASE = 0x4000000000000000
CODEBIT = 1 << 63

class Region:
    __slots__ = ('id','size','cells','arrs','stride','key','count','freed','name','const','init','owner','strs','text','kind','gen')
    def __init__(self, id, size, name, init='undef'):
        self.id = id; self.size = size; self.name = name; self.init = init
        self.cells = {}; self.arrs = {}; self.stride = None; self.key = None; self.count = None
        self.freed = False; self.const = False; self.owner = None; self.strs = {}; self.text = None; self.kind = ''; self.gen = None
    def clone(self):
        r = Region(self.id, self.size, self.name, self.init)
        r.cells = dict(self.cells); r.arrs = dict(self.arrs); r.stride = self.stride; r.key = self.key
        r.count = self.count; r.freed = self.freed; r.const = self.const; r.strs = dict(self.strs); r.text = self.text
        r.kind = self.kind; r.gen = self.gen
        return r

class Frame:
    __slots__ = ('fn','block','ip','regs','prev','ret','isinv','noreturn_to')
    def __init__(self, fn):
        self.fn = fn; self.block = fn.entry; self.ip = 0; self.regs = {}; self.prev = None; self.ret = None; self.isinv = None
        self.noreturn_to = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.block = self.block; f.ip = self.ip; f.regs = dict(self.regs); f.prev = self.prev
        f.ret = self.ret; f.isinv = self.isinv; f.noreturn_to = self.noreturn_to
        return f

class LoopCtx:
    def __init__(self, depth, loop_header, body, mode):
        self.depth = depth; self.header = loop_header; self.body = body; self.mode = mode; self.count = 0; self.symexits = 0; self.ends = set()
    def copy(self):
        c = LoopCtx(self.depth, self.header, self.body, self.mode); c.count = self.count; c.symexits = self.symexits
        c.uid = self.uid; c.ends = self.ends      # shared: after how many iterations the loop was left
        return c

_uid = itertools.count(1)

class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.model = None; self.uid = next(_uid)
        self.loops = []; self.inputs = []; self.invs = []; self.exc = None; self.caught = []
        self.tainted = []; self.done = None; self.retval = None; self.facts = {}; self.globs = {}
        self.unroll = 2; self.maxunroll = 600; self.cmps = None; self.trace = (); self.ghost = {}
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc); s.model = self.model
        s.uid = next(_uid); self.uid = next(_uid)      # both lose ownership: copy on write
        s.loops = [c.copy() for c in self.loops]; s.inputs = list(self.inputs); s.invs = list(self.invs); s.exc = self.exc
        s.caught = list(self.caught); s.tainted = list(self.tainted); s.done = self.done; s.retval = self.retval
        s.facts = dict(self.facts); s.globs = dict(self.globs); s.unroll = self.unroll; s.maxunroll = self.maxunroll; s.cmps = self.cmps
        s.trace = self.trace; s.ghost = dict(self.ghost)
        return s
    def rg(self, rid):
        return self.mem[rid]
    def wr(self, rid):
        r = self.mem[rid]
        if r.owner != self.uid:
            r = r.clone(); r.owner = self.uid; self.mem[rid] = r
        return r

class Obl:
    def __init__(self, name, kind):
        self.name = name; self.kind = kind; self.checks = 0; self.discharged = 0; self.failed = []; self.unknown = 0; self.time = 0.0
        self.backends = {}

class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod; self.o = opts or {}
        self.layouts = {}; self.used = {}
        self.deadline = None
        self.contracts = []            # (regex on demangled name, replacement function name)
        self.demangle = {}
        self.dbg = self.o.get('debug', 0)
        self.stats = dict(queries=0, solver_time=0.0, z3=0, cvc5=0, paths=0)
        self.axids = {}; self.subs = {}; self.finds = {}; self.keepalive = []
        import intrinsics
        self.intr = intrinsics.TABLE
        self.prefix = intrinsics.PREFIX
        self.fpmode = self.o.get('fp', 'uf')
        self.litids = {b'': 0}; self.lits = [b'']
        # the short literals of the program are known from the start (their bytes decide equality, see sat)
        for g in self.m.globals.values():
            i = getattr(g, 'init', None)
            if i is not None and i[0] == 'cstr' and getattr(g, 'const', False):
                b = bytes(i[1]).split(b'\0')[0]
                if len(b) <= 2: self.lit(b)
        self.chains = {}
        self.reset()

    def reset(self):
        self.nsym = {}
        self.symserial = 0; self.symserials = {}; self.anon = itertools.count(); self.loopcache = {}
        self.nreg = itertools.count(1000)
        self.used = {}
        self.obls = {}
        self.covers = {}
        self.functions = set()
        self.quiet = 0
        self.undecided = []
        self.ufs = {}
        self.gcache = {}
        self.trusted = set()
        self.purity = {}; self.purity2 = {}; self.mono = {}; self.monocache = {}
        self.loopinfo = []

    # ---- symbols ------------------------------------------------------------------------------------
    def fresh(self, name, w):
        n = self.nsym.get(name, 0); self.nsym[name] = n + 1
        nm = '%s!%d' % (name, n)
        self.note(nm)
        if w == 'bool': return z3.Bool(nm)
        if w == 'real': return z3.Real(nm)
        return z3.BitVec(nm, w)
    def note(self, nm):
        self.symserial += 1; self.symserials[nm] = self.symserial
    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        f = self.ufs.get(k)
        if f is None:
            f = self.ufs[k] = z3.Function(name, *sorts)
        return f
    # ---- solver -------------------------------------------------------------------------------------
    def check(self, st, extra=(), timeout=4000):
        self.tick()
        timeout = int(timeout * self.o.get('patience', 1))
        t = time.time()
        self.stats['queries'] += 1
        fs = [zb(e) for e in extra]
        if self.mono:
            have = dict(st.facts.get('mono') or {})
            for f in list(fs): fs += self.mono_axioms(have, f)
        key = (tuple(f.get_id() for f in st.pc), tuple(f.get_id() for f in fs))
        hit = self.qcache.get(key)
        if hit is not None and all(a.eq(b) for a, b in zip(hit[1], fs)) and len(hit[2]) == len(st.pc):
            return hit[0]
        r = self.incr(st, fs)
        if r is None:
            s = z3.Solver(); s.set('timeout', timeout)
            s.add(*st.pc); s.add(*fs)
            x = s.check()
            self.stats['slow'] = self.stats.get('slow', 0) + 1
            if x == z3.sat: r = 'sat', s.model()
            elif x == z3.unsat: r = 'unsat', None
            else: r = 'unknown', None
        self.stats['solver_time'] += time.time() - t
        if r[0] != 'unknown':
            self.qcache[key] = (r, fs, list(st.pc))
        return r
    qcache = {}
    slv = None
    def incr(self, st, fs):
        if self.slv is None or self.slvn > 400:
            self.slv = z3.SimpleSolver(); self.slv.set('timeout', TQ); self.stk = []; self.slvn = 0
        self.slvn += 1
        pc = st.pc; stk = self.stk; i = 0
        # stk: list of (formula ids, formulas) per level
        lv = 0
        for ids, forms in stk:
            n = len(ids)
            if i + n <= len(pc) and all(pc[i + j].get_id() == ids[j] for j in range(n)): i += n; lv += 1
            else: break
        if lv < len(stk):
            self.slv.pop(len(stk) - lv); del stk[lv:]
        if i < len(pc):
            self.slv.push(); new = pc[i:]
            self.slv.add(*new); stk.append(([f.get_id() for f in new], list(new)))
        self.slv.push()
        try:
            self.slv.add(*fs)
            x = self.slv.check()
            if x == z3.sat: return 'sat', self.slv.model()
            if x == z3.unsat: return 'unsat', None
            return None
        finally:
            self.slv.pop()
    def tick(self):
        if self.deadline and time.time() > self.deadline: raise OutOfTime()
    def feasible(self, st, c):
        """is pc & c satisfiable? (unknown counts as feasible)"""
        if isinstance(c, bool): return c
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)): return True
            except z3.Z3Exception: pass
        r, m = self.check(st, [c], 1000)
        if r == 'unsat': return False
        return True
    def assume(self, st, c):
        if c is True: return
        c = zb(c)
        st.pc.append(c)
        if self.mono:
            have = dict(st.facts.get('mono') or {})
            ax = self.mono_axioms(have, c)
            if ax: st.pc.extend(ax)
            st.facts['mono'] = have
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None
            except z3.Z3Exception: st.model = None
    def mono_axioms(self, have, c):
        """instances of 'f is increasing' for the applications of f in c"""
        i = c.get_id(); r = self.monocache.get(i)
        if r is None or not r[0].eq(c):
            apps = {}; seen = set(); w = [c]
            while w:
                x = w.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.mono:
                        apps[x.get_id()] = (x.decl().name(), x)
                    w.extend(x.children())
            r = self.monocache[i] = (c, list(apps.values()))
        out = []
        for nm, x in r[1]:
            l = have.get(nm, ())
            if any(y.eq(x) for y in l): continue
            if self.mono[nm] == 'perm':
                g, r = x.arg(0), x.arg(1); inv = 'pure_ord_rank' if nm == 'pure_ord_slot' else 'pure_ord_slot'
                sz = self.uf('pure_ord_size', z3.BitVecSort(64), z3.BitVecSort(64))(g)
                out.append(z3.ULT(x, sz) == z3.ULT(r, sz))
                if not (z3.is_app(r) and r.decl().name() == inv and r.arg(0).eq(g)):
                    out.append(self.uf(inv, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))(g, x) == r)
            elif self.mono[nm] == 'str': out.append(z3.And(x != 0, z3.ULT(x, CODEBIT)))
            else:
              for y in l:
                  a, b = x.arg(0), y.arg(0)
                  out.append(z3.ULT(a, b) == z3.ULT(x, y)); out.append((a == b) == (x == y))
            have[nm] = l + (x,)
        return out
    def axiom(self, st, c):
        if c is True: return
        n = len(st.pc)
        self.assume(st, c)
        for x in st.pc[n:]:
            self.axids[x.get_id()] = x
    def valid(self, st, c, timeout=4000):
        """'yes' / 'no' / '?' : pc implies c"""
        if isinstance(c, bool) and c: return 'yes'
        r, m = self.check(st, [bnot(c)], timeout)
        return {'unsat': 'yes', 'sat': 'no', 'unknown': '?'}[r]
    def obligation(self, st, cond, name, kind='assert'):
        """verification condition: pc => cond. Afterwards cond is assumed."""
        if self.quiet:
            self.assume(st, cond)
            return
        ob = self.obls.get(name)
        if ob is None: ob = self.obls[name] = Obl(name, kind)
        ob.checks += 1
        t = time.time()
        if cond is True:
            ob.discharged += 1; ob.backends['trivial'] = ob.backends.get('trivial', 0) + 1
            return
        r, m = self.check(st, [bnot(cond)], self.o.get('timeout', 20000))
        be = 'z3'
        if r == 'unknown' and not self.o.get('nocvc5'):
            be = 'cvc5'
            r = self.cvc5(st.pc + [zb(bnot(cond))])
            m = None
        ob.time += time.time() - t
        if r == 'unsat':
            ob.discharged += 1; ob.backends[be] = ob.backends.get(be, 0) + 1
        elif r == 'sat':
            inp = None
            try: inp = self.model_inputs(st, m) if m is not None else None
            except Exception as e: inp = None
            tn = self.taint_of(st, cond)
            ob.failed.append(dict(tainted=tn, inputs=inp, where=self.where(st)))
            if self.dbg: print('  FAILED', name, 'tainted' if tn else 'exact', self.where(st)); 
            if self.dbg > 1: print(m)
        else:
            ob.unknown += 1
            if self.dbg: print('  UNKNOWN', name)
        if not (isinstance(cond, bool) and cond is False):
            self.assume(st, cond)
        else:
            st.done = 'stopped'
    def taint_of(self, st, cond):
        if not st.tainted: return []
        from symexec import free_names
        ts = set(st.tainted); out = set()
        for e in st.pc + [cond]:
            if isinstance(e, z3.ExprRef): out |= free_names(e) & ts
        return sorted(out)
    def cvc5(self, fs):
        import cvc5solve
        t = time.time()
        r = cvc5solve.check(fs, int(self.o.get('cvc5_timeout', 30) * self.o.get('patience', 1)))
        self.stats['cvc5'] += 1; self.stats['solver_time'] += time.time() - t
        return r
    def where(self, st):
        return [self.dm(f.fn.name)[:80] for f in st.frames[-4:]]
    def dm(self, n):
        d = self.demangle.get(n)
        return d if d else n
    def model_inputs(self, st, m):
        out = []
        strs = {}
        for kind, name, term in st.inputs:
            if kind == 'arr':
                uf, argn, w = term
                tab = {}
                if argn == 1:
                    for i in range(40):
                        tab[str(i)] = m.eval(uf(z3.BitVecVal(i, 64)), model_completion=True).as_long()
                else:
                    for i in range(8):
                        for j in range(8):
                            tab['%d,%d' % (i, j)] = m.eval(uf(z3.BitVecVal(i, 64), z3.BitVecVal(j, 64)), model_completion=True).as_long()
                out.append(('arr', name, tab))
            elif kind == 'real':
                v = m.eval(term, model_completion=True)
                try: out.append(('real', name, float(v.as_fraction())))
                except Exception: pass
            elif isinstance(term, int):
                out.append((kind, name, term))
            else:
                v = m.eval(term, model_completion=True)
                if z3.is_bool(v): out.append((kind, name, int(z3.is_true(v))))
                else: out.append((kind, name, v.as_long()))
        # text of string handles
        slen = self.ufs.get(('slen', 'BitVec(64)', 'BitVec(64)'))
        sat = self.ufs.get(('sat', 'BitVec(64)', 'BitVec(64)', 'BitVec(8)'))
        def text(h):
            if h == 0: return None
            if LITBASE <= h < LITBASE + len(self.lits): return list(self.lits[h - LITBASE])
            n = 3
            if slen is not None:
                n = m.eval(slen(z3.BitVecVal(h, 64)), model_completion=True).as_long()
            if n > 100000: n = 100000
            b = []
            tag = ('s%d_' % (h % 100000)).encode()
            for i in range(n):
                c = tag[i] if i < len(tag) else 97 + i % 26
                if sat is not None and i < 4:
                    x = m.eval(sat(z3.BitVecVal(h, 64), z3.BitVecVal(i, 64)), model_completion=True).as_long()
                    if 32 <= x < 127: c = x
                b.append(c)
            return b
        hs = set()
        for k, n, v in out:
            if k == 'str': hs.add(v)
            elif k == 'arr':
                hs.update(x for x in v.values() if x >= LITBASE and x < LITBASE + len(self.lits) or True)
        return dict(values=out, strings={str(h): text(h) for h in list(hs)[:400]})

    # ---- strings ------------------------------------------------------------------------------------
    def lit(self, b):
        """handle (python int) of a literal byte string"""
        i = self.litids.get(b)
        if i is None:
            i = self.litids[b] = len(self.lits); self.lits.append(b)
        return LITBASE + i
    def litbytes(self, h):
        if isinstance(h, int) and LITBASE <= h < LITBASE + len(self.lits): return self.lits[h - LITBASE]
        return None
    def slen(self, st, h):
        if isinstance(h, int) and h >= CODEBIT: raise Unsupported('buffer used as text')
        b = self.litbytes(h)
        if b is not None: return len(b)
        parts = self.chains.get(h.get_id()) if not isinstance(h, int) else None
        if parts:
            r = Lin(0)
            for p in parts[1]: r = r.add(lin_of(self.slen(st, p)))
            return r.bv()
        f = self.uf('slen', z3.BitVecSort(64), z3.BitVecSort(64))
        r = f(bv(h, 64))
        k = ('slen', r.get_id())
        if k not in st.facts:
            st.facts[k] = r
            self.axiom(st, z3.ULT(r, 1 << 32))
            self.axiom(st, (r == 0) == (bv(h, 64) == LITBASE))
        return r
    def sat(self, st, h, i):
        if isinstance(h, int) and h >= CODEBIT: raise Unsupported('buffer used as text')
        b = self.litbytes(h)
        if b is not None:
            if isinstance(i, int): return b[i] if i < len(b) else 0
            r = z3.BitVecVal(0, 8)
            for j, c in enumerate(b): r = z3.If(i == j, z3.BitVecVal(c, 8), r)
            return simp(r)
        f = self.uf('sat', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
        r = f(bv(h, 64), bv(i, 64))
        k = ('sat', r.get_id())
        if k not in st.facts:
            st.facts[k] = r
            n = self.slen(st, h)
            # no embedded NUL: byte i is NUL exactly at the end
            self.axiom(st, z3.Implies(z3.ULT(bv(i, 64), bv(n, 64)), r != 0))
            self.axiom(st, z3.Implies(bv(i, 64) == bv(n, 64), r == 0))
            # equality with short literals is decided by the bytes
            for j, l in enumerate(self.lits):
                L = LITBASE + j
                if len(l) <= 2:
                    eqs = [f(bv(h, 64), bv(q, 64)) == (l[q] if q < len(l) else 0) for q in range(len(l) + 1)]
                    self.axiom(st, (bv(h, 64) == L) == z3.And(*eqs))
                elif isinstance(i, int) and i <= len(l):
                    self.axiom(st, z3.Implies(bv(h, 64) == L, r == (l[i] if i < len(l) else 0)))
        return r
    def scat(self, st, *hs):
        if any(isinstance(h, int) and h >= CODEBIT for h in hs): raise Unsupported('buffer used as text')
        parts = []
        for h in hs:
            ps = [h]
            if not isinstance(h, int):
                c = self.chains.get(h.get_id())
                if c: ps = list(c[1])
            for p in ps:
                b = self.litbytes(p)
                if b == b'': continue
                if b is not None and parts and self.litbytes(parts[-1]) is not None:
                    parts[-1] = self.lit(self.litbytes(parts[-1]) + b)
                else: parts.append(p)
        if not parts: return LITBASE
        if len(parts) == 1: return parts[0]
        f = self.uf('scat', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        r = bv(parts[-1], 64)
        for p in reversed(parts[:-1]): r = f(bv(p, 64), r)
        self.chains[r.get_id()] = (r, parts)
        k = ('scat', r.get_id())
        if k not in st.facts:
            st.facts[k] = r
            self.axiom(st, z3.And(r != 0, z3.ULT(r, CODEBIT)))
            ne = [self.slen(st, p) for p in parts]
            # a concatenation is empty iff its parts are
            self.axiom(st, (r == LITBASE) == z3.And(*[bv(p, 64) == LITBASE for p in parts]))
            for p in parts:
                self.axiom(st, z3.Implies(z3.And(*[bv(q, 64) == LITBASE for q in parts if q is not p]), r == bv(p, 64)))
        return r
    def sym_string(self, st, h):
        k = ('str', h.get_id())
        if k not in st.facts:
            st.facts[k] = h
            self.axiom(st, z3.And(h != 0, z3.ULT(h, CODEBIT)))
    def handle(self, st, p):
        """handle of the C string a pointer points to"""
        if p.rid == 0: return 0
        if isinstance(p.rid, tuple):
            if p.rid[0] == 'S':
                if p.off.const() and p.off.c == 0: return p.rid[1]
                b = self.litbytes(p.rid[1])
                if b is not None and p.off.const(): return self.lit(b[p.off.c:])
                f = self.uf('ssuf', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
                r = f(bv(p.rid[1], 64), bv(p.off.bv(), 64)); self.sym_string(st, r)
                return r
            raise Unsupported('string at %r' % (p.rid,))
        rg = self.region(st, p.rid)
        if not p.off.const(): raise Unsupported('string at symbolic offset')
        o = p.off.c
        if rg.text is not None:
            b = rg.text[o:]
            z = b.find(b'\0')
            return self.lit(b[:z] if z >= 0 else b)
        if o in rg.strs: return rg.strs[o]
        bs = bytearray()
        while True:
            c = self.load(st, Ptr(p.rid, Lin(o)), ('i', 8))
            if not isinstance(c, int): raise Unsupported('string of symbolic bytes')
            if c == 0: break
            bs.append(c); o += 1
            if len(bs) > 4096: raise Unsupported('unterminated string')
        return self.lit(bytes(bs))
    # ---- memory -------------------------------------------------------------------------------------
    def new_region(self, st, size, name, init='undef'):
        r = Region(next(self.nreg), size, name, init)
        r.owner = st.uid
        st.mem[r.id] = r
        return r
    def region(self, st, rid):
        r = st.mem.get(rid)
        if r is None: raise Unsupported('dangling region %r' % (rid,))
        return r
    def cuts(self, key, stride):
        c = self.layouts.get(key)
        if c is None: c = self.layouts[key] = {0, stride}
        return c
    def pieces(self, rg, f, w):
        key = rg.key
        cs = self.cuts(key, rg.stride)
        used = self.used.setdefault(key, set())
        for x in (f, f + w):
            if x not in cs:
                cs.add(x)
                for (f0, w0) in used:
                    if f0 < x < f0 + w0: raise Restart()
        pts = sorted(x for x in cs if f <= x <= f + w)
        res = [(a, b - a) for a, b in zip(pts, pts[1:])]
        used.update(res)
        return res
    def arr(self, st, rg, f, w):
        a = rg.arrs.get((f, w))
        if a is None:
            if rg.init == 'zero': a = AConst(0, w * 8)
            elif rg.gen is not None: a = rg.gen(f, w)
            else:
                nm = '%s#%d.%d:%d' % (rg.name, rg.id, f, w)
                if nm not in self.symserials: self.note(nm)
                a = ABase(self.uf(nm, z3.BitVecSort(64), z3.BitVecSort(w * 8)), w * 8, nm)
            rg.arrs[(f, w)] = a       # benign: default content, same for every clone
        return a
    def locate(self, st, rg, off, w):
        """(index, field) of an access in an array region"""
        if rg.stride is None:
            g = off.gcd()
            if g == 0: return None
            self.set_stride(st, rg.id, g); rg = st.mem[rg.id]
        s = rg.stride
        if not all(c % s == 0 for c, t in off.t.values()):
            raise Unsupported('offset %s not a multiple of stride %d' % (off, s))
        f = off.c % s
        idx = Lin(off.c - f, off.t).div(s)
        return idx.bv(), f
    def set_stride(self, st, rid, s, key=None):
        rg = st.wr(rid)
        rg.stride = s; rg.key = key or ('r:%s:%d' % (rg.name, s))
        cells = rg.cells; rg.cells = {}
        for o, (w, v) in sorted(cells.items()):
            self.store_arr(st, rg, (o // s), o % s, w, v)
    def store_arr(self, st, rg, idx, f, w, v):
        if isinstance(v, (Ptr, PtrInt)): v = self.encode(st, v)
        if f + w > rg.stride:
            raise Unsupported('store crosses element')
        ps = self.pieces(rg, f, w)
        if len(ps) == 1:
            rg.arrs[ps[0]] = AWrite(self.arr(st, rg, *ps[0]), idx, self.tobits(v, w), w * 8)
            return
        b = bv(self.tobits(v, w), w * 8)
        for a, n in ps:
            lo = (a - f) * 8
            rg.arrs[(a, n)] = AWrite(self.arr(st, rg, a, n), idx, simp(z3.Extract(lo + n * 8 - 1, lo, b)), n * 8)
    def load_arr(self, st, rg, idx, f, w):
        if f + w > rg.stride: raise Unsupported('load crosses element')
        ps = self.pieces(rg, f, w)
        old = values.DECIDE; values.DECIDE = lambda c: self.decide(st, c)
        try:
            if len(ps) == 1: return self.arr(st, rg, *ps[0]).read(idx)
            vs = [bv(self.arr(st, rg, *p).read(idx), p[1] * 8) for p in ps]
        finally: values.DECIDE = old
        return simp(z3.Concat(*reversed(vs)))
    def decide(self, st, c):
        d = st.facts.get(('decided', c.get_id()))
        if d is not None: return d[0]
        r = self.decide0(st, c)
        if r is not None: st.facts[('decided', c.get_id())] = (r, c)
        return r
    def decide0(self, st, c):
        if self.check(st, [bnot(c)], 500)[0] == 'unsat': return True
        if self.check(st, [c], 500)[0] == 'unsat': return False
        return None
    def tobits(self, v, w):
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, LinInt)): return v.bv() if isinstance(v, LinInt) else v
        if z3.is_bool(v): return simp(bv(v, w * 8))
        if z3.is_real(v): raise Unsupported('real in array')
        return v
    def encode(self, st, p):
        if isinstance(p, PtrInt): p = p.p
        if p.rid == 0: return 0
        if isinstance(p.rid, tuple):
            if p.rid[0] == 'S':
                if p.off.const() and p.off.c == 0: return p.rid[1]
                return self.handle(st, p)
            if p.rid[0] == '?': return self.fresh('unknownptr', 64)
            if p.rid[0] == 'K': return p.rid[1]
            if p.rid[0] == 'F':
                ids = self.__dict__.setdefault('fnids', {}); return 0x7f0000000000 + 16 * ids.setdefault(p.rid[1], len(ids))
            raise Unsupported('encode %r' % (p.rid,))
        rg = self.region(st, p.rid)
        if rg.text is not None: return self.handle(st, p)
        if not p.off.const(): raise Unsupported('encode pointer with symbolic offset')
        return CODEBIT | (p.rid << 32) | (p.off.c & 0xffffffff)
    def decode(self, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, PtrInt): return v.p
        if isinstance(v, LinInt): v = v.bv()
        if isinstance(v, int):
            if v == 0: return NULL
            if v == mask(64): return Ptr(('K', v))
            if v & CODEBIT: return Ptr((v >> 32) & 0x7fffffff, Lin(v & 0xffffffff))
            return Ptr(('S', v))
        return Ptr(('S', v))
    def access(self, st, p, w, what):
        if p.rid == 0:
            self.obligation(st, False, 'no null pointer dereference', 'safety'); st.done = 'stopped'; return None
        if isinstance(p.rid, tuple):
            if p.rid[0] == '?': raise Unsupported('%s through unknown pointer' % what)
            if p.rid[0] == 'F': raise Unsupported('%s of code' % what)
            if p.rid[0] == 'K':
                self.obligation(st, False, 'no access through an invalid pointer', 'safety'); st.done = 'stopped'; return None
            return None
        rg = self.region(st, p.rid)
        if rg.freed:
            self.obligation(st, False, 'no use after free', 'safety'); st.done = 'stopped'; return None
        if rg.size is not None and p.off.const():
            ok = 0 <= p.off.c and p.off.c + w <= rg.size
            if not ok:
                self.obligation(st, False, 'memory access in bounds', 'safety'); st.done = 'stopped'; return None
        elif rg.size is not None and rg.stride is None and not p.off.const():
            pass
        if rg.count is not None and rg.stride:
            l = self.locate(st, rg, p.off, w)
            if l:
                self.obligation(st, simp(z3.ULT(bv(l[0], 64), bv(rg.count, 64))), 'memory access in bounds', 'safety')
        return rg
    def load(self, st, p, ty):
        w = self.m.size(ty)
        if isinstance(p.rid, tuple) and p.rid[0] == 'S':
            if w != 1: raise Unsupported('load of %d bytes from string' % w)
            if p.rid[1] == 0:
                self.obligation(st, False, 'no null pointer dereference', 'safety'); st.done = 'stopped'; return 0
            if not isinstance(p.rid[1], int):
                if self.feasible(st, p.rid[1] == 0) :
                    self.obligation(st, p.rid[1] != 0, 'no null pointer dereference', 'safety')
            return self.sat(st, p.rid[1], p.off.bv())
        rg = self.access(st, p, w, 'load')
        if rg is None: return self.default(ty) if st.done else None
        if rg.text is not None:
            return self.load_text(st, rg, p, w)
        if rg.stride is not None or not p.off.const():
            if rg.size is not None and not p.off.const() and rg.stride is None:
                self.index_object(st, rg, p.off); rg = st.mem[rg.id]
            l = self.locate(st, rg, p.off, w); rg = st.mem[rg.id]
            v = self.load_arr(st, rg, l[0], l[1], w)
        else:
            v = self.load_cell(st, rg, p.off.c, w, ty)
        return self.typed(st, v, ty)
    def index_object(self, st, rg, off):
        """a fixed-size object indexed symbolically becomes an array region"""
        g = off.gcd()
        if rg.strs: raise Unsupported('symbolic index into string buffer')
        if rg.size % g or off.c % g + 1 > g: raise Unsupported('symbolic index into object')
        self.set_stride(st, rg.id, g); r = st.wr(rg.id); r.count = rg.size // g
    def typed(self, st, v, ty):
        if isinstance(v, OptPtr): return v
        if ty[0] == 'ptr':
            if isinstance(v, Ptr): return v
            return self.decode(v)
        if isinstance(v, Ptr): return PtrInt(v)
        if ty[0] == 'i' and ty[1] == 1 and not isinstance(v, bool):
            return simp(z3.Extract(0, 0, bv(v, self.m.size(ty) * 8)) == 1) if not isinstance(v, int) else bool(v & 1)
        if ty[0] == 'i' and ty[1] != self.m.size(ty) * 8 and ty[1] > 1:
            return simp(z3.Extract(ty[1] - 1, 0, bv(v, self.m.size(ty) * 8)))
        return v
    def default(self, ty):
        if ty[0] == 'ptr': return NULL
        return 0
    def load_text(self, st, rg, p, w):
        if p.off.const():
            b = rg.text[p.off.c:p.off.c + w]
            return int.from_bytes(b, 'little')
        if w != 1: raise Unsupported('text load')
        i = bv(p.off.bv(), 64); r = z3.BitVecVal(0, 8)
        if len(rg.text) > 64: raise Unsupported('symbolic index into long text')
        for j, c in enumerate(rg.text): r = z3.If(i == j, z3.BitVecVal(c, 8), r)
        return simp(r)
    def load_cell(self, st, rg, o, w, ty):
        c = rg.cells.get(o)
        if c is not None and c[0] == w:
            return c[1]
        # overlapping cells?
        ov = [(a, n, v) for a, (n, v) in rg.cells.items() if a < o + w and o < a + n]
        if o in rg.strs and w == 1:
            return self.sat(st, rg.strs[o], 0)
        if not ov:
            if rg.strs:
                for so, h in rg.strs.items():
                    if so <= o and w == 1: return self.sat(st, h, o - so)
            if rg.init == 'zero': v = 0 if ty[0] != 'ptr' else NULL
            elif ty[0] == 'ptr': v = Ptr(('?', 'uninitialised')) if rg.init == 'undef' else self.decode(self.fresh(rg.name + '+%d' % o, 64))
            elif ty[0] == 'double' and self.fpmode == 'real': v = self.fresh(rg.name + '+%d' % o, 'real')
            else: v = self.fresh(rg.name + '+%d' % o, w * 8)
            r = st.wr(rg.id); r.cells[o] = (w, v)
            return v
        bs = []
        for k in range(w):
            b = None
            for a, n, v in ov:
                if a <= o + k < a + n:
                    if isinstance(v, (Ptr, PtrInt)):
                        raise Unsupported('partial pointer load')
                    if isinstance(v, int): b = (int(v) >> (8 * (o + k - a))) & 255
                    else: b = z3.Extract(8 * (o + k - a) + 7, 8 * (o + k - a), bv(v, n * 8))
            if b is None:
                b = 0 if rg.init == 'zero' else self.fresh(rg.name + '+%d' % (o + k), 8)
            bs.append(b)
        if all(isinstance(b, int) for b in bs): return int.from_bytes(bytes(bs), 'little')
        if len(bs) == 1: return simp(bs[0])
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
    def store(self, st, p, ty, v):
        w = self.m.size(ty)
        if isinstance(p.rid, tuple) and p.rid[0] == 'S': raise Unsupported('write into abstract string')
        rg = self.access(st, p, w, 'store')
        if rg is None: return
        if rg.text is not None: raise Unsupported('write to constant text')
        if ty[0] == 'i' and ty[1] < w * 8:
            if isinstance(v, bool): v = int(v)
            elif z3.is_bool(v): v = simp(bv(v, w * 8))
            elif not isinstance(v, int): v = simp(z3.ZeroExt(w * 8 - ty[1], v))
        if isinstance(v, LinInt): v = v.bv()
        rg = st.wr(p.rid)
        if rg.stride is not None or not p.off.const():
            if rg.size is not None and rg.stride is None:
                self.index_object(st, rg, p.off)
            l = self.locate(st, rg, p.off, w); rg = st.wr(p.rid)
            self.store_arr(st, rg, l[0], l[1], w, v)
            return
        self.store_cell(rg, p.off.c, w, v)
    def store_cell(self, rg, o, w, v):
        c = rg.cells.get(o)
        if c is None or c[0] != w:
            ov = sorted((a, n, x) for a, (n, x) in rg.cells.items() if a < o + w and o < a + n)
            if len(ov) > 1 and not isinstance(v, (Ptr, PtrInt)) and not (isinstance(v, z3.ExprRef) and z3.is_real(v)) \
               and ov[0][0] == o and all(p[0] + p[1] == q[0] for p, q in zip(ov, ov[1:])) and ov[-1][0] + ov[-1][1] == o + w:
                # keep the finer layout already in use
                for a, n, x in ov:
                    lo = 8 * (a - o)
                    rg.cells[a] = (n, (int(v) >> lo) & mask(8 * n) if isinstance(v, int) else simp(z3.Extract(lo + 8 * n - 1, lo, bv(v, w * 8))))
                self.drop_strs(rg, o, w)
                return
            for a, n, x in ov:
                del rg.cells[a]
                # keep the parts of x outside [o, o+w)
                if o <= a and a + n <= o + w: continue
                if isinstance(x, (Ptr, PtrInt)):
                    raise Unsupported('partial overwrite of pointer')
                for p, q in ((a, o), (o + w, a + n)):
                    if p < q and a <= p and q <= a + n:
                        lo = 8 * (p - a); m = 8 * (q - p)
                        rg.cells[p] = (q - p, (int(x) >> lo) & mask(m) if isinstance(x, int) else simp(z3.Extract(lo + m - 1, lo, bv(x, n * 8))))
            self.drop_strs(rg, o, w)
        rg.cells[o] = (w, v)
    def drop_strs(self, rg, o, w):
        if rg.strs:
            for so in [so for so in rg.strs if o <= so < o + w or so <= o]:
                # a byte written into an abstract string ends our knowledge of it
                if so == o or so < o: rg.strs.pop(so)
    def copy_mem(self, st, d, s, n):
        """memcpy of n bytes"""
        if isinstance(n, LinInt): n = n.bv()
        if n == 0 and isinstance(n, int): return
        if isinstance(s.rid, tuple) and s.rid[0] == 'S':
            raise Unsupported('memcpy from abstract string')
        if not isinstance(n, int):
            return self.copy_sym(st, d, s, n)
        sr = self.access(st, s, n, 'memcpy'); dr = self.access(st, d, n, 'memcpy')
        if st.done: return
        if sr is None or dr is None: raise Unsupported('memcpy')
        for o, w, v in self.read_block(st, sr, s, n):
            self.store(st, Ptr(d.rid, d.off.addc(o)), ('raw', w), v)
        if sr.strs and s.off.const() and d.off.const():
            dr = st.wr(d.rid)
            for so, h in sr.strs.items():
                if s.off.c <= so < s.off.c + n: dr.strs[d.off.c + so - s.off.c] = h
    def read_block(self, st, rg, p, n):
        out = []
        if rg.text is not None:
            b = rg.text[p.off.c:p.off.c + n]
            return [(i, 1, b[i]) for i in range(n)]
        if rg.stride is not None or not p.off.const():
            l = self.locate(st, rg, p.off, n); rg = st.mem[rg.id]
            if l[1] + n > rg.stride:
                if l[1] == 0 and n % rg.stride == 0 and n // rg.stride <= 64:
                    for k in range(n // rg.stride):
                        for f, w in self.pieces(rg, 0, rg.stride):
                            out.append((k * rg.stride + f, w, self.arr(st, rg, f, w).read(lin_of(l[0]).addc(k).bv())))
                    return out
                raise Unsupported('memcpy across elements')
            for f, w in self.pieces(rg, l[1], n):
                out.append((f - l[1], w, self.arr(st, rg, f, w).read(l[0])))
            return out
        o = p.off.c
        for a, (w, v) in sorted(rg.cells.items()):
            if a < o + n and o < a + w:
                if a >= o and a + w <= o + n: out.append((a - o, w, v))
                else:
                    for k in range(w):
                        if o <= a + k < o + n:
                            out.append((a + k - o, 1, self.load_cell(st, rg, a + k, 1, ('i', 8))))
        if rg.init != 'undef':
            have = set()
            for a, w, v in out: have.update(range(a, a + w))
            for k in range(n):
                if k not in have: out.append((k, 1, self.load_cell(st, rg, o + k, 1, ('i', 8))))
        return out
    def copy_sym(self, st, d, s, n):
        sr = self.region(st, s.rid); dr = self.region(st, d.rid)
        if sr.stride is None and dr.stride is None: raise Unsupported('memcpy of symbolic size')
        stride = sr.stride or dr.stride
        if sr.stride is None: self.set_stride(st, s.rid, stride, dr.key); sr = st.mem[s.rid]
        if dr.stride is None: self.set_stride(st, d.rid, stride, sr.key); dr = st.mem[d.rid]
        if sr.stride != dr.stride: raise Unsupported('memcpy between different strides')
        ln = lin_of(n)
        if not ln.divisible(stride): raise Unsupported('memcpy of partial elements')
        cnt = ln.div(stride).bv()
        si, f1 = self.locate(st, sr, s.off, 1); di, f2 = self.locate(st, dr, d.off, 1)
        if f1 or f2: raise Unsupported('memcpy inside element')
        self.copy_elems(st, d.rid, di, s.rid, si, cnt)
    def copy_elems(self, st, drid, di, srid, si, cnt):
        sr = st.mem[srid]; dr = st.wr(drid)
        for f, w in self.pieces(sr, 0, sr.stride):
            pass
        for f, w in self.pieces(dr, 0, dr.stride):
            sa = self.arr(st, sr, f, w) if (f, w) in [tuple(x) for x in self.pieces(sr, f, w)] else None
            if sa is None: raise Restart()
            delta = lin_of(si).add(lin_of(di), -1)
            whole = isinstance(di, int) and di == 0 and isinstance(si, int) and si == 0 and not dr.arrs.get((f, w))
            if whole:
                dr.arrs[(f, w)] = sa
            else:
                fn = (lambda i, sa=sa, delta=delta: sa.read(lin_of(i).add(delta).bv()))
                dr.arrs[(f, w)] = ARange(self.arr(st, dr, f, w), di, lin_of(di).add(lin_of(cnt)).bv(), fn, w * 8)
    def fill_mem(self, st, d, byte, n):
        if isinstance(n, LinInt): n = n.bv()
        if isinstance(n, int) and n == 0: return
        rg = self.region(st, d.rid)
        if not isinstance(n, int) or rg.stride is not None:
            raise Unsupported('memset')
        if not isinstance(byte, int): raise Unsupported('memset value')
        rg = st.wr(d.rid)
        o = d.off.c
        if byte == 0 and o == 0 and rg.size is not None and n == rg.size:
            rg.cells = {}; rg.init = 'zero'; rg.strs = {}
            return
        if n > 100000:
            if byte != 0: raise Unsupported('large memset')
            # large zeroed member buffers: contents only ever reached through contracts
            return
        for a in [a for a, (w, _) in rg.cells.items() if o <= a and a + w <= o + n]: del rg.cells[a]
        k = 0
        while k < n:
            if (o + k) % 8 == 0 and k + 8 <= n:
                self.store_cell(rg, o + k, 8, 0x0101010101010101 * byte); k += 8
            else:
                self.store_cell(rg, o + k, 1, byte); k += 1
    # ---- constants / globals ------------------------------------------------------------------------
    def gptr(self, st, name):
        g = self.m.globals.get(name)
        if g is not None and getattr(g, 'isalias', False):
            return self.const(st, g.alias, ('ptr',))
        if name in self.m.funcs: return Ptr(('F', name))
        rid = st.globs.get(name)
        if rid is None:
            if g is None: raise Unsupported('global ' + name)
            rid = self.gcache.get(name)
            if rid is None:
                rid = self.gcache[name] = next(self.nreg)
            size = self.m.size(g.ty)
            r = Region(rid, size, '@' + name, 'zero' if g.init is not None else 'undef'); r.const = g.const; r.owner = st.uid
            st.mem[rid] = r; st.globs[name] = rid
            if g.init is not None:
                if g.init[0] == 'cstr' and g.const:
                    r.text = g.init[1]
                else:
                    self.init_global(st, r, g.ty, g.init, 0)
        return Ptr(rid)
    def init_global(self, st, r, ty, v, o):
        ty = self.m.res(ty)
        if v[0] == 'zero' or v[0] == 'undef': return
        if v[0] == 'cstr':
            for i, b in enumerate(v[1]): r.cells[o + i] = (1, b)
            return
        if v[0] == 'agg':
            if ty[0] == 'arr':
                s = self.m.size(ty[2])
                for i, (t, x) in enumerate(v[2]): self.init_global(st, r, t, x, o + i * s)
            else:
                offs, _ = self.m.stlayout(ty)
                for f, (t, x) in zip(offs, v[2]): self.init_global(st, r, t, x, o + f)
            return
        r.cells[o] = (self.m.size(ty), self.const(st, v, ty))
    def const(self, st, v, ty):
        k = v[0]
        if k == 'k':
            if ty[0] == 'i' and ty[1] == 1 and not isinstance(v[1], bool): return bool(v[1])
            if ty[0] == 'double' and self.fpmode == 'real':
                import struct, fractions
                d = struct.unpack('<d', struct.pack('<Q', v[1]))[0]
                return z3.RealVal(fractions.Fraction(d))
            return v[1]
        if k == 'null': return NULL
        if k == 'g': return self.gptr(st, v[1])
        if k == 'undef':
            t = self.m.res(ty)
            if t[0] == 'st': return [self.const(st, ('undef', x), x) for x in t[1]]
            if t[0] == 'ptr': return Ptr(('?', 'undef'))
            if t[0] == 'i': return 0 if t[1] > 1 else False
            if t[0] == 'double': return self.zero_double()
            return 0
        if k == 'zero':
            t = self.m.res(ty)
            if t[0] == 'st': return [self.const(st, ('zero', x), x) for x in t[1]]
            if t[0] == 'ptr': return NULL
            if t[0] == 'double': return self.zero_double()
            return 0
        if k == 'cgep':
            base = self.const(st, v[2], ('ptr',))
            return self.gep(st, v[1], base, [(t, self.const(st, x, t)) for t, x in v[3]])
        if k == 'ccast':
            x = self.const(st, v[3], v[2])
            if v[1] == 'ptrtoint': return PtrInt(x)
            if v[1] == 'inttoptr': return self.decode(x)
            return x
        if k == 'agg':
            t = self.m.res(ty)
            return [self.const(st, x, tt) for tt, x in v[2]]
        if k == 'cbin':
            a = self.const(st, v[3], v[2]); b = self.const(st, v[4], v[2])
            return self.binop(st, v[1], v[2], a, b, ())
        raise Unsupported('const ' + k)
    def zero_double(self):
        return z3.RealVal(0) if self.fpmode == 'real' else 0
    def val(self, st, v, ty):
        if v[0] == 'r':
            return st.frames[-1].regs[v[1]]
        return self.const(st, v, ty)
    # ---- arithmetic ---------------------------------------------------------------------------------
    def gep(self, st, ety, base, idx):
        off = base.off; ty = ety; first = True
        for t, i in idx:
            if first:
                s = self.m.size(ty); first = False
            else:
                ty = self.m.res(ty)
                if ty[0] == 'st':
                    offs, _ = self.m.stlayout(ty)
                    off = off.addc(offs[i]); ty = ty[1][i]; continue
                ty = ty[2]; s = self.m.size(ty)
            w = t[1]
            if isinstance(i, bool): i = int(i)
            if isinstance(i, int): off = off.addc(sgn(i, w) * s)
            else:
                if isinstance(i, LinInt): l = i.lin
                else:
                    if w < 64: i = self.ext(st, i, w, 64, True)
                    l = lin_of(i)
                off = off.add(l.scale(s))
        return Ptr(base.rid, off)
    def ext(self, st, v, fw, tw, signed):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            return (sgn(v, fw) if signed else v) & mask(tw)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(mask(tw) if signed else 1, tw), z3.BitVecVal(0, tw))
        e = simp(z3.SignExt(tw - fw, v) if signed else z3.ZeroExt(tw - fw, v))
        if isinstance(e, int) or fw != 32 or tw != 64: return e
        # sext(trunc(T)+c) == T+c when the solver agrees
        L = self.lin32(v)
        if L is None: return e
        k = ('ext', v.get_id(), signed)
        r = st.facts.get(k)
        if r is None:
            cand = L.bv()
            ok = self.valid(st, bv(cand, 64) == e, 2000) == 'yes'
            r = (v, cand if ok else None); 
            if ok: st.facts[k] = r
        return r[1] if r[1] is not None else e
    def lin32(self, v):
        """a 64-bit linear form whose low half is the 32-bit term v"""
        k = v.decl().kind()
        if z3.is_bv_value(v): return Lin(sgn(v.as_long(), 32))
        if k == z3.Z3_OP_EXTRACT and v.params() == [31, 0] and v.arg(0).size() == 64: return lin_of(v.arg(0))
        if k == z3.Z3_OP_BADD:
            r = Lin(0)
            for ch in v.children():
                x = self.lin32(ch)
                if x is None: return None
                r = r.add(x)
            return r
        if k == z3.Z3_OP_BMUL and v.num_args() == 2:
            for a, b in ((v.arg(0), v.arg(1)), (v.arg(1), v.arg(0))):
                if z3.is_bv_value(a):
                    x = self.lin32(b)
                    return None if x is None else x.scale(sgn(a.as_long(), 32))
        if k == z3.Z3_OP_CONCAT and v.num_args() == 2 and z3.is_bv_value(v.arg(1)) and v.arg(1).as_long() == 0:
            n = v.arg(1).size(); a = v.arg(0)
            if a.decl().kind() == z3.Z3_OP_EXTRACT and a.params() == [31 - n, 0] and a.arg(0).size() in (32, 64):
                x = lin_of(a.arg(0)) if a.arg(0).size() == 64 else self.lin32(a.arg(0))
                return None if x is None else x.scale(1 << n)
        return None
    def binop(self, st, op, ty, a, b, fl):
        if ty[0] == 'double' or ty[0] == 'float': 
            import fp
            return fp.arith(self, st, op, ty, a, b)
        w = ty[1]
        if w == 1:
            return self.boolop(op, a, b)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrarith(st, op, a, b)
        if isinstance(a, LinInt):
            if isinstance(b, int):
                s = sgn(b, 64)
                if op in ('sdiv', 'udiv') and s > 0 and a.lin.divisible(s): return LinInt(a.lin.div(s))
                if op in ('ashr', 'lshr') and 0 < b < 62 and a.lin.divisible(1 << b): return LinInt(a.lin.div(1 << b))
                if op == 'add': return LinInt(a.lin.addc(s))
                if op == 'sub': return LinInt(a.lin.addc(-s))
                if op == 'mul': return LinInt(a.lin.scale(s))
            a = a.bv()
        if isinstance(b, LinInt): b = b.bv()
        M = mask(w)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> b) & M if b < w else 0
            if b == 0:
                self.obligation(st, False, 'no division by zero', 'safety'); st.done = 'stopped'; return 0
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            if op == 'sdiv': return q & M
            if op == 'srem': return (x - q * y) & M
        if op in ('sdiv', 'udiv', 'srem', 'urem') and not isinstance(b, int):
            self.obligation(st, simp(b != 0), 'no division by zero', 'safety')
        if op in ('and', 'or') and (isinstance(a, int) or isinstance(b, int)):
            pass
        A, B = bv(a, w), bv(b, w)
        r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B,
             'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B,
             'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        return simp(r)
    def boolop(self, op, a, b):
        if isinstance(a, int) and not isinstance(a, bool): a = bool(a)
        if isinstance(b, int) and not isinstance(b, bool): b = bool(b)
        if op == 'and': return simp(z3.And(zb(a), zb(b)))
        if op == 'or': return simp(z3.Or(zb(a), zb(b)))
        if op in ('xor', 'add', 'sub'): return simp(z3.Xor(zb(a), zb(b)))
        if op == 'mul': return simp(z3.And(zb(a), zb(b)))
        raise Unsupported('i1 ' + op)
    def ptrarith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if a.p.rid == b.p.rid and not isinstance(a.p.rid, tuple) or (isinstance(a.p.rid, tuple) and self.samerid(a.p.rid, b.p.rid)):
                d = a.p.off.add(b.p.off, -1)
                return (d.c & mask(64)) if d.const() else LinInt(d)
            raise Unsupported('difference of pointers into different objects')
        if isinstance(a, PtrInt) and isinstance(b, int) and op in ('add', 'sub'):
            return PtrInt(Ptr(a.p.rid, a.p.off.addc(b if op == 'add' else -b)))
        if isinstance(a, PtrInt) and isinstance(b, int) and op == 'and':
            if b == 1 and isinstance(a.p.rid, tuple) and a.p.rid[0] == 'F': return 0     # member pointer to non-virtual function
        if isinstance(a, PtrInt) and isinstance(b, int) and op in ('or', 'xor') and b == 0: return a
        raise Unsupported('pointer arithmetic ' + op)
    def samerid(self, a, b):
        if a == b and not isinstance(a, tuple): return True
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
            x, y = a[1], b[1]
            if isinstance(x, int) or isinstance(y, int) or isinstance(x, str): return isinstance(x, type(y)) and isinstance(y, type(x)) and x == y
            return x.eq(y)
        return False
    def icmp(self, st, pred, ty, a, b):
        t = self.m.res(ty)
        if t[0] == 'ptr' or isinstance(a, (Ptr, PtrInt)) or isinstance(b, (Ptr, PtrInt)):
            return self.pcmp(st, pred, a, b)
        w = t[1]
        if w == 1:
            x = simp(zb(bool(a)) == zb(bool(b))) if isinstance(a, int) and isinstance(b, int) else simp(zb(bool(a) if isinstance(a, int) else a) == zb(bool(b) if isinstance(b, int) else b))
            if pred == 'eq': return x
            if pred == 'ne': return simp(bnot(x))
            raise Unsupported('i1 icmp ' + pred)
        if isinstance(a, LinInt) or isinstance(b, LinInt):
            la, lb = lin_of(a), lin_of(b)
            d = la.add(lb, -1)
            if d.const() and pred in ('eq', 'ne'): return (d.c == 0) == (pred == 'eq')
            a = la.bv() ; b = lb.bv()
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, w), sgn(b, w)) if pred[0] == 's' else (a, b)
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]]
        A, B = bv(a, w), bv(b, w)
        if st.cmps is not None: st.cmps.append((A, B, w))
        if st.frames and False: pass
        f = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B),
             'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]
        r = f()
        if pred in ('eq', 'ne') and w == 64:
            d = lin_of(a).add(lin_of(b), -1)
            if d.const(): return (d.c == 0) == (pred == 'eq')
        return simp(r)
    def pcmp(self, st, pred, a, b):
        if isinstance(a, (PtrInt, int)) or not isinstance(a, Ptr): a = self.decode(a)
        if isinstance(b, (PtrInt, int)) or not isinstance(b, Ptr): b = self.decode(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x.rid, tuple) and x.rid[0] == '?':
                if y.rid == 0 and pred in ('eq', 'ne'):
                    return self.fresh('unknownptr_null', 'bool')
                raise Unsupported('comparison of unknown pointer')
        same = self.samerid(a.rid, b.rid) if isinstance(a.rid, tuple) or isinstance(b.rid, tuple) else a.rid == b.rid
        if same:
            d = a.off.add(b.off, -1)
            if d.const():
                c = d.c
                return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[pred if pred in ('eq', 'ne') else pred[1:]]
            g = d.gcd()
            if d.c % g and pred in ('eq', 'ne'): return pred == 'ne'
            if pred in ('eq', 'ne'):
                e = d.div(g); z = bv(e.bv(), 64) == 0
                # prefer idx == bound form for invariants
                if st.cmps is not None:
                    xa = a.off.addc(-b.off.c if b.off.const() else 0)
                    la, lb = a.off, b.off
                    if la.divisible(g) and lb.divisible(g): st.cmps.append((bv(la.div(g).bv(), 64), bv(lb.div(g).bv(), 64), 64))
                return simp(z if pred == 'eq' else z3.Not(z))
            la, lb = a.off, b.off
            if la.divisible(g) and lb.divisible(g): la, lb = la.div(g), lb.div(g)
            A, B = bv(la.bv(), 64), bv(lb.bv(), 64)
            if st.cmps is not None: st.cmps.append((A, B, 64))
            p = pred[1:]
            return simp({'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B}[p])
        if pred in ('eq', 'ne'):
            r = False
            def h(p): return p.rid[1] if isinstance(p.rid, tuple) and p.rid[0] == 'S' else (0 if p.rid == 0 else None)
            ha, hb = h(a), h(b)
            if (a.rid == 0 or b.rid == 0) and ha is not None and hb is not None:
                x = hb if a.rid == 0 else ha
                r = simp(bv(x, 64) == 0) if not isinstance(x, int) else x == 0
            elif ha is not None and hb is not None:
                raise Unsupported('identity of string pointers')
            return simp(bnot(r)) if pred == 'ne' else r
        raise Unsupported('ordering of pointers into different objects')
    def cast(self, st, op, fty, tty, v):
        ft = self.m.res(fty); tt = self.m.res(tty)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return v
        if op == 'ptrtoint': return PtrInt(v)
        if op == 'inttoptr': return self.decode(v)
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            import fp
            return fp.cast(self, st, op, ft, tt, v)
        if isinstance(v, LinInt): v = v.bv()
        if isinstance(v, PtrInt):
            if op == 'trunc': raise Unsupported('trunc of pointer')
            return v
        if op == 'trunc':
            w = tt[1]
            if isinstance(v, bool): v = int(v)
            if w == 1:
                if isinstance(v, int): return bool(v & 1)
                if z3.is_bool(v): return v
                return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, int): return v & mask(w)
            return simp(z3.Extract(w - 1, 0, v))
        if op in ('zext', 'sext'):
            return self.ext(st, v, ft[1], tt[1], op == 'sext')
        raise Unsupported('cast ' + op)
