"""Instruction semantics, calls, exceptions, loops cut by invariants."""
import z3, itertools, re, time
from values import *
from engine import *
from engine import _uid
import llparse

_ctxid = itertools.count(1)

def free_names(e, cache={}):
    """names of uninterpreted symbols in a term"""
    if not isinstance(e, z3.ExprRef): return frozenset()
    i = e.get_id()
    r = cache.get(i)
    if r is not None and r[0].eq(e): return r[1]
    s = set(); seen = set(); w = [e]
    while w:
        x = w.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: s.add(x.decl().name())
            w.extend(x.children())
    r = frozenset(s); cache[i] = (e, r)
    return r

class Exec(Engine):
    # ---------------------------------------------------------------- running
    def run_function(self, name, st=None):
        st = st or State()
        self.push(st, self.m.func(name), [])
        done = []
        self.run([st], None, None, None, done)
        return done
    def push(self, st, fn, args, marker=None):
        if len(st.frames) > 200: raise Unsupported('recursion too deep in ' + self.dm(fn.name))
        fr = Frame(fn)
        for (ty, nm), a in zip(fn.params, args): fr.regs[nm] = a
        fr.ret = marker
        st.frames.append(fr)
        self.functions.add(fn.name)
    def run(self, work, ctx, back, exits, done):
        work = list(work)
        n = 0
        while work:
            st = work.pop()
            n += 1
            if st.done:
                if done is not None: done.append(st)
                self.stats['paths'] += 1
                continue
            ev = st.ghost.get('ev')
            if ev is not None:
                if ctx is None or ev[1] != ctx.uid: raise Unsupported('loop event mismatch')
                st.ghost['ev'] = None
                if ev[0] == 'back':
                    back.append(st)
                else:
                    st.ghost['pending'] = ev[2]
                    exits.append(st)
                if len(exits or ()) > 3000 or len(back or ()) > 3000: raise Unsupported('too many paths')
                continue
            work.extend(self.advance(st))
            if len(work) > 3000: raise Unsupported('too many paths')
            if (n & 15) == 0: self.tick()
    def advance(self, st):
        """execute until a fork or an event; returns successor states"""
        k = 0
        while True:
            if st.done or st.ghost.get('ev') is not None: return [st]
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.ip]
            r = self.step(st, fr, ins)
            if r is not None: return r
            k += 1
            if k > 200000: raise Unsupported('no progress')
            if (k & 255) == 0: self.tick()
    # ---------------------------------------------------------------- control flow
    def top_ctx(self, st):
        """innermost loop context belonging to the current frame"""
        if st.loops and st.loops[-1].depth == len(st.frames): return st.loops[-1]
        return None
    def leave(self, st, pending):
        ctx = st.loops.pop()
        if ctx.mode == 'unroll':
            ctx.ends.add(ctx.count)
            if len(ctx.ends) > 3 + st.unroll: raise NeedInvariant(ctx.uid)
        st.ghost['ev'] = ('exit', ctx.uid, pending)
        return [st]
    def resume(self, st):
        p = st.ghost.get('pending'); st.ghost['pending'] = None
        if p is None: return [st]
        if p[0] == 'goto': return self.goto(st, p[1])
        if p[0] == 'ret': return self.do_ret(st, p[1])
        if p[0] == 'unwind': return self.unwind(st)
        raise Unsupported('pending')
    def goto(self, st, blk):
        fr = st.frames[-1]
        ctx = self.top_ctx(st)
        if ctx is not None:
            if blk not in ctx.body: return self.leave(st, ('goto', blk))
            if blk == ctx.header:
                if ctx.mode == 'inv':
                    self.enter_block(st, blk)
                    st.ghost['ev'] = ('back', ctx.uid); return [st]
                ctx.count += 1
                if ctx.count > st.maxunroll: raise NeedInvariant(ctx.uid)
                self.enter_block(st, blk)
                return [st]
        if blk in fr.fn.loops:
            self.enter_block(st, blk)
            return self.handle_loop(st, blk)
        self.enter_block(st, blk)
        return [st]
    def enter_block(self, st, blk):
        fr = st.frames[-1]
        src = fr.block
        code = fr.fn.blocks[blk]
        new = {}; n = 0
        for ins in code:
            if ins.op != 'phi': break
            n += 1
            for v, l in ins.a:
                if l == src:
                    new[ins.res] = self.val(st, v, self.m.res(ins.ty)); break
            else:
                raise Unsupported('phi without predecessor')
        fr.regs.update(new)
        fr.prev = src; fr.block = blk; fr.ip = n
    def do_ret(self, st, v):
        if self.top_ctx(st) is not None: return self.leave(st, ('ret', v))
        fr = st.frames.pop()
        if fr.ret is not None:      # marker frame
            st.done = fr.ret; st.retval = v
            return [st]
        if not st.frames:
            st.done = 'finished'; st.retval = v
            return [st]
        return self.after_call(st, v)
    def after_call(self, st, v):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.ip]
        if ins.res is not None: fr.regs[ins.res] = v
        if ins.op == 'invoke':
            return self.goto(st, ins.x[0])
        fr.ip += 1
        return [st]
    # ---------------------------------------------------------------- exceptions
    def tbase(self, ti):
        """typeinfo names a type is derived from (with itself)"""
        out = [ti]; w = [ti]
        while w:
            x = w.pop()
            g = self.m.globals.get(x)
            if g is None or g.init is None or g.init[0] != 'agg': continue
            for t, v in g.init[2]:
                if v[0] == 'g' and v[1].startswith('_ZTI') and v[1] not in out:
                    out.append(v[1]); w.append(v[1])
        return out
    def unwind(self, st):
        exc = st.exc
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.ip]
            if ins.op == 'invoke':
                lp = fr.fn.blocks[ins.x[1]]
                lpi = next(i for i in lp if i.op != 'phi')
                sel = None
                if lpi.op == 'landingpad':
                    bases = self.tbase(exc[1])
                    for kind, v in lpi.a:
                        if kind == 'catch':
                            if v[0] == 'null': sel = self.typeid(None); break
                            if v[1] in bases: sel = self.typeid(v[1]); break
                        else:
                            sel = 0
                    if sel is None and lpi.x: sel = 0
                if sel is not None:
                    st.ghost['lp'] = (exc[0], sel)
                    return self.goto(st, ins.x[1])
            if self.top_ctx(st) is not None: return self.leave(st, ('unwind',))
            fr = st.frames.pop()
            if fr.ret is not None:
                st.done = 'threw'; return [st]
        st.done = 'uncaught'
        self.obligation(st, False, 'no exception escapes', 'safety')
        st.done = 'uncaught'
        return [st]
    def typeid(self, name):
        if not hasattr(self, '_tid'): self._tid = {None: 1}
        return self._tid.setdefault(name, len(self._tid) + 1)
    # ---------------------------------------------------------------- instructions
    def step(self, st, fr, ins):
        op = ins.op; regs = fr.regs
        if op == 'load':
            p = self.val(st, ins.a, ('ptr',))
            v = self.load(st, p, self.m.res(ins.ty))
            if st.done: return [st]
            if isinstance(v, OptPtr): return self.split_opt(st, ins, p, v)
            regs[ins.res] = v
        elif op == 'store':
            v = self.val(st, ins.a[0], self.m.res(ins.ty)); p = self.val(st, ins.a[1], ('ptr',))
            self.store(st, p, self.m.res(ins.ty), v)
            if st.done: return [st]
        elif op == 'getelementptr':
            b = self.val(st, ins.a, ('ptr',))
            regs[ins.res] = self.gep(st, ins.ty, b, [(t, self.val(st, v, t)) for t, v in ins.x])
        elif op == 'br':
            if len(ins.a) == 1: return self.goto(st, ins.a[0])
            c = self.val(st, ins.a[0], ('i', 1))
            return self.branch(st, c, ins.a[1], ins.a[2])
        elif op in ('call', 'invoke'):
            return self.call(st, fr, ins)
        elif op == 'icmp':
            regs[ins.res] = self.icmp(st, ins.x, ins.ty, self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty))
        elif op == 'alloca':
            if ins.a is not None: raise Unsupported('dynamic alloca')
            r = self.new_region(st, self.m.size(ins.ty), 'L' + str(ins.res)); regs[ins.res] = Ptr(r.id)
        elif op in llparse.BIN:
            v = self.binop(st, op, self.m.res(ins.ty), self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty), ins.x)
            if st.done: return [st]
            regs[ins.res] = v
        elif op in llparse.CAST or op == 'freeze':
            if op == 'freeze': regs[ins.res] = self.val(st, ins.a, ins.ty)
            else: regs[ins.res] = self.cast(st, op, ins.x, ins.ty, self.val(st, ins.a[0], ins.x))
        elif op == 'ret':
            return self.do_ret(st, self.val(st, ins.a, ins.ty) if ins.a is not None else None)
        elif op == 'select':
            c = self.val(st, ins.a[0], ('i', 1)); a = self.val(st, ins.a[1], ins.ty); b = self.val(st, ins.a[2], ins.ty)
            if isinstance(c, (bool, int)): regs[ins.res] = a if c else b
            else:
                t = self.m.res(ins.ty)
                if t[0] == 'i' and not isinstance(a, (PtrInt,)) and not isinstance(b, PtrInt):
                    if t[1] == 1: regs[ins.res] = simp(z3.If(c, zb(bool(a) if isinstance(a, int) else a), zb(bool(b) if isinstance(b, int) else b)))
                    else: regs[ins.res] = simp(z3.If(c, bv(a, t[1]), bv(b, t[1])))
                else:
                    out = []
                    for cc, v in ((c, a), (bnot(c), b)):
                        if self.feasible(st, cc):
                            s = st.copy(); self.assume(s, cc); f = s.frames[-1]; f.regs[ins.res] = v; f.ip += 1; out.append(s)
                    return out
        elif op == 'switch':
            return self.switch(st, fr, ins)
        elif op == 'fcmp':
            import fp
            regs[ins.res] = fp.fcmp(self, st, ins.x, self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty))
        elif op == 'fneg':
            import fp
            regs[ins.res] = fp.neg(self, st, self.val(st, ins.a[0], ins.ty))
        elif op == 'extractvalue':
            v = self.val(st, ins.a, ins.ty)
            for i in ins.x: v = v[i]
            regs[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.a[0], ins.ty); e = self.val(st, ins.a[1], ins.a[2])
            def put(v, ix):
                v = list(v)
                v[ix[0]] = e if len(ix) == 1 else put(v[ix[0]], ix[1:])
                return v
            regs[ins.res] = put(v, ins.x)
        elif op == 'landingpad':
            p, s = st.ghost['lp']; regs[ins.res] = [p, s]
        elif op == 'resume':
            # continue unwinding out of this frame
            if self.top_ctx(st) is not None: return self.leave(st, ('unwind',)) if False else self.resume_unwind(st)
            return self.resume_unwind(st)
        elif op == 'unreachable':
            st.done = 'unreachable'; return [st]
        elif op == 'nop':
            pass
        else:
            raise Unsupported('instruction %s' % (ins.x if op == 'unsupported' else op))
        fr = st.frames[-1]
        fr.ip += 1
        return None
    def split_opt(self, st, ins, p, v):
        out = []
        for c, x in ((v.null, NULL), (bnot(v.null), v.p)):
            if not self.feasible(st, c): continue
            s = st.copy(); self.assume(s, c); f = s.frames[-1]; f.regs[ins.res] = self.typed(s, x, self.m.res(ins.ty)) if x.rid != 0 or ins.ty[0] == 'ptr' else 0; f.ip += 1
            self.store(s, p, ('ptr',), x)
            out.append(s)
        return out
    def resume_unwind(self, st):
        if self.top_ctx(st) is not None: return self.leave(st, ('unwind',))
        fr = st.frames.pop()
        if fr.ret is not None:
            st.done = 'threw'; return [st]
        return self.unwind(st)
    def branch(self, st, c, a, b):
        if isinstance(c, (bool, int)): return self.goto(st, a if c else b)
        fa = self.feasible(st, c); fb = self.feasible(st, bnot(c)) if fa else True
        if not fb:
            self.assume(st, c); return self.goto(st, a)
        if not fa:
            self.assume(st, bnot(c)); return self.goto(st, b)
        ctx = self.top_ctx(st)
        if ctx is not None and ctx.mode == 'unroll' and ((a in ctx.body) != (b in ctx.body)):
            ctx.symexits += 1
            if ctx.symexits >= st.unroll: raise NeedInvariant(ctx.uid)
        s = st.copy()
        self.assume(s, bnot(c)); self.assume(st, c)
        return self.goto(s, b) + self.goto(st, a)
    def switch(self, st, fr, ins):
        v = self.val(st, ins.a[0], ins.ty); w = ins.ty[1]
        if isinstance(v, LinInt): v = v.bv()
        if isinstance(v, int):
            for c, l in ins.x:
                if c[1] == v: return self.goto(st, l)
            return self.goto(st, ins.a[1])
        out = []; rest = []
        for c, l in ins.x:
            e = v == z3.BitVecVal(c[1], w)
            if self.feasible(st, e):
                s = st.copy(); self.assume(s, e); out += self.goto(s, l)
            rest.append(v != z3.BitVecVal(c[1], w))
        r = z3.And(*rest) if rest else True
        if r is True or self.feasible(st, r):
            self.assume(st, r); out += self.goto(st, ins.a[1])
        return out
    # ---------------------------------------------------------------- calls
    def call(self, st, fr, ins):
        cv, args = ins.a
        if cv[0] == 'g': name = cv[1]
        else:
            p = self.val(st, cv, ('ptr',))
            if not (isinstance(p, Ptr) and isinstance(p.rid, tuple) and p.rid[0] == 'F'): raise Unsupported('indirect call')
            name = p.rid[1]
        g = self.m.globals.get(name)
        if g is not None and getattr(g, 'isalias', False): name = g.alias[1]
        av = [self.val(st, v, self.m.res(t)) if t[0] != 'metadata' else None for t, v in args]
        rep = self.replacement(st, name)
        if rep:
            name = rep
        else:
            h = self.intr.get(name)
            if h is None:
                for pre, hh in self.prefix:
                    if name.startswith(pre): h = hh; break
            if h is not None:
                r = h(self, st, av, ins)
                if st.done: return [st]
                if isinstance(r, Control): return r.states
                return self.after_call(st, r) if ins.op == 'invoke' else self.setres(st, fr, ins, r)
        fn = self.m.funcs.get(name)
        if fn is None or not fn.defined: raise Unsupported('external function ' + self.dm(name))
        if self.pure(name):
            r = self.merged(st, name, av)
            if r is not None:
                if st.done: return [st]
                return self.after_call(st, r[0]) if ins.op == 'invoke' else self.setres(st, fr, ins, r[0])
        self.push(st, self.m.func(name), av)
        return None
    PUREX = {'strcmp', 'strlen', 'vf_s_eq', 'vf_s_cmp', 'vf_s_len', 'vf_s_at', 'vf_s_of', 'vf_s_ptr', 'abs', 'labs', 'llabs', 'round', 'fabs', 'strncmp'}
    def pure(self, name):
        """loop-free function with an integer result that writes nothing but its own locals"""
        p = self.purity.get(name)
        if p is None:
            self.purity[name] = False       # recursion
            p = self.purity[name] = self.pure0(name)
        return p
    def pure0(self, name, top=True):
        f = self.m.funcs.get(name)
        if f is None or not f.defined: return False
        if any(rx.search(self.dm(name)) for rx, to in self.contracts): return False
        fn = self.m.func(name)
        if top and fn.ret[0] != 'i': return False
        if fn.loops: return False
        own = set(); k = 0
        for b in fn.blocks.values():
            for ins in b:
                if ins.op == 'alloca': own.add(ins.res)
        for b in fn.blocks.values():
            for ins in b:
                k += 1
                if ins.op == 'getelementptr' and ins.a[0] == 'r' and ins.a[1] in own: own.add(ins.res)
        for b in fn.blocks.values():
            for ins in b:
                if ins.op == 'store':
                    p = ins.a[1]
                    if not (p[0] == 'r' and p[1] in own): return False
                elif ins.op in ('call', 'invoke'):
                    cv = ins.a[0]
                    if cv[0] != 'g': return False
                    n = cv[1]
                    if n in self.PUREX or n.startswith(('llvm.dbg', 'llvm.abs', 'llvm.lifetime', 'llvm.smin', 'llvm.smax', 'llvm.umin', 'llvm.umax', 'llvm.expect', 'llvm.trap')) or n in ('_ZSt9terminatev', '__clang_call_terminate'): continue
                    if n in self.intr or any(n.startswith(pre) for pre, h in self.prefix): return False
                    q = self.purity2.get(n)
                    if q is None:
                        self.purity2[n] = False
                        q = self.purity2[n] = self.pure0(n, False)
                    if not q: return False
                elif ins.op in ('resume',): pass
                elif ins.op == 'unsupported': return False
        return k < 400
    def merged(self, st, name, av):
        s = st.copy(); n0 = len(s.pc)
        s.loops = []; s.ghost = dict(s.ghost); s.ghost['ev'] = None; s.ghost['pending'] = None; s.ghost['axs'] = []
        base = s.frames; s.frames = list(base)
        self.push(s, self.m.func(name), av, marker='mrg')
        nr = {k for k in s.mem}
        done = []
        self.run([s], None, None, None, done)
        alts = []; stopped = False
        for d in done:
            if d.done == 'mrg': alts.append(d)
            elif d.done in ('stopped', 'unreachable', 'assumed away'): stopped = True
            else: raise Unsupported('pure function left by ' + d.done)
        if not alts:
            st.done = 'stopped'; return (0,)
        w = self.m.func(name).ret[1]
        outs = []
        for d in alts:
            axs = d.ghost.get('axs') or []
            ids = set(a.get_id() for a in axs)
            for a in axs:
                if not any(a.eq(x) for x in st.pc[-80:]): self.axiom(st, a)
            st.facts.update(d.facts)
            for gname, rid in d.globs.items():
                if gname not in st.globs: st.globs[gname] = rid; st.mem[rid] = d.mem[rid]
            st.tainted = d.tainted if len(d.tainted) > len(st.tainted) else st.tainted
            conds = [c for c in d.pc[n0:] if c.get_id() not in ids]
            v = d.retval
            if isinstance(v, LinInt) and len(alts) > 1: v = v.bv()
            outs.append((z3.And(*conds) if conds else z3.BoolVal(True), v))
        if len(outs) == 1:
            for c in alts[0].pc[n0:]:
                if not any(c.eq(x) for x in st.pc[-80:]): self.assume(st, c)
            return (outs[0][1],)
        if any(isinstance(v, (Ptr, PtrInt)) for c, v in outs): return None
        if stopped: self.assume(st, z3.Or(*[c for c, v in outs]))
        if w == 1:
            tb = lambda v: zb(bool(v) if isinstance(v, int) else v)
            r = tb(outs[-1][1])
            for c, v in outs[-2::-1]: r = z3.If(c, tb(v), r)
        else:
            r = bv(outs[-1][1], w)
            for c, v in outs[-2::-1]: r = z3.If(c, bv(v, w), r)
        return (simp(r),)
    def setres(self, st, fr, ins, r):
        fr = st.frames[-1]
        if ins.res is not None: fr.regs[ins.res] = r
        fr.ip += 1
        return None
    def replacement(self, st, name):
        for rx, to in self.contracts:
            if rx.search(self.dm(name)) and not any(f.fn.name == to for f in st.frames):
                self.usedcontracts.add((self.dm(name), self.dm(to)))
                return to
        return None
    usedcontracts = set()
    def eval_closure(self, st, fnptr, args, w):
        """value of a side-effect free function on the current state: (term). Adds axioms found to st."""
        if isinstance(fnptr, Ptr): name = fnptr.rid[1]
        else: name = fnptr
        s = st.copy()
        n0 = len(s.pc); s.loops = []; s.ghost = dict(s.ghost); s.ghost['ev'] = None; s.ghost['axs'] = []
        s.cmps = None
        s.frames = []      # the closure sees memory, not registers
        self.push(s, self.m.func(name), args, marker='lam')
        done = []
        self.quiet += 1
        try:
            self.run([s], None, None, None, done)
        finally:
            self.quiet -= 1
        res = None; alts = []
        for d in done:
            axs = d.ghost.get('axs') or []
            ids = set(a.get_id() for a in axs)
            for a in axs:
                if not any(a.eq(x) for x in st.pc[-60:]):
                    st.ghost.setdefault('axs', None)
                    self.axiom(st, a)
            if d.done == 'lam':
                conds = [c for c in d.pc[n0:] if c.get_id() not in ids]
                v = d.retval
                if isinstance(v, LinInt): v = v.bv()
                alts.append((z3.And(*conds) if conds else z3.BoolVal(True), v))
            elif d.done in ('stopped', 'threw', 'uncaught', 'unreachable'):
                raise Unsupported('contract expression is not total (%s)' % d.done)
        st.facts.update({})
        if not alts: raise Unsupported('contract expression has no value')
        if w == 1:
            if len(alts) == 1: 
                v = alts[0][1]; return simp(zb(bool(v) if isinstance(v, int) else v))
            return simp(z3.And(*[z3.Implies(c, zb(bool(v) if isinstance(v, int) else v)) for c, v in alts]))
        r = bv(alts[-1][1], w)
        for c, v in alts[:-1]: r = z3.If(c, bv(v, w), r)
        return simp(r)
    def axiom(self, st, c):
        if c is True: return
        ax = st.ghost.get('axs')
        if ax is not None:
            st.ghost['axs'] = ax + [zb(c)]
        self.assume(st, c)
    # ---------------------------------------------------------------- loops
    def handle_loop(self, E, blk):
        fr = E.frames[-1]
        depth = len(E.frames)
        body = fr.fn.loops[blk]
        key = (tuple((f.fn.name, f.block, f.ip) for f in E.frames[:-1]), fr.fn.name, blk)
        if not hasattr(self, 'invloops'): self.invloops = set()
        if key not in self.invloops:
            ctx = LoopCtx(depth, blk, body, 'unroll'); ctx.uid = next(_ctxid)
            snap = {k: (o.checks, o.discharged, len(o.failed), o.unknown, dict(o.backends)) for k, o in self.obls.items()}
            s = E.copy(); s.loops.append(ctx)
            exits = []; done = []
            try:
                self.run([s], ctx, [], exits, done)
                return self.finish(exits, done)
            except NeedInvariant as e:
                if e.ctx != ctx.uid: raise
                for k in list(self.obls):
                    o = self.obls[k]
                    if k not in snap: del self.obls[k]
                    else:
                        o.checks, o.discharged, nf, o.unknown, o.backends = snap[k]; del o.failed[nf:]
            self.invloops.add(key)
        import loops
        return loops.cut(self, E, blk, depth, body)
    def finish(self, exits, done):
        out = list(done)
        for s in exits: out += self.resume(s)
        return out

class Control:
    def __init__(self, states): self.states = states
