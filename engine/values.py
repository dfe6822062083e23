"""Value domain of the symbolic executor: machine integers, pointers, linear offsets, layered arrays."""
import z3

class Unsupported(Exception):
    pass

def mask(w): return (1 << w) - 1

def is_c(v): return isinstance(v, int) and not isinstance(v, bool)

_bvcache = {}
def bv(v, w):
    """z3 bit vector of a python/z3/linear value"""
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int):
        k = (v & mask(w), w)
        r = _bvcache.get(k)
        if r is None:
            r = _bvcache[k] = z3.BitVecVal(k[0], w)
        return r
    if isinstance(v, LinInt): v = v.bv(); return bv(v, w)
    if isinstance(v, (Ptr, PtrInt)):
        raise Unsupported('pointer used as integer')
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_bv(v):
        if v.size() != w: raise Unsupported('width mismatch %d %d' % (v.size(), w))
        return v
    raise Unsupported('not a bit vector: %r' % (v,))

def simp(e):
    """simplify a z3 term; constants become python values"""
    if isinstance(e, int): return e
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e

def zb(b):
    if isinstance(b, bool): return z3.BoolVal(b)
    return b

def bnot(b):
    if isinstance(b, bool): return not b
    return z3.Not(b)

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

class Lin:
    """c + sum coef*term over 64-bit terms (coef, c: python ints, mod 2^64 read as signed)"""
    __slots__ = ('c', 't')
    def __init__(self, c=0, t=None):
        self.c = c; self.t = t or {}
    def add(self, o, k=1):
        t = dict(self.t)
        for i, (co, te) in o.t.items():
            if i in t:
                n = t[i][0] + co * k
                if n == 0: del t[i]
                else: t[i] = (n, te)
            else:
                t[i] = (co * k, te)
        return Lin(norm64(self.c + o.c * k), t)
    def addc(self, c):
        return Lin(norm64(self.c + c), self.t) if c else self
    def scale(self, k):
        if k == 0: return Lin(0)
        return Lin(norm64(self.c * k), {i: (norm64(c * k), t) for i, (c, t) in self.t.items()})
    def const(self): return not self.t
    def gcd(self):
        from math import gcd
        g = 0
        for c, t in self.t.values(): g = gcd(g, abs(c))
        return g
    def div(self, k):
        return Lin(self.c // k, {i: (c // k, t) for i, (c, t) in self.t.items()})
    def divisible(self, k):
        return self.c % k == 0 and all(c % k == 0 for c, t in self.t.values())
    def bv(self):
        if not self.t: return self.c & mask(64)
        s = None
        for c, t in self.t.values():
            x = t if c == 1 else z3.BitVecVal(c, 64) * t
            s = x if s is None else s + x
        if self.c: s = s + z3.BitVecVal(self.c, 64)
        return simp(s)
    def same(self, o):
        d = self.add(o, -1)
        return d.const() and d.c == 0
    def key(self):
        return (self.c, tuple(sorted((i, c) for i, (c, t) in self.t.items())))
    def __repr__(self):
        return 'Lin(%s)' % (self.bv(),)

def norm64(c):
    c &= mask(64)
    return c - (1 << 64) if c >> 63 else c

def lin_of(v):
    """linear form of a 64-bit value"""
    if isinstance(v, LinInt): return v.lin
    if isinstance(v, int): return Lin(norm64(int(v)))
    if z3.is_bv_value(v): return Lin(norm64(v.as_long()))
    k = v.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = Lin(0)
        for ch in v.children(): r = r.add(lin_of(ch))
        return r
    if k == z3.Z3_OP_BSUB and v.num_args() == 2:
        return lin_of(v.arg(0)).add(lin_of(v.arg(1)), -1)
    if k == z3.Z3_OP_BNEG:
        return lin_of(v.arg(0)).scale(-1)
    if k == z3.Z3_OP_BMUL and v.num_args() == 2:
        a, b = v.arg(0), v.arg(1)
        if z3.is_bv_value(a): return lin_of(b).scale(norm64(a.as_long()))
        if z3.is_bv_value(b): return lin_of(a).scale(norm64(b.as_long()))
    if k == z3.Z3_OP_CONCAT and v.num_args() == 2 and z3.is_bv_value(v.arg(1)) and v.arg(1).as_long() == 0:
        # x << n written as concat(extract(63-n,0,x), 0)
        n = v.arg(1).size(); a = v.arg(0)
        if a.decl().kind() == z3.Z3_OP_EXTRACT and a.params() == [63 - n, 0] and a.arg(0).size() == 64:
            return lin_of(a.arg(0)).scale(1 << n)
    return Lin(0, {v.get_id(): (1, v)})

class LinInt:
    """a 64-bit integer that is a difference of two pointers; keeps its exact linear form"""
    __slots__ = ('lin',)
    def __init__(self, lin): self.lin = lin
    def bv(self): return self.lin.bv()

class PtrInt:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p

class Ptr:
    """rid: 0 null, int region id, ('S', handle) text of an abstract string, ('F', name) function, ('?',) unknown"""
    __slots__ = ('rid', 'off')
    def __init__(self, rid, off=None):
        self.rid = rid; self.off = off if off is not None else Lin(0)
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.rid, self.off)

NULL = Ptr(0)

# --- arrays: layered functions index -> bv ------------------------------------------------------------
def idxdiff(a, b):
    """python int if the 64-bit index terms differ by a constant, else None"""
    if isinstance(a, int) and isinstance(b, int): return a - b
    d = lin_of(a).add(lin_of(b), -1)
    return d.c if d.const() else None

class ABase:
    def __init__(self, f, w, name):
        self.f = f; self.w = w; self.name = name
    def read(self, i): return self.f(bv(i, 64))

class AConst:
    def __init__(self, v, w): self.v = v; self.w = w
    def read(self, i): return self.v

class AFun:
    """python callable index -> value"""
    def __init__(self, fn, w): self.fn = fn; self.w = w
    def read(self, i): return self.fn(i)

class AWrite:
    def __init__(self, prev, i, v, w):
        self.prev = prev; self.i = i; self.v = v; self.w = w
    def read(self, i):
        n = self; out = []
        while isinstance(n, AWrite):
            d = idxdiff(i, n.i)
            if d is None:
                out.append((n.i, n.v))
            elif d == 0:
                r = n.v
                break
            n = n.prev
        else:
            r = n.read(i)
        for wi, v in reversed(out):
            r = simp(z3.If(bv(i, 64) == bv(wi, 64), bv(v, self.w), bv(r, self.w)))
        return r

DECIDE = None   # decides conditions under the current path

class ARange:
    def __init__(self, prev, lo, hi, fn, w):
        self.prev = prev; self.lo = lo; self.hi = hi; self.fn = fn; self.w = w
    def read(self, i):
        b = bv(i, 64)
        c = simp(z3.And(z3.ULE(bv(self.lo, 64), b), z3.ULT(b, bv(self.hi, 64))))
        if c is True: return self.fn(i)
        if c is False: return self.prev.read(i)
        if DECIDE is not None:
            d = DECIDE(c)
            if d is True: return self.fn(i)
            if d is False: return self.prev.read(i)
        return simp(z3.If(c, bv(self.fn(i), self.w), bv(self.prev.read(i), self.w)))

class OptPtr:
    """a pointer that is null or p, depending on a condition; loads split on it"""
    __slots__ = ('null', 'p')
    def __init__(self, null, p): self.null = null; self.p = p
    def __repr__(self): return 'OptPtr(%s, %r)' % (self.null, self.p)
