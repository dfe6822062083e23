"""Floating point: 'uf' = IEEE doubles as 64-bit patterns under uninterpreted operations (equal operations on equal
operands give equal results, nothing else is known); 'real' = real arithmetic with a rounding-error term per operation
(|error| <= 2^-53 |exact result|), integers linked to reals through mathematical integers."""
import z3, struct, fractions
from values import *

EPS = fractions.Fraction(1, 2 ** 53)
B64 = z3.BitVecSort(64)

def d2b(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def b2d(b): return struct.unpack('<d', struct.pack('<Q', b & mask(64)))[0]

def u(eng, name, *args):
    f = eng.uf(name, *([a.sort() for a in args] + [B64]))
    return f(*args)

def real_err(eng, st, exact):
    """exact*(1+e)"""
    exact = z3.simplify(exact)
    if z3.is_rational_value(exact): return exact
    d = eng.fresh('err', 'real')
    a = z3.If(exact >= 0, exact, -exact)
    eng.axiom(st, z3.And(d <= z3.RealVal(EPS) * a, -d <= z3.RealVal(EPS) * a))
    return exact + d

def rv(x):
    if isinstance(x, int): return z3.RealVal(fractions.Fraction(b2d(x)))
    return x

def arith(eng, st, op, ty, a, b):
    if eng.fpmode == 'real':
        a, b = rv(a), rv(b)
        if op == 'fadd': e = a + b
        elif op == 'fsub': e = a - b
        elif op == 'fmul': e = a * b
        elif op == 'fdiv':
            if not z3.is_rational_value(b): raise Unsupported('division by a variable real')
            e = a / b
        else: raise Unsupported(op)
        key = ('fp', op, a.get_id(), b.get_id())
        r = st.facts.get(key)
        if r is None:
            r = (real_err(eng, st, e), a, b); st.facts[key] = r
        return r[0]
    if ty[0] != 'double': raise Unsupported('float arithmetic')
    if isinstance(a, int) and isinstance(b, int):
        x, y = b2d(a), b2d(b)
        try:
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
            return d2b(r)
        except (ZeroDivisionError, KeyError, OverflowError): pass
    A, B = bv(a, 64), bv(b, 64)
    if eng.fpmode == 'ufx': return ufx(eng, st, op, A, B)
    if op in ('fadd', 'fmul') and A.get_id() > B.get_id(): A, B = B, A      # IEEE addition and multiplication commute
    return u(eng, 'fp_' + op, A, B)

# 'ufx': 'uf' with the IEEE facts about signs, zeros, magnitudes and NaN of the single operations
SIGN = 1 << 63
def m_(A): return simp(A & z3.BitVecVal(SIGN - 1, 64))
def s_(A): return simp(z3.Extract(63, 63, A))
def nan(A): return z3.UGT(bv(m_(A), 64), z3.BitVecVal(0x7ff << 52, 64))
def fin(A): return z3.ULT(bv(m_(A), 64), z3.BitVecVal(0x7ff << 52, 64))
def le(A, d): return z3.ULE(bv(m_(A), 64), z3.BitVecVal(d2b(d), 64))
def zero(A): return bv(m_(A), 64) == 0
def ordered(A, B): return (A, B) if A.get_id() <= B.get_id() else (B, A)
def usym(eng, ax, name, A, B):
    r = u(eng, name, *ordered(A, B))
    if not A.eq(B): ax(r == u(eng, name, *ordered(A, B)[::-1]))
    return r
def signed(sign, M): return simp(z3.Concat(bv(sign, 1), z3.Extract(62, 0, bv(M, 64))))
def ufx(eng, st, op, A, B):
    key = ('ufx', op, A.get_id(), B.get_id())
    r = st.facts.get(key)
    if r is not None: return r[0]
    ax = lambda c: eng.axiom(st, simp(c))
    anynan = z3.Or(nan(A), nan(B))
    if op == 'fsub':
        r = signed(eng.uf('fp_subsign', B64, B64, z3.BitVecSort(1))(A, B), usym(eng, ax, 'fp_subabs', A, B))
        ax(z3.Implies(z3.And(A == B, fin(A)), bv(r, 64) == 0))
        ax(z3.Implies(z3.And(le(A, 2.0**40), le(B, 2.0**40)), le(bv(r, 64), 2.0**41)))
        ax(z3.Implies(anynan, nan(bv(r, 64))))
    elif op == 'fadd':
        r = usym(eng, ax, 'fp_fadd', A, B)
        ax(z3.Implies(bv(r, 64) == SIGN, z3.And(A == SIGN, B == SIGN)))
        ax(z3.Implies(z3.And(A == 0, zero(B)), r == 0)); ax(z3.Implies(z3.And(B == 0, zero(A)), r == 0))
        ax(z3.Implies(z3.And(bv(s_(A), 1) == 0, bv(s_(B), 1) == 0, z3.Not(anynan)), z3.And(bv(s_(r), 1) == 0, z3.Not(nan(r)))))
        ax(z3.Implies(anynan, nan(r)))
    elif op == 'fmul':
        P, Q = ordered(bv(m_(A), 64), bv(m_(B), 64))
        M = usym(eng, ax, 'fp_mulabs', P, Q)
        r = signed(simp(bv(s_(A), 1) ^ bv(s_(B), 1)), M)
        R = bv(r, 64)
        ax(z3.Implies(z3.And(zero(A), fin(B)), zero(R))); ax(z3.Implies(z3.And(zero(B), fin(A)), zero(R)))
        ax(z3.Implies(z3.And(le(A, 1.0), fin(B)), z3.ULE(bv(m_(R), 64), bv(m_(B), 64)))); ax(z3.Implies(z3.And(le(B, 1.0), fin(A)), z3.ULE(bv(m_(R), 64), bv(m_(A), 64))))
        ax(z3.Implies(anynan, nan(R))); ax(z3.Implies(z3.And(fin(A), fin(B)), z3.Not(nan(R))))
    else:
        M = u(eng, 'fp_divabs', bv(m_(A), 64), bv(m_(B), 64))
        r = signed(simp(bv(s_(A), 1) ^ bv(s_(B), 1)), M)
        R = bv(r, 64)
        ax(z3.Implies(z3.And(z3.UGE(bv(m_(B), 64), z3.BitVecVal(d2b(1.0), 64)), fin(B), fin(A)), z3.ULE(bv(m_(R), 64), bv(m_(A), 64))))
        ax(z3.Implies(anynan, nan(R)))
    st.facts[key] = (r, A, B)
    return r
def libm(eng, st, name, a):
    """sin, cos, asin, sqrt"""
    if eng.fpmode != 'ufx': raise Unsupported(name)
    if isinstance(a, int):
        import math
        try: return d2b(getattr(math, name)(b2d(a)))
        except ValueError: pass
    A = bv(a, 64); Am = bv(m_(A), 64)
    key = ('libm', name, A.get_id())
    r = st.facts.get(key)
    if r is not None: return r[0]
    ax = lambda c: eng.axiom(st, simp(c))
    M = u(eng, 'fp_' + name, Am if name in ('sin', 'cos', 'asin') else A)
    if name in ('sin', 'asin'): r = simp(M ^ (A & z3.BitVecVal(SIGN, 64)))       # odd functions
    else: r = M
    R = bv(r, 64)
    ax(z3.Implies(nan(A), nan(R)))
    if name in ('sin', 'cos'): ax(z3.Implies(fin(A), le(R, 1.0)))
    if name == 'sin': ax(z3.Implies(zero(A), R == A))
    if name == 'asin': ax(z3.Implies(le(A, 1.0), z3.And(bv(s_(R), 1) == bv(s_(A), 1), z3.Not(nan(R))))); ax(z3.Implies(z3.Not(le(A, 1.0)), nan(R))); ax(z3.Implies(zero(A), R == A))
    if name == 'sqrt':
        ax(z3.Implies(zero(A), R == A)); ax(z3.Implies(z3.And(bv(s_(A), 1) == 1, z3.Not(zero(A))), nan(R))); ax(z3.Implies(z3.And(bv(s_(A), 1) == 0, z3.Not(nan(A))), z3.And(bv(s_(R), 1) == 0, z3.Not(nan(R)))))
    st.facts[key] = (r, A)
    return r

def neg(eng, st, a):
    if eng.fpmode == 'real': return -rv(a)
    return simp(bv(a, 64) ^ z3.BitVecVal(1 << 63, 64))

def link(eng, st, v, w, signed):
    """mathematical integer equal to the machine integer v"""
    if isinstance(v, int): return z3.IntVal(sgn(v, w) if signed else v)
    key = ('link', v.get_id(), signed)
    r = st.facts.get(key)
    if r is None:
        n = z3.Int('n!%d' % next(eng.anon)); eng.note(n.decl().name())
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
        eng.axiom(st, z3.And(n >= lo, n <= hi))
        # n and v determine each other: uninterpreted bijection, with its value on the extremes
        f = eng.uf('tobv%d%s' % (w, signed), z3.IntSort(), z3.BitVecSort(w))
        eng.axiom(st, f(n) == v)
        reg = st.ghost.get('links') or ()
        for n2, v2, w2, s2 in reg:
            if w2 == w and s2 == signed:
                eng.axiom(st, (n == n2) == (v == v2))
                eng.axiom(st, (n < n2) == ((v < v2) if signed else z3.ULT(v, v2)))
            elif w2 != w:
                # a narrower integer widened
                a, b = (v, v2) if w > w2 else (v2, v); sb = s2 if w > w2 else signed; d = abs(w - w2)
                if sb and not (signed and s2): continue
                eng.axiom(st, (n == n2) == (a == (z3.SignExt(d, b) if sb else z3.ZeroExt(d, b))))
        for c in (lo, 0, hi) + ((1 << 32, 1 << 48, 1 << 53) if w == 64 else ()):
            eng.axiom(st, (n == c) == (v == z3.BitVecVal(c, w)))
            eng.axiom(st, (n < c) == ((v < z3.BitVecVal(c, w)) if signed else z3.ULT(v, z3.BitVecVal(c, w))))
        st.ghost['links'] = reg + ((n, v, w, signed),)
        r = (n, v); st.facts[key] = r
    return r[0]

def cast(eng, st, op, ft, tt, v):
    if eng.fpmode == 'real':
        if op in ('sitofp', 'uitofp'):
            w = ft[1]
            n = link(eng, st, v, w, op == 'sitofp')
            r = z3.ToReal(n)
            if z3.is_int_value(n): return z3.RealVal(n.as_long())
            return real_err(eng, st, r) if w > 53 else r
        if op in ('fptosi', 'fptoui'):
            w = tt[1]; v = rv(v)
            if z3.is_rational_value(v):
                q = v.as_fraction(); t = abs(q.numerator) // q.denominator
                return (t if q >= 0 else -t) & mask(w)
            key = ('fptoi', v.get_id(), w)
            r = st.facts.get(key)
            if r is not None: return r[0]
            x = eng.fresh('fi', w)
            n = link(eng, st, x, w, op == 'fptosi')
            # truncation toward zero; out of range is undefined behaviour
            nr = z3.ToReal(n)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, mask(w))
            eng.obligation(st, z3.And(v > lo - 1, v < hi + 1), 'floating point value fits the integer it is converted to', 'safety')
            eng.axiom(st, z3.And(z3.Implies(v >= 0, z3.And(nr <= v, v < nr + 1)), z3.Implies(v < 0, z3.And(nr >= v, v > nr - 1))))
            st.facts[key] = (x, v)
            return x
        if op in ('fpext', 'fptrunc'): return v
        raise Unsupported(op)
    if op in ('sitofp', 'uitofp'):
        w = ft[1]
        if isinstance(v, bool): v = int(v)
        if isinstance(v, LinInt): v = v.bv()
        if isinstance(v, int): return d2b(float(sgn(v, w) if op == 'sitofp' else v))
        e = bv(v, w)
        if w < 64: e = z3.SignExt(64 - w, e) if op == 'sitofp' else z3.ZeroExt(64 - w, e)
        else: pass
        r = u(eng, 'fp_from_int' if (op == 'sitofp' or w < 64) else 'fp_from_uint', z3.simplify(e))
        if eng.fpmode == 'ufx' and w <= 32: eng.axiom(st, le(r, 2.0**32))
        return r
    if op in ('fptosi', 'fptoui'):
        w = tt[1]
        if isinstance(v, int):
            d = b2d(v)
            try: return int(d) & mask(w)
            except (ValueError, OverflowError): pass
        r = u(eng, 'fp_to_int%d%s' % (w, op[4]), bv(v, 64))
        return simp(z3.Extract(w - 1, 0, r)) if w < 64 else r
    if op == 'fpext' or op == 'fptrunc':
        if isinstance(v, int) and op == 'fpext':
            return d2b(struct.unpack('<f', struct.pack('<I', v))[0])
        raise Unsupported('float')
    raise Unsupported(op)

def fcmp(eng, st, pred, a, b):
    if eng.fpmode == 'real':
        a, b = rv(a), rv(b)
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}.get(pred[1:])
        if r is None:
            if pred == 'ord': return True
            if pred == 'uno': return False
            raise Unsupported('fcmp ' + pred)
        return simp(r)
    if isinstance(a, int) and isinstance(b, int):
        import math
        x, y = b2d(a), b2d(b)
        un = math.isnan(x) or math.isnan(y)
        if pred == 'ord': return not un
        if pred == 'uno': return un
        if un: return pred[0] == 'u'
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
    A, B = z3.fpBVToFP(bv(a, 64), z3.Float64()), z3.fpBVToFP(bv(b, 64), z3.Float64())
    o = {'eq': lambda: z3.fpEQ(A, B), 'ne': lambda: z3.Not(z3.fpEQ(A, B)), 'lt': lambda: z3.fpLT(A, B), 'le': lambda: z3.fpLEQ(A, B),
         'gt': lambda: z3.fpGT(A, B), 'ge': lambda: z3.fpGEQ(A, B)}
    nan = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
    if pred == 'ord': return simp(z3.Not(nan))
    if pred == 'uno': return simp(nan)
    p = pred[1:]
    if pred[0] == 'o': 
        return simp(z3.And(z3.Not(nan), o[p]()) if p == 'ne' else o[p]())
    return simp(o[p]() if p == 'ne' else z3.Or(nan, o[p]()))
