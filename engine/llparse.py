"""Parser for textual LLVM IR (clang 18, opaque pointers), the subset clang emits for C++ at -O0 plus simple passes."""
import re, struct

TOK = re.compile(r'''
  (?P<ws>[ \t\r]+)
 |(?P<comment>;[^\n]*)
 |(?P<cstr>c"(?:[^"])*")
 |(?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 |(?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 |(?P<comdat>\$"[^"]*"|\$[-a-zA-Z$._0-9]+)
 |(?P<str>"[^"]*")
 |(?P<attr>\#[0-9]+)
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 |(?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 |(?P<punct>\.\.\.|[(){}\[\]<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tok: ' + s[i:i+60])
        k = m.lastgroup
        if k == 'comment':
            break
        if k != 'ws':
            t = m.group()
            if k in ('loc', 'glob') and len(t) > 1 and t[1] == '"':
                t = t[0] + t[2:-1]
            out.append((k, t))
        i = m.end()
    return out

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')
    def __init__(self, op, res, ty, a, x=None, line=None):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.x = x; self.line = line
    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.a, self.x)

class Function:
    def __init__(self, name, ret, params):
        self.name = name; self.ret = ret; self.params = params
        self.blocks = {}; self.order = []; self.defined = False
        self.loops = None

class Global:
    def __init__(self, name):
        self.name = name; self.ty = None; self.init = None; self.const = False

ICMP = {'eq','ne','ult','ule','ugt','uge','slt','sle','sgt','sge'}
PARAM_ATTRS = {'noundef','nonnull','signext','zeroext','nocapture','readonly','readnone','writeonly','noalias','returned','immarg','inreg','nofree','noinline','dead_on_unwind','writable','nest','swiftself','allocptr','allocalign'}
PARAM_ATTRS_ARG = {'align','dereferenceable','dereferenceable_or_null','sret','byval','elementtype','byref','inalloca','preallocated','range','captures','initializes'}
CALL_PREF = {'tail','musttail','notail','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','ccc','fastcc','coldcc'}

class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def pk(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def pkk(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def nx(self):
        t = self.t[self.i]; self.i += 1
        return t[1]
    def acc(self, s):
        if self.pk() == s:
            self.i += 1
            return True
        return False
    def exp(self, s):
        t = self.nx()
        if t != s:
            raise SyntaxError('expected %s got %s in %s' % (s, t, ' '.join(x[1] for x in self.t)[:300]))
    # types -----------------------------------------------------------------
    def type(self):
        t = self.nx()
        k = self.t[self.i-1][0]
        if t == '[':
            n = int(self.nx()); self.exp('x'); e = self.type(); self.exp(']')
            ty = ('arr', n, e)
        elif t == '{':
            fs = []
            if not self.acc('}'):
                while True:
                    fs.append(self.type())
                    if self.acc('}'): break
                    self.exp(',')
            ty = ('st', tuple(fs), False)
        elif t == '<':
            if self.acc('{'):
                fs = []
                if not self.acc('}'):
                    while True:
                        fs.append(self.type())
                        if self.acc('}'): break
                        self.exp(',')
                self.exp('>')
                ty = ('st', tuple(fs), True)
            else:
                n = int(self.nx()); self.exp('x'); e = self.type(); self.exp('>')
                ty = ('vec', n, e)
        elif k == 'loc':
            ty = ('named', t[1:])
        elif t == 'ptr': ty = ('ptr',)
        elif t == 'void': ty = ('void',)
        elif t == 'double': ty = ('double',)
        elif t == 'float': ty = ('float',)
        elif t == 'x86_fp80': ty = ('fp80',)
        elif t == 'label': ty = ('label',)
        elif t == 'metadata': ty = ('metadata',)
        elif t == 'token': ty = ('token',)
        elif t == 'opaque': ty = ('opaque',)
        elif re.match(r'i\d+$', t): ty = ('i', int(t[1:]))
        else:
            raise SyntaxError('type ' + t + ' in ' + ' '.join(x[1] for x in self.t)[:300])
        if self.pk() == 'addrspace':
            self.nx(); self.exp('('); self.nx(); self.exp(')')
        # function type
        if self.pk() == '(' and ty[0] in ('void','i','ptr','double','float','named','st') and self._looks_fnty():
            depth = 0
            while True:
                x = self.nx()
                if x == '(': depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0: break
        return ty
    def _looks_fnty(self):
        # only inside call instructions:  call void (ptr, ...) @f(
        d = 0; j = self.i
        while j < len(self.t):
            x = self.t[j][1]
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: break
            j += 1
        return j+1 < len(self.t) and self.t[j+1][0] in ('glob','loc') and self.infn
    infn = False
    # values ----------------------------------------------------------------
    def value(self, ty):
        k = self.pkk(); t = self.nx()
        if k == 'loc': return ('r', t[1:])
        if k == 'glob': return ('g', t[1:])
        if k == 'num':
            if ty[0] in ('double','float'):
                if t.startswith('0x'):
                    bits = int(t[2:], 16)
                else:
                    bits = struct.unpack('<Q', struct.pack('<d', float(t)))[0]
                if ty[0] == 'float':
                    d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                    bits = struct.unpack('<I', struct.pack('<f', d))[0]
                return ('k', bits)
            if ty[0] == 'i':
                return ('k', int(t) & ((1 << ty[1]) - 1))
            return ('k', t)
        if k == 'cstr':
            return ('cstr', unescape(t[2:-1]))
        if t == 'true': return ('k', True)
        if t == 'false': return ('k', False)
        if t == 'null' or t == 'none': return ('null',)
        if t in ('undef', 'poison'): return ('undef', ty)
        if t == 'zeroinitializer': return ('zero', ty)
        if t in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[t]
            packed = False
            if t == '<' and self.acc('{'):
                packed = True; close = '}'
            els = []
            if not self.acc(close):
                while True:
                    ety = self.type(); els.append((ety, self.value(ety)))
                    if self.acc(close): break
                    self.exp(',')
            if packed: self.exp('>')
            return ('agg', ty, els)
        if t == 'getelementptr':
            while self.pk() != '(':
                if self.pk() == 'inrange':
                    self.nx(); 
                    if self.acc('('):
                        while not self.acc(')'): self.nx()
                    continue
                self.nx()
            self.exp('(')
            ety = self.type(); self.exp(',')
            bty = self.type(); base = self.value(bty)
            idx = []
            while self.acc(','):
                self.acc('inrange')
                ity = self.type(); idx.append((ity, self.value(ity)))
            self.exp(')')
            return ('cgep', ety, base, idx)
        if t in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
            self.exp('('); fty = self.type(); v = self.value(fty); self.exp('to'); tty = self.type(); self.exp(')')
            return ('ccast', t, fty, v, tty)
        if t in ('add','sub','mul','xor','and','or','shl'):
            while self.pk() in ('nuw','nsw'): self.nx()
            self.exp('('); a = self.type(); av = self.value(a); self.exp(','); b = self.type(); bv = self.value(b); self.exp(')')
            return ('cbin', t, a, av, bv)
        if t in ('icmp',):
            pred = self.nx(); self.exp('('); a = self.type(); av = self.value(a); self.exp(','); b = self.type(); bv = self.value(b); self.exp(')')
            return ('cicmp', pred, a, av, bv)
        raise SyntaxError('value %s in %s' % (t, ' '.join(x[1] for x in self.t)[:400]))
    def attrs(self):
        while True:
            t = self.pk()
            if t in PARAM_ATTRS: self.nx()
            elif t in PARAM_ATTRS_ARG:
                self.nx()
                if self.pk() == '(':
                    d = 0
                    while True:
                        x = self.nx()
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
                else:
                    self.nx()
            elif self.pkk() == 'str':   # "key"="value"
                self.nx()
                if self.acc('='): self.nx()
            else:
                return
    def tv(self):
        ty = self.type(); self.attrs(); return (ty, self.value(ty))

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2; continue
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin1') if ord(s[i]) < 256 else s[i].encode('utf8'); i += 1
    return bytes(out)

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}
FLAGS = {'nuw','nsw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint','nneg','inbounds','volatile','atomic'}

def parse_instr(p):
    res = None
    if p.pkk() == 'loc' and p.pk(1) == '=':
        res = p.nx()[1:]; p.nx()
    op = p.nx()
    while op in ('tail', 'musttail', 'notail'):
        op = p.nx()
    if op in BIN:
        fl = set()
        while p.pk() in FLAGS: fl.add(p.nx())
        ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Instr(op, res, ty, (a, b), fl)
    if op == 'fneg':
        while p.pk() in FLAGS: p.nx()
        ty = p.type(); return Instr(op, res, ty, (p.value(ty),))
    if op in CAST:
        fl = set()
        while p.pk() in FLAGS: fl.add(p.nx())
        fty = p.type(); v = p.value(fty); p.exp('to'); tty = p.type()
        return Instr(op, res, tty, (v,), fty)
    if op in ('icmp', 'fcmp'):
        while p.pk() in FLAGS: p.nx()
        pred = p.nx(); ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Instr(op, res, ty, (a, b), pred)
    if op == 'alloca':
        p.acc('inalloca')
        ty = p.type(); n = None
        while p.acc(','):
            if p.pk() == 'align': p.nx(); p.nx()
            else: n = p.tv()
        return Instr(op, res, ty, n)
    if op == 'load':
        while p.pk() in FLAGS: p.nx()
        ty = p.type(); p.exp(','); v = p.tv()
        return Instr(op, res, ty, v[1])
    if op == 'store':
        while p.pk() in FLAGS: p.nx()
        v = p.tv(); p.exp(','); q = p.tv()
        return Instr(op, None, v[0], (v[1], q[1]))
    if op == 'getelementptr':
        while p.pk() in FLAGS or p.pk() == 'inrange': p.nx()
        ety = p.type(); p.exp(','); b = p.tv(); idx = []
        while p.acc(','):
            if p.pkk() == 'meta': break
            idx.append(p.tv())
        return Instr(op, res, ety, b[1], idx)
    if op == 'phi':
        while p.pk() in FLAGS: p.nx()
        ty = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(ty); p.exp(','); l = p.nx()[1:]; p.exp(']'); inc.append((v, l))
            if not (p.pk() == ',' and p.pk(1) == '['): break
            p.nx()
        return Instr(op, res, ty, inc)
    if op == 'select':
        while p.pk() in FLAGS: p.nx()
        c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
        return Instr(op, res, a[0], (c[1], a[1], b[1]))
    if op == 'br':
        if p.pk() == 'label':
            p.nx(); return Instr(op, None, None, (p.nx()[1:],))
        c = p.tv(); p.exp(','); p.exp('label'); a = p.nx()[1:]; p.exp(','); p.exp('label'); b = p.nx()[1:]
        return Instr(op, None, None, (c[1], a, b))
    if op == 'switch':
        v = p.tv(); p.exp(','); p.exp('label'); d = p.nx()[1:]; p.exp('['); cs = []
        while not p.acc(']'):
            ty = p.type(); c = p.value(ty); p.exp(','); p.exp('label'); cs.append((c, p.nx()[1:]))
        return Instr(op, None, v[0], (v[1], d), cs)
    if op == 'ret':
        if p.pk() == 'void': return Instr(op, None, ('void',), None)
        v = p.tv(); return Instr(op, None, v[0], v[1])
    if op in ('call', 'invoke'):
        while p.pk() in CALL_PREF: p.nx()
        p.attrs()
        p.infn = True
        ty = p.type(); p.infn = False
        k = p.pkk()
        callee = p.value(('ptr',)) if k in ('glob', 'loc') else p.value(('ptr',))
        p.exp('('); args = []
        if not p.acc(')'):
            while True:
                aty = p.type()
                if aty[0] == 'metadata':
                    # skip metadata arg
                    d = 0
                    while not (d == 0 and p.pk() in (',', ')')):
                        x = p.nx()
                        if x in '({[': d += 1
                        if x in ')}]': d -= 1
                    args.append((aty, ('null',)))
                else:
                    p.attrs(); args.append((aty, p.value(aty)))
                if p.acc(')'): break
                p.exp(',')
        x = None
        if op == 'invoke':
            while p.pk() != 'to': p.nx()
            p.nx(); p.exp('label'); n = p.nx()[1:]; p.exp('unwind'); p.exp('label'); u = p.nx()[1:]
            x = (n, u)
        return Instr(op, res, ty, (callee, args), x)
    if op == 'landingpad':
        ty = p.type(); clauses = []; cleanup = False
        while p.pk() in ('cleanup', 'catch', 'filter'):
            c = p.nx()
            if c == 'cleanup': cleanup = True
            else:
                v = p.tv(); clauses.append((c, v[1]))
        return Instr(op, res, ty, clauses, cleanup)
    if op == 'resume':
        v = p.tv(); return Instr(op, None, v[0], v[1])
    if op == 'extractvalue':
        v = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.nx()))
        return Instr(op, res, v[0], v[1], idx)
    if op == 'insertvalue':
        v = p.tv(); p.exp(','); w = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.nx()))
        return Instr(op, res, v[0], (v[1], w[1], w[0]), idx)
    if op == 'unreachable':
        return Instr(op, None, None, None)
    if op == 'freeze':
        v = p.tv(); return Instr(op, res, v[0], v[1])
    if op == 'fence':
        return Instr('nop', None, None, None)
    if op == 'atomicrmw':
        raise SyntaxError('atomicrmw')
    return Instr('unsupported', res, None, op)

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}
        self.parse(text)
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]; i += 1
            if not l or l[0] in ';!' or l.startswith(('source_filename', 'target ', 'attributes', '$', 'module asm')):
                continue
            if l[0] == '%':
                p = P(tokenize(l), self); name = p.nx()[1:]; p.exp('='); p.exp('type')
                self.types[name] = p.type()
            elif l[0] == '@':
                self.parse_global(l)
            elif l.startswith('declare'):
                self.parse_head(l)
            elif l.startswith('define'):
                f = self.parse_head(l); f.defined = True
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                f.body = body
                f.parsed = False
    def parse_global(self, l):
        p = P(tokenize(l), self); name = p.nx()[1:]; p.exp('=')
        g = Global(name); self.globals[name] = g
        ext = False
        while p.pk() not in ('global', 'constant', 'alias', 'ifunc'):
            if p.nx() in ('external', 'extern_weak'): ext = True
            if p.pk() == '(':
                while p.nx() != ')': pass
        kind = p.nx()
        if kind == 'alias':
            g.ty = p.type(); p.exp(','); t, v = p.tv(); g.alias = v; g.init = None; g.isalias = True
            self.globals[name] = g; return
        g.const = kind == 'constant'
        g.ty = p.type()
        if not ext and p.i < len(p.t) and p.pk() != ',':
            g.init = p.value(g.ty)
        g.ext = ext
    def parse_head(self, l):
        toks = tokenize(l); p = P(toks, self)
        j = next(k for k, t in enumerate(toks) if t[0] == 'glob')
        # return type: parse backwards is hard; scan forward skipping keywords
        p.i = 1
        SK = {'linkonce_odr','dso_local','internal','weak_odr','weak','private','hidden','external','available_externally','unnamed_addr','local_unnamed_addr','protected','default','linkonce','extern_weak','common','fastcc','ccc','coldcc'}
        while p.pk() in SK: p.nx()
        p.attrs()
        while p.pk() in SK: p.nx()
        ret = p.type()
        name = toks[j][1][1:]; p.i = j + 1
        p.exp('('); params = []
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    p.exp(')'); break
                ty = p.type(); p.attrs()
                nm = None
                if p.pkk() == 'loc': nm = p.nx()[1:]
                params.append((ty, nm))
                if p.acc(')'): break
                p.exp(',')
        f = Function(name, ret, params)
        self.funcs[name] = f
        return f
    def func(self, name):
        f = self.funcs[name]
        if f.defined and not f.parsed:
            self.parse_body(f)
        return f
    def parse_body(self, f):
        f.parsed = True
        n = 0
        params = []
        for ty, nm in f.params:
            if nm is None:
                nm = str(n); 
            if nm.isdigit(): n = int(nm) + 1
            params.append((ty, nm))
        f.params = params
        cur = None
        buf = f.body; k = 0
        while k < len(buf):
            l = buf[k]; k += 1
            s = l.strip()
            if not s or s[0] == ';': continue
            m = re.match(r'^("?)([-a-zA-Z$._0-9]+|[^"]*)\1:', l)
            if m and not l.startswith(' '):
                cur = m.group(2); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = str(n); f.blocks[cur] = []; f.order.append(cur)
            # join multi-line (switch / landingpad / invoke)
            if re.match(r'(%\S+ = )?(tail )?(switch|landingpad|invoke)', s):
                while k < len(buf):
                    nx = buf[k].strip()
                    if s.startswith('switch') and not s.rstrip().endswith(']'):
                        s += ' ' + nx; k += 1; continue
                    if 'landingpad' in s and re.match(r'(cleanup|catch|filter)\b', nx):
                        s += ' ' + nx; k += 1; continue
                    if 'invoke' in s and nx.startswith('to label'):
                        s += ' ' + nx; k += 1; continue
                    break
            s = strip_meta(s)
            ins = parse_instr(P(tokenize(s), self))
            f.blocks[cur].append(ins)
        f.entry = f.order[0]
        del f.body
        find_loops(f)
    # layout -------------------------------------------------------------------
    def res(self, ty):
        while ty[0] == 'named': ty = self.types[ty[1]]
        return ty
    def size(self, ty):
        ty = self.res(ty); k = ty[0]
        if k == 'raw': return ty[1]
        if k == 'i':
            n = (ty[1] + 7) // 8
            r = 1
            while r < n: r *= 2
            return r
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k == 'fp80': return 16
        if k == 'arr': return ty[1] * self.size(ty[2])
        if k == 'vec': return ty[1] * self.size(ty[2])
        if k == 'st': return self.stlayout(ty)[1]
        if k == 'opaque': return 0
        raise Exception('size %s' % (ty,))
    def align(self, ty):
        ty = self.res(ty); k = ty[0]
        if k == 'i': return min(self.size(ty), 16)
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k == 'fp80': return 16
        if k == 'arr': return self.align(ty[2])
        if k == 'vec': return self.size(ty)
        if k == 'st':
            if ty[2]: return 1
            return max([self.align(x) for x in ty[1]] or [1])
        return 1
    _lay = {}
    def stlayout(self, ty):
        key = (id(self), ty)
        if key in self._lay: return self._lay[key]
        off = 0; offs = []; al = 1
        for x in ty[1]:
            a = 1 if ty[2] else self.align(x)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off); off += self.size(x)
        off = (off + al - 1) // al * al
        self._lay[key] = (offs, off)
        return offs, off
    def fields(self, ty, base=0):
        """flat list of (offset, scalar type)"""
        ty = self.res(ty); k = ty[0]
        if k == 'arr':
            s = self.size(ty[2])
            for i in range(ty[1]):
                yield from self.fields(ty[2], base + i * s)
        elif k == 'st':
            offs, _ = self.stlayout(ty)
            for o, x in zip(offs, ty[1]): yield from self.fields(x, base + o)
        else:
            yield base, ty

META = re.compile(r',\s*!\w+(\.\w+)*\s+!\d+|,\s*!srcloc\s+!\d+|\s*#\d+(?=\s|$)')
def strip_meta(s):
    if '!' in s or '#' in s:
        if '"' not in s or 'c"' not in s:
            s = META.sub('', s)
    return s

def succs(b):
    t = b[-1]
    if t.op == 'br': return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == 'switch': return [t.a[1]] + [c[1] for c in t.x]
    if t.op == 'invoke': return [t.x[0], t.x[1]]
    return []

def find_loops(f):
    """natural loops: header -> set(body blocks)"""
    order = []; seen = set()
    st = [(f.entry, iter(succs(f.blocks[f.entry])))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succs(f.blocks[s])))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b]): preds[s].append(b)
    idom = {f.entry: f.entry}; ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None: new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(f.blocks[b]):
            if dom(s, b):
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x); w += preds[x]
    f.loops = loops
