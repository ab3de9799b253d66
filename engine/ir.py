"""Parser for textual LLVM 18 IR (the subset clang -O0 + sroa emits for this code base)."""
import re, struct
from fractions import Fraction

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_size', '_align')
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._size = None
        self._align = None
    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.a
        if self.k == 'arr': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'vec': return '<%d x %r>' % (self.a, self.b)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.a))
        return self.k

_int = {}
def IntTy(n):
    if n not in _int: _int[n] = Ty('i', n)
    return _int[n]
F80 = Ty('f80')
F32, F64, PTR, VOID, META = Ty('f32'), Ty('f64'), Ty('ptr'), Ty('void'), Ty('meta')

def align_up(x, a): return (x + a - 1) // a * a

TOK = re.compile(r'''\s*(?:
   (?P<name>[%@]"(?:[^"\\]|\\.)*"|[%@][-\w.$]+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<meta>![-\w.$]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_$][-\w.$]*)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            if s[i:].lstrip().startswith(';'): break
            raise Unsupported('token: ' + s[i:i+60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

def strip_comment(s):
    inq = False
    for i, c in enumerate(s):
        if c == '"': inq = not inq
        elif c == ';' and not inq: return s[:i]
    return s

class Const:
    """kinds: int, fp, null, undef, zero, agg, glob, gep, cast"""
    __slots__ = ('k', 'ty', 'v', 'x')
    def __init__(self, k, ty, v=None, x=None): self.k, self.ty, self.v, self.x = k, ty, v, x
    def __repr__(self): return 'C(%s,%r,%r)' % (self.k, self.ty, self.v)

class Local:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'args', 'x', 'line')
    def __init__(self, op, dst, ty, args, x, line):
        self.op, self.dst, self.ty, self.args, self.x, self.line = op, dst, ty, args, x, line

class Block:
    def __init__(self, name): self.name, self.insts, self.phis = name, [], []

class Func:
    def __init__(self, name): self.name, self.params, self.ret, self.blocks, self.order = name, [], None, {}, []; self.info = None

ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly writeonly readnone returned nofree nosync inreg
dso_local local_unnamed_addr unnamed_addr tail musttail notail fastcc ccc linkonce_odr internal private weak weak_odr external
hidden protected default nsw nuw exact inbounds nnan ninf nsz arcp contract afn reassoc fast volatile immarg comdat
appending extern_weak linkonce common allocptr mustprogress willreturn samesign disjoint nneg inrange dead_on_unwind writable thread_local constant global'''.split())
PATTR = ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory', 'range', 'captures')

class P:
    def __init__(self, mod, toks): self.m, self.t, self.i = mod, toks, 0
    def peek(self, o=0): return self.t[self.i+o] if self.i+o < len(self.t) else (None, None)
    def next(self):
        t = self.t[self.i]; self.i += 1; return t
    def at(self, s): return self.peek()[1] == s and self.peek()[0] in ('word', 'p', 'dots')
    def eat(self, s):
        if self.at(s): self.i += 1; return True
        return False
    def expect(self, s):
        if not self.eat(s): raise Unsupported('expected %s got %r in %r' % (s, self.peek(), self.t))
    def skip_attrs(self):
        seen = []
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRS: seen.append(v); self.i += 1
            elif k == 'attr': self.i += 1
            elif k == 'word' and v in PATTR:
                nk, nv = self.peek(1)
                if nv == '(':
                    self.i += 1; self.skip_paren()
                elif v == 'align': self.i += 2
                else: return seen
            elif k == 'str': self.i += 1
            else: return seen
    def skip_paren(self):
        self.expect('('); d = 1
        while d:
            _, v = self.next()
            if v == '(': d += 1
            elif v == ')': d -= 1
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.match(r'^i\d+$', v): return IntTy(int(v[1:]))
            if v == 'float': return F32
            if v == 'double': return F64
            if v == 'x86_fp80': return F80
            if v == 'ptr': return PTR
            if v == 'void': return VOID
            if v in ('metadata', 'label', 'token'): return META
            raise Unsupported('type ' + v)
        if k == 'name': return self.m.named(v)
        if v == '[':
            n = int(self.next()[1]); self.expect('x'); t = self.type(); self.expect(']'); return Ty('arr', n, t)
        if v == '<':
            if self.at('{'):
                self.next(); fs = self.typelist('}'); self.expect('>'); return Ty('struct', fs, True)
            n = int(self.next()[1]); self.expect('x'); t = self.type(); self.expect('>'); return Ty('vec', n, t)
        if v == '{':
            return Ty('struct', self.typelist('}'), False)
        raise Unsupported('type %r' % v)
    def typelist(self, end):
        fs = []
        if self.eat(end): return fs
        while True:
            fs.append(self.type())
            if self.eat(end): return fs
            self.expect(',')
    def tv(self):
        t = self.type(); self.skip_attrs(); return t, self.value(t)
    def value(self, ty):
        k, v = self.next()
        if k == 'name':
            if v[0] == '%': return Local(v)
            return Const('glob', PTR, v)
        if k == 'num':
            if ty.k == 'i':
                return Const('int', ty, int(v) & ((1 << ty.a) - 1))
            if v.startswith('0xK'):
                bits = int(v[3:], 16); sg = bits >> 79; e = (bits >> 64) & 0x7fff; m = bits & ((1 << 64) - 1)
                if e == 0x7fff:
                    d = float('inf') if (m << 1) & ((1 << 64) - 1) == 0 else float('nan')
                    return Const('fp', ty, -d if sg else d)
                fr = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
                return Const('fp', ty, -fr if sg else fr)
            if v.startswith('0x'):
                d = struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]
            else: d = float(v)
            return Const('fp', ty, d)
        if k == 'cstr':
            b, s, i = [], v[2:-1], 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return Const('agg', ty, [Const('int', IntTy(8), c) for c in b])
        if k == 'word':
            if v == 'true': return Const('int', ty, 1)
            if v == 'false': return Const('int', ty, 0)
            if v == 'null': return Const('null', ty)
            if v in ('undef', 'poison'): return Const('undef', ty)
            if v == 'zeroinitializer': return Const('zero', ty)
            if v == 'none': return Const('zero', ty)
            if v == 'getelementptr':
                self.skip_attrs(); self.expect('('); bt = self.type(); self.expect(',')
                ops = []
                while True:
                    self.skip_attrs()
                    ops.append(self.tv())
                    if self.eat(')'): break
                    self.expect(',')
                return Const('gep', PTR, bt, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
                self.expect('('); o = self.tv(); self.expect('to'); t = self.type(); self.expect(')')
                return Const('cast', t, v, o)
            if v in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'icmp'):
                raise Unsupported('constexpr ' + v)
        if v in ('[', '{', '<'):
            packed = False
            if v == '<' and self.at('{'): self.next(); packed = True
            end = {'[': ']', '{': '}', '<': '>'}[v] if not packed else '}'
            els = []
            if not self.eat(end):
                while True:
                    els.append(self.tv()[1])
                    if self.eat(end): break
                    self.expect(',')
            if packed: self.expect('>')
            return Const('agg', ty, els)
        raise Unsupported('value %r in %r' % (v, self.t))

class Module:
    def __init__(self, text):
        self.types, self.typedefs, self.globals, self.funcs, self.decls = {}, {}, {}, {}, {}
        self.parse(text)
    def named(self, n):
        if n in self.types: return self.types[n]
        if n not in self.typedefs: raise Unsupported('type ' + n)
        t = Ty('struct', [], False); self.types[n] = t
        p = P(self, tokenize(self.typedefs[n]))
        if p.at('opaque'): return t
        r = p.type(); t.k, t.a, t.b = r.k, r.a, r.b
        return t
    def size(self, t):
        if t._size is not None: return t._size
        if t.k == 'i': s = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.a) or align_up((t.a + 7)//8, self.align(t))
        elif t.k == 'f32': s = 4
        elif t.k in ('f64', 'ptr'): s = 8
        elif t.k == 'f80': s = 16
        elif t.k == 'arr': s = t.a * self.size(t.b)
        elif t.k == 'vec': s = t.a * self.size(t.b)
        elif t.k == 'struct':
            o = 0
            for f in t.a:
                if not t.b: o = align_up(o, self.align(f))
                o += self.size(f)
            s = o if t.b else align_up(o, self.align(t))
        else: raise Unsupported('size %r' % t)
        t._size = s; return s
    def align(self, t):
        if t.k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.a) or min(8, 1 << ((t.a + 7)//8 - 1).bit_length())
        if t.k == 'f32': return 4
        if t.k in ('f64', 'ptr'): return 8
        if t.k == 'f80': return 16
        if t.k == 'arr': return self.align(t.b)
        if t.k == 'vec': return self.size(t)
        if t.k == 'struct':
            return 1 if t.b else max([1] + [self.align(f) for f in t.a])
        raise Unsupported('align')
    def field_off(self, t, i):
        o = 0
        for j, f in enumerate(t.a):
            if not t.b: o = align_up(o, self.align(f))
            if j == i: return o
            o += self.size(f)
        raise Unsupported('field')
    # ------------------------------------------------------------ parsing
    def parse(self, text):
        lines = text.split('\n')
        body = []
        for l in lines:
            m = re.match(r'^(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$', l)
            if m: self.typedefs[m.group(1)] = m.group(2)
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('@'): self.parse_global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self.parse_func(l, lines[i+1:j]); i = j
            elif l.startswith('declare'):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l)
                self.decls[m.group(1)] = l
            i += 1
    def parse_global(self, l):
        l = strip_comment(l)
        m = re.match(r'^(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        if 'alias' in rest.split('"')[0].split():
            mm = re.search(r'ptr (@[-\w.$]+)$', rest)
            self.globals[name] = ('alias', mm.group(1)); return
        p = P(self, tokenize(rest)); const = False; ext = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('global', 'constant'):
                const = v == 'constant'; p.next(); break
            if v == 'external': ext = True
            p.next()
        t = p.type()
        init = None
        if not ext and p.peek()[0] is not None and not p.at(','): init = p.value(t)
        self.globals[name] = ('var', t, init, const)
    def parse_func(self, head, lines):
        p = P(self, tokenize(strip_comment(head.rstrip('{ ')))); p.next()
        p.skip_attrs(); ret = p.type(); p.skip_attrs()
        name = p.next()[1]; f = Func(name); f.ret = ret
        p.expect('(')
        if not p.eat(')'):
            while True:
                if p.eat('...'): p.expect(')'); break
                t = p.type(); p.skip_attrs()
                f.params.append((t, p.next()[1]))
                if p.eat(')'): break
                p.expect(',')
        # numbering: unnamed entry block
        cur = None
        joined = []
        buf = None
        for l in lines:
            if buf is not None:
                buf += ' ' + l.strip()
                if l.strip().startswith(']'): joined.append(buf); buf = None
                continue
            if re.match(r'^\s+switch ', l) and l.rstrip().endswith('['): buf = l; continue
            joined.append(l)
        # entry label
        first_label = None
        for l in joined:
            if not l.strip(): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if m: first_label = '%' + m.group(1)
            break
        if first_label is None:
            nums = [int(x[1:]) for _, x in f.params if re.match(r'^%\d+$', x)]
            first_label = '%' + str(max(nums) + 1 if nums else 0)
            cur = Block(first_label); f.blocks[first_label] = cur; f.order.append(first_label)
        for l in joined:
            if not l.strip(): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if m and not l.startswith(' '):
                nm = '%' + m.group(1)
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); continue
            s = strip_comment(l).strip()
            if not s: continue
            try:
                ins = self.parse_inst(s)
            except (Unsupported, IndexError) as e:
                ins = Inst('unsupported', None, None, [], str(e), s)
            if ins.op == 'phi': cur.phis.append(ins)
            elif ins.op != 'nop': cur.insts.append(ins)
        self.funcs[name] = f
    def parse_inst(self, s):
        toks = tokenize(s)
        # drop metadata suffix
        for idx, (k, v) in enumerate(toks):
            if k == 'meta' and idx and toks[idx-1][1] == ',':
                toks = toks[:idx-1]; break
        p = P(self, toks); dst = None
        if p.peek()[0] == 'name' and p.peek(1)[1] == '=':
            dst = p.next()[1]; p.next()
        flags = p.skip_attrs()
        op = p.next()[1]
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = p.skip_attrs(); t, a = p.tv(); p.expect(','); b = p.value(t)
            return Inst(op, dst, t, [a, b], fl, s)
        if op == 'fneg':
            p.skip_attrs(); t, a = p.tv(); return Inst(op, dst, t, [a], None, s)
        if op in ('icmp', 'fcmp'):
            p.skip_attrs(); pred = p.next()[1]; t, a = p.tv(); p.expect(','); b = p.value(t)
            return Inst(op, dst, t, [a, b], pred, s)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'):
            p.skip_attrs(); t, a = p.tv(); p.expect('to'); t2 = p.type()
            return Inst(op, dst, t2, [a], t, s)
        if op == 'freeze':
            t, a = p.tv(); return Inst(op, dst, t, [a], None, s)
        if op == 'alloca':
            p.skip_attrs(); t = p.type(); cnt = Const('int', IntTy(32), 1)
            if p.eat(','):
                if not p.at('align'): cnt = p.tv()[1]
            return Inst(op, dst, t, [cnt], None, s)
        if op == 'load':
            p.skip_attrs(); t = p.type(); p.expect(','); _, a = p.tv(); return Inst(op, dst, t, [a], None, s)
        if op == 'store':
            p.skip_attrs(); t, v = p.tv(); p.expect(','); _, a = p.tv(); return Inst(op, None, t, [v, a], None, s)
        if op == 'getelementptr':
            p.skip_attrs(); t = p.type(); p.expect(','); ops = [p.tv()]
            while p.eat(','):
                ops.append(p.tv())
            return Inst(op, dst, t, [o[1] for o in ops], [o[0] for o in ops], s)
        if op == 'phi':
            p.skip_attrs(); t = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1]; p.expect(']'); inc.append((v, b))
                if not p.eat(','): break
            return Inst(op, dst, t, [i[0] for i in inc], [i[1] for i in inc], s)
        if op == 'select':
            p.skip_attrs(); ct, c = p.tv(); p.expect(','); t, a = p.tv(); p.expect(','); _, b = p.tv()
            return Inst(op, dst, t, [c, a, b], ct, s)
        if op == 'br':
            if p.at('label'):
                p.next(); return Inst(op, None, None, [], [p.next()[1]], s)
            t, c = p.tv(); p.expect(','); p.next(); a = p.next()[1]; p.expect(','); p.next(); b = p.next()[1]
            return Inst(op, None, None, [c], [a, b], s)
        if op == 'switch':
            t, c = p.tv(); p.expect(','); p.next(); d = p.next()[1]; p.expect('['); cs = []
            while not p.eat(']'):
                _, v = p.tv(); p.expect(','); p.next(); cs.append((v.v, p.next()[1]))
            return Inst(op, None, t, [c], (d, cs), s)
        if op == 'ret':
            t = p.type()
            if t.k == 'void': return Inst(op, None, t, [], None, s)
            return Inst(op, None, t, [p.value(t)], None, s)
        if op == 'unreachable': return Inst(op, None, None, [], None, s)
        if op == 'call':
            p.skip_attrs(); t = p.type()
            if p.at('('): p.skip_paren()
            callee = p.value(PTR); p.expect('('); args = []; tys = []
            if not p.eat(')'):
                while True:
                    ty = p.type(); p.skip_attrs()
                    if ty.k == 'meta':
                        return Inst('nop', None, None, [], None, s)
                    args.append(p.value(ty)); tys.append(ty)
                    if p.eat(')'): break
                    p.expect(',')
            return Inst(op, dst, t, [callee] + args, tys, s)
        if op == 'extractvalue':
            t, a = p.tv(); idx = []
            while p.eat(','): idx.append(int(p.next()[1]))
            return Inst(op, dst, t, [a], idx, s)
        if op == 'insertvalue':
            t, a = p.tv(); p.expect(','); _, v = p.tv(); idx = []
            while p.eat(','): idx.append(int(p.next()[1]))
            return Inst(op, dst, t, [a, v], idx, s)
        if op == 'extractelement':
            t, a = p.tv(); p.expect(','); _, v = p.tv(); return Inst(op, dst, t, [a, v], None, s)
        if op == 'insertelement':
            t, a = p.tv(); p.expect(','); _, v = p.tv(); p.expect(','); _, i = p.tv(); return Inst(op, dst, t, [a, v, i], None, s)
        if op == 'shufflevector':
            t, a = p.tv(); p.expect(','); _, b = p.tv(); p.expect(','); _, m = p.tv(); return Inst(op, dst, t, [a, b, m], None, s)
        raise Unsupported('inst ' + op)
