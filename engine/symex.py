"""Symbolic executor for LLVM IR with CBMC-style state merging.

Every function call is executed as a work-list of (block, loop-iteration-vector) nodes in a
topological order in which a loop iteration precedes the next one and the loop precedes its exit;
all states reaching the same node are merged with if-then-else terms before the node is executed.

Integers are bit-vectors, pointers are guarded (object, offset) lists, floats are either IEEE
bit-precise terms (mode 'fp') or mathematical reals (mode 'real').
Every failed check becomes an obligation  pc /\\ not(cond)  handed to the solver layer.
"""
import functools, heapq, math, re, struct, sys, time
from fractions import Fraction
import z3
from ir import *

sys.setrecursionlimit(20000)
RNE = z3.RNE()
RTZ = z3.RTZ()
S32 = z3.Float32()
S64 = z3.Float64()

def f32(x):
    if x != x or math.isinf(x): return x
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(float('inf'), x)

def frac_to_f(fr, kind):
    """correctly rounded Fraction -> float (f32/f64)"""
    if fr == 0: return 0.0
    p, emin, emax = (24, -126, 127) if kind == 'f32' else (53, -1022, 1023)
    s = -1 if fr < 0 else 1
    a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a: e -= 1
    if Fraction(2) ** (e + 1) <= a: e += 1
    q = max(e, emin) - (p - 1)
    u = Fraction(2) ** q
    n, r = divmod(a, u)
    n = int(n)
    if r * 2 > u or (r * 2 == u and n & 1): n += 1
    v = n * u
    if v >= Fraction(2) ** (emax + 1): return s * float('inf')
    return s * float(v)

def f2bits(x, kind):
    if kind == 'f32':
        if x != x: return 0x7fc00000
        return struct.unpack('<I', struct.pack('<f', x))[0]
    if x != x: return 0x7ff8000000000000
    return struct.unpack('<Q', struct.pack('<d', x))[0]

def bits2f(b, kind):
    if kind == 'f32': return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]

def is_c(v): return isinstance(v, (int, float, Fraction, bool))
def isz(v): return isinstance(v, z3.ExprRef)

class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Ptr:
    """alts: list of (guard, obj, off, mod).  guard: True or z3 Bool (mutually exclusive, exhaustive).
    obj: int id, None (null / integer address), or ('fn', name).  off: int or BV64.
    mod: (m, r): off == r mod m, for symbolic offsets."""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Ptr(%r)' % (self.alts,)

def NULL(): return Ptr([(True, None, 0, None)])
def mkptr(obj, off=0): return Ptr([(True, obj, off, None)])

class Agg:
    __slots__ = ('els',)
    def __init__(self, els): self.els = els

class Obj:
    __slots__ = ('size', 'cells', 'const', 'name', 'owner', 'live')
    def __init__(self, size, name, const=False):
        self.size, self.cells, self.const, self.name, self.owner, self.live = size, {}, const, name, None, True
    def copy(self, owner):
        o = Obj(self.size, self.name, self.const); o.cells = dict(self.cells); o.owner = owner; o.live = self.live; return o

    def ptrs(self):
        return any(c[2].k == 'ptr' for c in self.cells.values())
    def hits_ptr(self, off, size):
        return any(c[2].k == 'ptr' and b < off + size and b + c[0] > off for b, c in self.cells.items())

class State:
    __slots__ = ('pc', 'mem', 'tok', 'obs')
    def __init__(self): self.pc, self.mem, self.tok, self.obs = (), {}, object(), {}
    def fork(self):
        s = State(); s.pc = self.pc; s.mem = dict(self.mem); s.obs = dict(self.obs); self.tok = object(); return s
    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.tok:
            o = o.copy(self.tok); self.mem[oid] = o
        return o

@functools.lru_cache(maxsize=None)
def snap(f, k):
    """real mode: the ideal value of a float constant, i.e. the simplest rational that rounds to it (1/6, 49/50, ...), or the float itself"""
    x = Fraction(f)
    if x == 0 or x.denominator == 1: return x
    p = 24 if k == 'f32' else 53
    s = -1 if x < 0 else 1; a = abs(x)
    e = math.floor(math.log2(a))
    if Fraction(2) ** e > a: e -= 1
    if Fraction(2) ** (e + 1) <= a: e += 1
    h = Fraction(2) ** (e - p)
    lo, hi = a - h, a + h
    def simplest(lo, hi):
        fl = lo.numerator // lo.denominator
        if fl == lo: return Fraction(fl)
        if fl + 1 <= hi: return Fraction(fl + 1)
        return fl + 1 / simplest(1 / (hi - fl), 1 / (lo - fl))
    r = simplest(lo, hi)
    return s * r if r.denominator <= 10000 and r.numerator <= 10000 else x

class Obligation:
    def __init__(self, kind, label, pc, cond, extra=None):
        self.kind, self.label, self.pc, self.cond, self.extra = kind, label, pc, cond, extra
        self.status = None; self.time = 0.0; self.solver = None; self.model = None

class Cut(Exception):
    pass

def zb(v):
    """bool value -> z3 Bool"""
    return z3.BoolVal(v) if isinstance(v, bool) else v

def band(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return z3.And(a, b)
def bor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return z3.Or(a, b)
def bnot(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)

FB = {n: z3.Function('floatbits%d' % n, z3.RealSort(), z3.BitVecSort(n)) for n in (32, 64)}
class FloatTy:
    def __init__(self, n): self.k, self.a = ('f32' if n == 32 else 'f64'), None

def _ext(t):
    """(base, signed): t is the extension of base"""
    w = t.size(); k = t.decl().kind()
    if z3.is_bv_value(t):
        v = t.as_signed_long(); m = max((-v - 1 if v < 0 else v).bit_length() + 1, 1)
        return (z3.BitVecVal(v, m), True) if m < w else (t, False)
    if k == z3.Z3_OP_ZERO_EXT: b, s = _ext(t.arg(0)); return (b, False) if not s or b.eq(t.arg(0)) else (t.arg(0), False)
    if k == z3.Z3_OP_SIGN_EXT: b, s = _ext(t.arg(0)); return (b, True) if s or b.eq(t.arg(0)) else (b, False)
    if k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and t.num_args() == 2: return (t.arg(1), False)
    if k in (z3.Z3_OP_BASHR, z3.Z3_OP_BLSHR) and z3.is_bv_value(t.arg(1)) and 0 < t.arg(1).as_long() < w:
        return (z3.simplify(z3.Extract(w - 1, t.arg(1).as_long(), t.arg(0))), k == z3.Z3_OP_BASHR)
    if k == z3.Z3_OP_BAND and t.num_args() == 2:
        for i in (0, 1):
            if z3.is_bv_value(t.arg(i)):
                v = t.arg(i).as_long()
                if v and v & (v + 1) == 0 and v.bit_length() < w: return (z3.simplify(z3.Extract(v.bit_length() - 1, 0, t.arg(1 - i))), False)
    return (t, False)
def _zx(t, w): return z3.ZeroExt(w - t.size(), t) if t.size() < w else (z3.Extract(w - 1, 0, t) if t.size() > w else t)
def big(e, n):
    """more than n distinct nodes"""
    seen, st = set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id()); st += t.children()
        if len(seen) > n: return True
    return False
def mulabstract(exprs):
    """the assertions with every recorded 16x16 product replaced by a variable known only through linear bounds (weaker, so unsat carries over)"""
    exprs = [z3.simplify(e) for e in exprs]
    seen, stack, sub, ms = set(), list(exprs), [], {}
    def narrow(t): return t.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and t.arg(0).size() >= 16
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id()); stack += t.children()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and not any(z3.is_bv_value(c) for c in t.children()):
            if t.size() == 32 and narrow(t.arg(0)) and narrow(t.arg(1)): u, v = [_zx(t.arg(i).arg(1) if t.arg(i).num_args() == 2 else z3.simplify(z3.Extract(15, 0, t.arg(i))), 16) for i in (0, 1)]
            elif t.size() == 16: u, v = t.arg(0), t.arg(1)
            else: continue
            k = frozenset((u.get_id(), v.get_id()))
            if k not in ms: ms[k] = (z3.BitVec('mul!%d' % len(ms), 32), u, v)
            sub.append((t, ms[k][0] if t.size() == 32 else z3.Extract(15, 0, ms[k][0])))
    f = lambda e: z3.substitute(e, *sub)
    out = [f(e) for e in exprs]; w = 40
    for P, u, v in ms.values():
        p, u, v = z3.ZeroExt(w - 32, P), z3.ZeroExt(w - 16, f(u)), z3.ZeroExt(w - 16, f(v))
        for hu in (0, 1):
            for hv in (0, 1):
                g = z3.And(z3.Extract(15, 15, u) == hu, z3.Extract(15, 15, v) == hv)
                lu, uu, lv, uv = 32768 * hu, 32767 + 32768 * hu, 32768 * hv, 32767 + 32768 * hv
                out.append(z3.Implies(g, z3.And(p >= lu * lv, p <= uu * uv)))
    return out
def mulsplit(a, b, n):
    """product through canonical unsigned 16x16 products, so that decompositions of one product share their parts (exact modulo 2^n)"""
    (x, sx), (y, sy) = _ext(a), _ext(b)
    if z3.is_bv_value(x) or z3.is_bv_value(y): return a * b
    r = z3.BitVecVal(0, n)
    ch = lambda t: [_zx(z3.simplify(z3.Extract(min(i + 15, t.size() - 1), i, t)), 32) for i in range(0, t.size(), 16)]
    for i, p in enumerate(ch(x)):
        for j, q in enumerate(ch(y)):
            if 16 * (i + j) >= n: continue
            if p.get_id() > q.get_id(): u, v = q, p
            else: u, v = p, q
            P = u * v
            r = r + (_zx(P, n) << (16 * (i + j)))
    if sx and x.size() < n: r = r - z3.If(z3.Extract(x.size() - 1, x.size() - 1, x) == 1, _zx(y, n) << x.size(), z3.BitVecVal(0, n))
    if sy and y.size() < n: r = r - z3.If(z3.Extract(y.size() - 1, y.size() - 1, y) == 1, _zx(x, n) << y.size(), z3.BitVecVal(0, n))
    if sx and sy and x.size() + y.size() < n:
        r = r + z3.If(z3.And(z3.Extract(x.size() - 1, x.size() - 1, x) == 1, z3.Extract(y.size() - 1, y.size() - 1, y) == 1), z3.BitVecVal(1 << (x.size() + y.size()), n), z3.BitVecVal(0, n))
    return r

class Engine:
    def __init__(self, module, mode='fp', unwind=64, config=None, concrete=None, demangled=None):
        self.m, self.mode, self.unwind = module, mode, unwind
        self.cfg = config or {}
        self.obls = []
        self.nondets = {}      # (name, idx) -> (kind, term)
        self.concrete = concrete   # dict (name, idx) -> python value: concrete run
        self.stats = dict(blocks=0, edges=0, merges=0, calls=0, feas=0, feas_t=0.0)
        self.encoded = set()
        self.side = []         # global side constraints (definitions of fresh variables)
        self.nobj = 1
        self.fresh_n = 0
        self.globs = {}
        self.fp_src = {}       # ast id of FP term -> BV term it was made from
        self.keep = []
        self.stubs = {}
        self.dem = demangled or {}
        self.feas_solver = None
        self.deadline = None
        self.observed = []
        self.unsupported = []
        self.depth = 0
        self.fncount = {}

    # ------------------------------------------------------------ helpers
    def fresh(self, sort, hint='u'):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (hint, self.fresh_n), sort)
    def fsort(self, k):
        if self.mode == 'real': return z3.RealSort()
        return S32 if k == 'f32' else S64
    def fval(self, v, k):
        """concrete or symbolic -> z3 term"""
        if isz(v): return v
        if v is UNDEF: return self.fresh(self.fsort(k))
        if self.mode == 'real':
            return z3.RealVal(str(v) if isinstance(v, Fraction) else v)
        if v != v: return z3.fpNaN(self.fsort(k))
        if math.isinf(v): return z3.fpPlusInfinity(self.fsort(k)) if v > 0 else z3.fpMinusInfinity(self.fsort(k))
        if v == 0.0 and math.copysign(1, v) < 0: return z3.fpMinusZero(self.fsort(k))
        return z3.FPVal(v, self.fsort(k))
    def ival(self, v, n):
        if isz(v): return v
        if v is UNDEF: return self.fresh(z3.BitVecSort(n))
        return z3.BitVecVal(int(v), n)
    def bval(self, v):
        if v is UNDEF: return self.fresh(z3.BoolSort())
        return zb(v)
    def to_bv(self, v, ty):
        """any scalar value -> int or BV of its storage width"""
        if ty.k == 'i':
            if ty.a == 1:
                if isinstance(v, bool): return int(v)
                return z3.If(self.bval(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if v is UNDEF: return self.ival(v, self.m.size(ty) * 8)
            return v
        if ty.k in ('f32', 'f64'):
            n = 32 if ty.k == 'f32' else 64
            if v is UNDEF: return self.fresh(z3.BitVecSort(n))
            if not isz(v):
                if self.mode == 'real':
                    if v == 0: return 0
                    return f2bits(frac_to_f(v, ty.k), ty.k)
                return f2bits(v, ty.k)
            if self.mode == 'real':
                return FB[n](v)
            if v.get_id() in self.fp_src: return self.fp_src[v.get_id()]
            b = self.fresh(z3.BitVecSort(n), 'fb')
            self.side.append(z3.fpBVToFP(b, self.fsort(ty.k)) == v)
            # canonical quiet NaN, as the x86 FPU produces for generated NaNs (sign is left free)
            self.fp_src[v.get_id()] = b; self.keep.append(v)
            return b
        if ty.k == 'ptr':
            if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is None: return v.alts[0][2]
            raise Unsupported('bytes of pointer')
        raise Unsupported('to_bv %r' % ty)
    def from_bv(self, b, ty):
        if ty.k == 'i':
            if ty.a == 1:
                if isinstance(b, int): return bool(b & 1)
                return z3.Extract(0, 0, b) == 1
            n = self.m.size(ty) * 8
            if n != ty.a and isz(b): return z3.Extract(ty.a - 1, 0, b)
            return b
        if ty.k in ('f32', 'f64'):
            if isinstance(b, int):
                f = bits2f(b, ty.k)
                if self.mode == 'real':
                    if f != f or math.isinf(f): return self.special(f)
                    return snap(f, ty.k)
                return f
            if self.mode == 'real':
                return self.fb_value(b)
            t = z3.fpBVToFP(b, self.fsort(ty.k))
            self.fp_src[t.get_id()] = b; self.keep.append(t)
            return t
        if ty.k == 'ptr':
            if isinstance(b, int): return Ptr([(True, None, b, None)])
            raise Unsupported('symbolic integer as pointer')
        raise Unsupported('from_bv')
    def special(self, f):
        """inf / nan in real mode: only representable as a tagged unconstrained constant"""
        return self.fresh(z3.RealSort(), 'nonfinite')

    # bit patterns of real-mode floats: the idioms |x|, -x, sign(x), copysign and magnitude comparisons
    def fb_match(self, b):
        """-> ('id'|'abs'|'neg'|'sign', x) or None"""
        if not z3.is_app(b): return None
        nm = b.decl().name()
        if nm in ('floatbits32', 'floatbits64'): return ('id', b.arg(0))
        k = b.decl().kind()
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BXOR, z3.Z3_OP_BOR) and b.num_args() == 2:
            x, y = b.arg(0), b.arg(1)
            if z3.is_bv_value(x): x, y = y, x
            if not z3.is_bv_value(y): return None
            m = self.fb_match(x)
            if m is None: return None
            n = b.size(); c = y.as_long(); top = 1 << (n - 1)
            val = {'id': lambda v: v, 'abs': lambda v: z3.If(v >= 0, v, -v), 'neg': lambda v: -v}.get(m[0])
            if val is None: return None
            v = val(m[1])
            if k == z3.Z3_OP_BAND and c == top - 1: return ('abs', m[1])
            if k == z3.Z3_OP_BAND and c == top: return ('sign', v)
            if k == z3.Z3_OP_BXOR and c == top: return ('neg', m[1]) if m[0] == 'id' else ('id', -v)
            if k == z3.Z3_OP_BOR and c == top: return ('id', -z3.If(v >= 0, v, -v))
        return None
    def fb_value(self, b):
        if z3.is_bv_value(b):
            n = b.size(); return self.from_bv(b.as_long(), FloatTy(n))
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
            n = b.size(); k = 'f32' if n == 32 else 'f64'
            return z3.If(b.arg(0), self.fval(self.fb_value(b.arg(1)), k), self.fval(self.fb_value(b.arg(2)), k))
        m = self.fb_match(b)
        if m:
            if m[0] == 'id': return m[1]
            if m[0] == 'abs': return z3.If(m[1] >= 0, m[1], -m[1])
            if m[0] == 'neg': return -m[1]
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_BOR and b.num_args() == 2:
            x, y = self.fb_match(b.arg(0)), self.fb_match(b.arg(1))
            if x and y and y[0] == 'abs' and x[0] == 'sign': x, y = y, x
            if x and y and x[0] == 'abs' and y[0] == 'sign':
                a = z3.If(x[1] >= 0, x[1], -x[1])
                return z3.If(y[1] < 0, -a, a)
        raise Unsupported('float from symbolic bits in real mode')
    def fb_icmp(self, pred, a, b, n):
        """comparison of float bit patterns in real mode, or None"""
        if n not in (32, 64): return None
        k = 'f32' if n == 32 else 'f64'
        ma = self.fb_match(a) if isz(a) else None
        mb = self.fb_match(b) if isz(b) else None
        if ma is None and mb is None: return None
        if ma is None:
            sw = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}
            return self.fb_icmp(sw[pred], b, a, n)
        if isz(b) and z3.is_bv_value(b): b = b.as_long()
        absv = lambda m: z3.If(m[1] >= 0, m[1], -m[1])
        if isinstance(b, int):
            if ma[0] == 'sign':
                if b in (0, 1 << (n - 1)) and pred in ('eq', 'ne'): return (ma[1] < 0) if (pred == 'ne') == (b == 0) else z3.Not(ma[1] < 0)
                return None
            if ma[0] == 'abs':
                v = absv(ma); p = pred[1:] if pred not in ('eq', 'ne') else pred
                f = bits2f(b, k) if b < (1 << (n - 1)) else float('inf')
                if f != f or math.isinf(f): return {'eq': False, 'ne': True, 'lt': True, 'le': True, 'gt': False, 'ge': False}[p]
                c = z3.RealVal(str(snap(f, k)))
                return {'eq': v == c, 'ne': v != c, 'lt': v < c, 'le': v <= c, 'gt': v > c, 'ge': v >= c}[p]
            v = ma[1] if ma[0] == 'id' else -ma[1]
            if pred in ('eq', 'ne'):
                f = bits2f(b, k)
                if f != f or math.isinf(f): return pred == 'ne'
                c = z3.RealVal(str(snap(f, k)))
                return v == c if pred == 'eq' else v != c
            if b == 0 and pred == 'slt': return v < 0
            if b == 0 and pred == 'sge': return v >= 0
            if b == (1 << n) - 1 and pred == 'sgt': return v >= 0
            return None
        if mb is not None and ma[0] == 'abs' and mb[0] == 'abs':
            v, w = absv(ma), absv(mb); p = pred[1:] if pred not in ('eq', 'ne') else pred
            return {'eq': v == w, 'ne': v != w, 'lt': v < w, 'le': v <= w, 'gt': v > w, 'ge': v >= w}[p]
        if mb is not None and pred in ('eq', 'ne') and ma[0] in ('id', 'neg') and mb[0] in ('id', 'neg'):
            v = ma[1] if ma[0] == 'id' else -ma[1]; w = mb[1] if mb[0] == 'id' else -mb[1]
            return v == w if pred == 'eq' else v != w
        return None

    def ite(self, g, a, b, ty=None):
        if g is True: return a
        if g is False: return b
        if a is b: return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, Ptr) and isinstance(b, Ptr): return self.ptr_ite(g, a, b)
        if isinstance(a, Agg): return Agg([self.ite(g, x, y) for x, y in zip(a.els, b.els)])
        if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
            if is_c(a) and is_c(b):
                if a == b: return a
                return g if a else bnot(g)
            if isz(a) and isz(b) and a.eq(b): return a
            if a is True: return bor(g, b)
            if a is False: return band(bnot(g), b)
            if b is True: return bor(bnot(g), a)
            if b is False: return band(g, a)
            return z3.If(g, a, b)
        if is_c(a) and is_c(b):
            if type(a) == type(b) and a == b and not (isinstance(a, float) and (a != a or math.copysign(1, a) != math.copysign(1, b))):
                return a
            if isinstance(a, float) and a != a and b != b: return a
        if isz(a) and isz(b) and a.eq(b): return a
        n = None
        if isz(a): ref = a
        elif isz(b): ref = b
        else: ref = None
        if ref is None:
            if isinstance(a, int) and not isinstance(a, bool):
                if ty is None: raise Unsupported('ite of untyped ints')
                w = ty.a if ty.k == 'i' else 64
                return z3.If(g, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
            k = ty.k if ty is not None else 'f32'
            r = z3.If(g, self.fval(a, k), self.fval(b, k))
            if self.mode == 'fp':
                self.fp_src[r.get_id()] = z3.If(g, self.bits_of(a, None, k), self.bits_of(b, None, k)); self.keep.append(r)
            return r
        if z3.is_bv(ref):
            w = ref.size()
            r = z3.If(g, self.ival(a, w), self.ival(b, w))
            return r
        if z3.is_fp(ref):
            k = 'f32' if ref.sort() == S32 else 'f64'
            fa, fb = self.fval(a, k), self.fval(b, k)
            r = z3.If(g, fa, fb)
            ba, bb = self.bits_of(a, fa, k), self.bits_of(b, fb, k)
            if ba is not None and bb is not None:
                self.fp_src[r.get_id()] = z3.If(g, ba, bb); self.keep.append(r)
            return r
        return z3.If(g, self.fval(a, 'f32'), self.fval(b, 'f32'))

    def bits_of(self, v, t, k):
        """known bit pattern of a float value (keeps NaN payloads through merges), or None"""
        n = 32 if k == 'f32' else 64
        if is_c(v): return z3.BitVecVal(f2bits(v, k), n)
        return self.fp_src.get(t.get_id())

    def ptr_ite(self, g, a, b):
        if len(a.alts) == 1 and len(b.alts) == 1:
            _, oa, fa, ma = a.alts[0]; _, ob, fb, mb = b.alts[0]
            if oa == ob and isinstance(fa, int) and isinstance(fb, int) and fa == fb: return a
            if oa == ob and isz(fa) and isz(fb) and fa.eq(fb): return a
        alts = {}
        for (src, gg) in ((a, g), (b, bnot(g))):
            for (c, o, f, m) in src.alts:
                c2 = band(gg, c)
                key = (o, f if isinstance(f, int) else ('s', f.get_id()))
                if key in alts:
                    alts[key] = (bor(alts[key][0], c2), o, f, m)
                else: alts[key] = (c2, o, f, m)
        # too many alternatives in one object: fold into a symbolic offset
        byobj = {}
        for al in alts.values(): byobj.setdefault(al[1], []).append(al)
        out = []
        for o, l in byobj.items():
            if len(l) == 1 or o is None or isinstance(o, tuple): out += l; continue
            if len(l) <= 3 and all(isinstance(x[2], int) for x in l): out += l; continue
            gr = False; off = None; mods = 0; base = None
            for (c, _, f, m) in l:
                mm, rr = (0, f) if isinstance(f, int) else (m if m else (1, 0))
                if base is None: base = rr
                mods = math.gcd(mods, math.gcd(mm, abs(rr - base)))
                t = self.ival(f, 64)
                off = t if off is None else z3.If(c, t, off)
                gr = bor(gr, c)
            mods = mods or 1
            out.append((gr, o, off, (mods, base % mods)))
        if len(out) == 1: out = [(True,) + out[0][1:]]
        return Ptr(out)

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name, const=False):
        oid = self.nobj; self.nobj += 1
        o = Obj(size, name, const); o.owner = st.tok; st.mem[oid] = o
        return oid

    def raw_read(self, st, oid, off, n):
        """n bytes at concrete offset -> int or BV (little endian)"""
        o = st.mem[oid]
        parts = []; p = off; end = off + n
        while p < end:
            c = o.cells.get(p); base = p
            if c is None:
                # cell starting before p that covers it?
                for b in range(p - 1, max(-1, p - 64), -1):
                    cc = o.cells.get(b)
                    if cc is not None:
                        if b + cc[0] > p: c, base = cc, b
                        break
                if c is None:
                    big = getattr(self, '_bigcells', None)
                    for b, cc in o.cells.items():
                        if cc[0] > 64 and b <= p < b + cc[0]: c, base = cc, b; break
            if c is None:
                parts.append((1, self.uninit(st, oid, p, 1, None))); p += 1; continue
            size, val, ty = c
            take = min(base + size, end) - p
            bv = self.to_bv(val, ty) if ty is not None else val
            lo = (p - base) * 8
            if isinstance(bv, int): piece = (bv >> lo) & ((1 << (8 * take)) - 1)
            elif lo == 0 and take == size: piece = bv
            else: piece = z3.Extract(lo + 8 * take - 1, lo, bv)
            parts.append((take, piece)); p += take
        if len(parts) == 1: return parts[0][1]
        if all(isinstance(x, int) for _, x in parts):
            r = 0; s = 0
            for k, x in parts: r |= x << s; s += 8 * k
            return r
        # recombine adjacent extracts of the same term
        ts = [self.ival(x, 8 * k) for k, x in parts]
        return z3.simplify(z3.Concat(*reversed(ts)))

    def uninit(self, st, oid, off, size, ty):
        o = st.mem[oid]
        if ty is not None and ty.k in ('f32', 'f64'):
            v = self.fresh(self.fsort(ty.k), 'un')
        elif ty is not None and ty.k == 'ptr':
            v = NULL()
        elif ty is not None and ty.k == 'i' and ty.a == 1:
            v = self.fresh(z3.BoolSort(), 'un')
        else:
            v = self.fresh(z3.BitVecSort(8 * size), 'un')
            ty = IntTy(8 * size) if ty is None else ty
            if ty.k == 'i' and ty.a != 8 * size: v = z3.Extract(ty.a - 1, 0, v)
        o = st.wobj(oid)
        o.cells[off] = (size, v, ty)
        return v

    def load_at(self, st, oid, off, ty):
        size = self.m.size(ty)
        if ty.k in ('struct', 'arr', 'vec'):
            els = []
            if ty.k == 'struct':
                for i, f in enumerate(ty.a): els.append(self.load_at(st, oid, off + self.m.field_off(ty, i), f))
            else:
                es = self.m.size(ty.b)
                for i in range(ty.a): els.append(self.load_at(st, oid, off + i * es, ty.b))
            return Agg(els)
        o = st.mem[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            cty = c[2]
            if cty.k == ty.k and (ty.k != 'i' or cty.a == ty.a): return c[1]
            if ty.k == 'ptr' and isinstance(c[1], Ptr): return c[1]
            return self.from_bv(self.to_bv(c[1], cty), ty)
        if c is None and not any(off - 16 < b < off + size or (cc[0] > 16 and b < off + size and b + cc[0] > off) for b, cc in o.cells.items() if b + cc[0] > off and b < off + size):
            return self.uninit(st, oid, off, size, ty)
        raw = self.raw_read(st, oid, off, size)
        return self.from_bv(raw, ty)

    def store_at(self, st, oid, off, v, ty):
        size = self.m.size(ty)
        if ty.k in ('struct', 'arr', 'vec'):
            if v is UNDEF: return
            if ty.k == 'struct':
                for i, f in enumerate(ty.a): self.store_at(st, oid, off + self.m.field_off(ty, i), v.els[i], f)
            else:
                es = self.m.size(ty.b)
                for i in range(ty.a): self.store_at(st, oid, off + i * es, v.els[i], ty.b)
            return
        o = st.wobj(oid)
        self.carve(o, off, size)
        o.cells[off] = (size, v, ty)

    def carve(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size: return
        hits = [(b, cc) for b, cc in o.cells.items() if b < off + size and b + cc[0] > off]
        for b, cc in hits:
            del o.cells[b]
            if b >= off and b + cc[0] <= off + size: continue
            bv = self.to_bv(cc[1], cc[2])
            for lo, hi in ((b, off), (off + size, b + cc[0])):
                if hi > lo and lo >= b:
                    w = (hi - lo)
                    if isinstance(bv, int): x = (bv >> ((lo - b) * 8)) & ((1 << (8 * w)) - 1)
                    else: x = z3.Extract((lo - b + w) * 8 - 1, (lo - b) * 8, bv)
                    o.cells[lo] = (w, x, IntTy(8 * w))

    def oblige(self, st, kind, label, cond):
        """require cond in st; afterwards assume it"""
        if cond is True: return
        c = cond if isinstance(cond, bool) else z3.simplify(cond)
        if isz(c) and z3.is_true(c): return
        if isz(c) and z3.is_false(c): c = False
        if not self.cfg.get('ignore_' + kind):
            self.obls.append(Obligation(kind, label, st.pc, c if isz(c) else z3.BoolVal(c)))
        if c is False: raise Cut()
        st.pc = st.pc + (c,)

    def deref_alts(self, st, p, size, what, write):
        """checks, then returns list of (guard, oid, offset(int or BV), mod)"""
        if p is UNDEF: p = NULL()
        if not isinstance(p, Ptr): raise Unsupported('deref of non pointer')
        good = []; badg = False
        for (g, o, f, m) in p.alts:
            if o is None or isinstance(o, tuple):
                badg = bor(badg, g); continue
            ob = st.mem.get(o)
            if ob is None:
                badg = bor(badg, g); continue
            if isinstance(f, int):
                fs = f - (1 << 64) if f >= (1 << 63) else f
                if fs < 0 or fs + size > ob.size: badg = bor(badg, g); continue
                good.append((g, o, fs, None))
            else:
                if ob.size < size: badg = bor(badg, g); continue
                inb = z3.ULE(f, z3.BitVecVal(ob.size - size, 64))
                badg = bor(badg, band(g, z3.Not(inb)))
                good.append((g, o, f, m))
        self.oblige(st, 'mem', 'memory-safety: out-of-bounds or null %s in %s' % (what, self.curfn), bnot(badg))
        if not good: raise Cut()
        return good

    def cand_offsets(self, ob, f, m, size, st, want_ptr=False):
        mod, r = m if m else (1, 0)
        al = 1
        if mod == 1: al = size if size in (1, 2, 4, 8) else 1
        res = []
        for c in range(0, ob.size - size + 1):
            if mod > 1 and c % mod != r % mod: continue
            if mod == 1 and c % al: continue
            if ob.ptrs() and ob.hits_ptr(c, size) and not want_ptr:
                if not self.feasible(st.pc + (f == c,)): continue
                raise Unsupported('symbolic access overlapping a pointer field')
            res.append(c)
        if len(res) > self.cfg.get('max_cands', 600): raise Unsupported('too many symbolic offsets (%d)' % len(res))
        return res

    def load(self, st, p, ty):
        size = self.m.size(ty)
        al = self.deref_alts(st, p, size, 'read', False)
        res = None
        for (g, o, f, m) in al:
            if isinstance(f, int):
                try: v = self.load_at(st, o, f, ty)
                except Unsupported:
                    if isz(g) and len(al) > 1 and not self.feasible(st.pc + (g,)): continue
                    raise
            else:
                v = None
                ob = st.mem[o]
                fs = z3.simplify(f)
                if z3.is_bv_value(fs):
                    v = self.load_at(st, o, fs.as_long(), ty)
                else:
                    for c in reversed(self.cand_offsets(ob, f, m, size, st, ty.k == 'ptr')):
                        x = self.load_at(st, o, c, ty)
                        v = x if v is None else self.ite(f == c, x, v, ty)
            res = v if res is None else self.ite(g, v, res, ty)
        return res

    def store(self, st, p, v, ty):
        size = self.m.size(ty)
        al = self.deref_alts(st, p, size, 'write', True)
        for (g, o, f, m) in al:
            ob = st.mem[o]
            if ob.const:
                self.oblige(st, 'mem', 'memory-safety: write to constant %s' % ob.name, bnot(g)); continue
            if isz(f):
                fs = z3.simplify(f)
                if z3.is_bv_value(fs): f = fs.as_long()
            if isinstance(f, int):
                if g is True: self.store_at(st, o, f, v, ty)
                else: self.store_at(st, o, f, self.ite(g, v, self.load_at(st, o, f, ty), ty), ty)
            else:
                for c in self.cand_offsets(ob, f, m, size, st, ty.k == 'ptr'):
                    cond = band(g, f == c)
                    self.store_at(st, o, c, self.ite(cond, v, self.load_at(st, o, c, ty), ty), ty)

    def memset(self, st, p, b, n):
        if isz(n):
            n2 = z3.simplify(n)
            if z3.is_bv_value(n2): n = n2.as_long()
        if isz(n):
            mx = max((st.mem[o].size for (_, o, _, _) in p.alts if o in st.mem), default=0)
            for i in range(mx):
                c = z3.UGT(n, z3.BitVecVal(i, 64))
                sub = st.fork(); sub.pc = sub.pc + (c,)
                if not self.feasible(sub.pc): break
                q = self.ptr_add(p, i, 1)
                try:
                    old = self.load(sub, q, IntTy(8))
                except Cut:
                    old = 0
                st.mem = dict(sub.mem); st.tok = object()
                self.store(st, q, self.ite(c, b, old, IntTy(8)), IntTy(8)) if True else None
            return
        if n == 0: return
        al = self.deref_alts(st, p, n, 'memset', True)
        for (g, o, f, m) in al:
            if g is True and isinstance(f, int):
                ob = st.wobj(o); self.carve(ob, f, n)
                if isinstance(b, int):
                    v = int.from_bytes(bytes([b & 255]) * n, 'little'); ob.cells[f] = (n, v, IntTy(8 * n))
                else:
                    for i in range(n): ob.cells[f + i] = (1, b, IntTy(8))
            else: raise Unsupported('guarded memset')

    def memcpy(self, st, d, s, n):
        if isz(n):
            n2 = z3.simplify(n)
            if z3.is_bv_value(n2): n = n2.as_long()
        if isz(n):
            # symbolic length: bounded by the destination object sizes; byte-wise guarded copy
            mx = max([st.mem[o].size for (_, o, _, _) in d.alts if o in st.mem] + [0])
            mx = max([mx] + [st.mem[o].size for (_, o, _, _) in s.alts if o in st.mem])
            # bounds: largest feasible n must be in bounds -> check via the last byte
            snap = []
            for (p, what) in ((d, 'memcpy write'), (s, 'memcpy read')):
                bad = False
                for (g, o, f, m) in p.alts:
                    if o is None or o not in st.mem: bad = bor(bad, band(g, n != 0)); continue
                    room = z3.BitVecVal(st.mem[o].size, 64) - self.ival(f, 64)
                    bad = bor(bad, band(g, z3.UGT(n, room)))
                self.oblige(st, 'mem', 'memory-safety: out-of-bounds %s in %s' % (what, self.curfn), bnot(bad))
            vals = []
            for i in range(mx):
                ok = all(isinstance(f, int) and o in st.mem and f + i < st.mem[o].size for (_, o, f, _) in s.alts)
                if not ok: break
                if i and not self.feasible(st.pc + (z3.UGT(n, z3.BitVecVal(i, 64)),)): break
                vals.append(self.load(st, self.ptr_add(s, i, 1), IntTy(8)))
            for i, v in enumerate(vals):
                q = self.ptr_add(d, i, 1)
                if not all(isinstance(f, int) and o in st.mem and f < st.mem[o].size for (_, o, f, _) in q.alts): break
                old = self.load(st, q, IntTy(8))
                self.store(st, q, self.ite(z3.UGT(n, z3.BitVecVal(i, 64)), v, old, IntTy(8)), IntTy(8))
            return
        if n == 0: return
        da = self.deref_alts(st, d, n, 'memcpy', True); sa = self.deref_alts(st, s, n, 'memcpy', False)
        if len(da) == 1 and len(sa) == 1 and da[0][0] is True and sa[0][0] is True and isinstance(da[0][2], int) and isinstance(sa[0][2], int):
            so, sf = sa[0][1], sa[0][2]; do, df = da[0][1], da[0][2]
            src = st.mem[so]; tmp = []
            for b, c in sorted(src.cells.items()):
                if b + c[0] <= sf or b >= sf + n: continue
                if b >= sf and b + c[0] <= sf + n: tmp.append((b - sf, c))
                else:
                    lo, hi = max(b, sf), min(b + c[0], sf + n)
                    tmp.append((lo - sf, (hi - lo, self.raw_read(st, so, lo, hi - lo), IntTy(8 * (hi - lo)))))
            ob = st.wobj(do)
            if n: self.carve(ob, df, n); ob.cells.pop(df, None) if df in ob.cells and ob.cells[df][0] <= n else None
            for off, c in tmp: ob.cells[df + off] = c
            return
        # general: element-wise with word-sized pieces
        step = 4 if n % 4 == 0 else 1
        ety = self.cfg.get('memcpy_ty', IntTy(8 * step) if self.mode == 'fp' or step == 1 else F32)
        vals = [self.load(st, self.ptr_add(s, i, 1), ety) for i in range(0, n, step)]
        for k, i in enumerate(range(0, n, step)):
            self.store(st, self.ptr_add(d, i, 1), vals[k], ety)

    # ------------------------------------------------------------ pointers
    def ptr_add(self, p, idx, scale):
        if p is UNDEF: p = NULL()
        out = []
        for (g, o, f, m) in p.alts:
            if isinstance(o, tuple): out.append((g, o, f, m)); continue
            if isinstance(idx, int):
                i = idx - (1 << 64) if idx >= (1 << 63) else idx
                if isinstance(f, int):
                    out.append((g, o, (f + i * scale) & ((1 << 64) - 1) if (f + i * scale) < 0 else f + i * scale, None))
                else:
                    k = i * scale
                    out.append((g, o, f + z3.BitVecVal(k, 64) if k else f, (m[0], (m[1] + k) % m[0]) if m else None))
            else:
                t = idx * z3.BitVecVal(scale, 64) if scale != 1 else idx
                if isinstance(f, int):
                    nf = t + z3.BitVecVal(f, 64) if f else t; nm = (scale, f % scale) if scale else (1, 0)
                else:
                    nf = f + t; mm = math.gcd(m[0], scale) if m else 1; nm = (mm, (m[1] if m else 0) % mm)
                out.append((g, o, nf, nm))
        return Ptr(out)

    def ptr_cmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return self.fresh(z3.BoolSort())
        res = False
        for (ga, oa, fa, _) in a.alts:
            for (gb, ob, fb, _) in b.alts:
                g = band(ga, gb)
                if g is False: continue
                if oa == ob:
                    if isinstance(oa, tuple): c = {'eq': True, 'ne': False}.get(pred)
                    else: c = self.icmp(pred, fa, fb, 64)
                else:
                    if pred in ('eq', 'ne'): c = (pred == 'ne')
                    elif oa is None: c = pred in ('ult', 'ule', 'slt', 'sle')
                    elif ob is None: c = pred in ('ugt', 'uge', 'sgt', 'sge')
                    else: c = self.fresh(z3.BoolSort(), 'pcmp')
                res = bor(res, band(g, c))
        return res

    # ------------------------------------------------------------ arithmetic
    def icmp(self, pred, a, b, n):
        if a is UNDEF or b is UNDEF: return self.fresh(z3.BoolSort())
        if isinstance(a, int) and isinstance(b, int):
            a, b = int(a), int(b)
            if pred[0] == 's':
                h = 1 << (n - 1); a = a - (1 << n) if a & h else a; b = b - (1 << n) if b & h else b
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]]
        if n == 1:
            a, b = self.bval(a), self.bval(b)
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            raise Unsupported('icmp i1 ' + pred)
        if self.mode == 'real':
            r = self.fb_icmp(pred, a, b, n)
            if r is not None: return r
        a, b = self.ival(a, n), self.ival(b, n)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return r

    def sgn(self, v, n):
        return v - (1 << n) if v >> (n - 1) else v

    def ibin(self, st, op, a, b, n, flags):
        if n == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                return {'xor': a != b, 'and': a and b, 'or': a or b, 'add': a != b}[op]
            if a is UNDEF: a = self.fresh(z3.BoolSort())
            if b is UNDEF: b = self.fresh(z3.BoolSort())
            if op == 'xor':
                if b is True: return bnot(a)
                if a is True: return bnot(b)
                if b is False: return a
                if a is False: return b
                return z3.Xor(a, b)
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            raise Unsupported('i1 ' + op)
        M = (1 << n) - 1
        if a is UNDEF: a = self.ival(a, n)
        if b is UNDEF: b = self.ival(b, n)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = self.sgn(a, n), self.sgn(b, n)
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b == 0:
                self.oblige(st, 'div0', 'division by zero in ' + self.curfn, False)
            if op == 'add': r = a + b; ov = not -(1 << n-1) <= sa + sb < (1 << n-1)
            elif op == 'sub': r = a - b; ov = not -(1 << n-1) <= sa - sb < (1 << n-1)
            elif op == 'mul': r = a * b; ov = not -(1 << n-1) <= sa * sb < (1 << n-1)
            elif op == 'and': return a & b
            elif op == 'or': return a | b
            elif op == 'xor': return a ^ b
            elif op in ('shl', 'lshr', 'ashr'):
                if b >= n:
                    if self.cfg.get('check_shift'): self.oblige(st, 'shift', 'oversized shift in ' + self.curfn, False)
                    b %= n   # x86 behaviour
                if op == 'shl': return (a << b) & M
                if op == 'lshr': return a >> b
                return (sa >> b) & M
            elif op == 'udiv': return a // b
            elif op == 'urem': return a % b
            elif op == 'sdiv':
                q = abs(sa) // abs(sb); q = -q if (sa < 0) != (sb < 0) else q; return q & M
            elif op == 'srem':
                r = abs(sa) % abs(sb); r = -r if sa < 0 else r; return r & M
            if flags and 'nsw' in flags and ov and self.cfg.get('check_overflow'):
                self.oblige(st, 'overflow', 'signed overflow in ' + self.curfn, False)
            return r & M
        # cheap identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if op == 'and' and b == M: return a
            if op in ('and', 'mul') and b == 0: return 0
            if op in ('mul', 'udiv', 'sdiv') and b == 1: return a
            if op == 'or' and b == M: return M
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'): return 0
            if op == 'and' and a == M: return b
            if op == 'mul' and a == 1: return b
        bc = isinstance(b, int)
        za, zbv = self.ival(a, n), self.ival(b, n)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, 'div0', 'division by zero in ' + self.curfn, zbv != 0 if not bc else b != 0)
        if flags and 'nsw' in flags and self.cfg.get('check_overflow') and op in ('add', 'sub', 'mul'):
            if op == 'add': c = z3.And(z3.BVAddNoOverflow(za, zbv, True), z3.BVAddNoUnderflow(za, zbv))
            elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(za, zbv), z3.BVSubNoUnderflow(za, zbv, True))
            else: c = z3.And(z3.BVMulNoOverflow(za, zbv, True), z3.BVMulNoUnderflow(za, zbv))
            self.oblige(st, 'overflow', 'signed overflow in ' + self.curfn, c)
        if op in ('shl', 'lshr', 'ashr') and not bc:
            if self.cfg.get('check_shift'):
                self.oblige(st, 'shift', 'oversized shift in ' + self.curfn, z3.ULT(zbv, z3.BitVecVal(n, n)))
            else:
                zbv = z3.If(z3.ULT(zbv, z3.BitVecVal(n, n)), zbv, zbv & z3.BitVecVal(n - 1, n))
        if op in ('shl', 'lshr', 'ashr') and bc and b >= n:
            if self.cfg.get('check_shift'): self.oblige(st, 'shift', 'oversized shift in ' + self.curfn, False)
            zbv = z3.BitVecVal(b % n, n)
        if op == 'add': return za + zbv
        if op == 'sub': return za - zbv
        if op == 'mul': return mulsplit(za, zbv, n) if self.cfg.get('mulsplit') and n in (32, 64) else za * zbv
        if op == 'and': return za & zbv
        if op == 'or': return za | zbv
        if op == 'xor': return za ^ zbv
        if op == 'shl': return za << zbv
        if op == 'lshr':
            if self.mode == 'real' and bc and b == n - 1:
                m = self.fb_match(za)
                if m:
                    if m[0] == 'abs': return 0
                    return z3.If((m[1] if m[0] != 'neg' else -m[1]) < 0, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
            return z3.LShR(za, zbv)
        if op == 'ashr': return za >> zbv
        if op == 'udiv': return z3.UDiv(za, zbv)
        if op == 'urem': return z3.URem(za, zbv)
        if op == 'sdiv': return za / zbv
        if op == 'srem': return z3.SRem(za, zbv)
        raise Unsupported(op)

    def fbin(self, st, op, a, b, k):
        if a is UNDEF: a = self.fresh(self.fsort(k))
        if b is UNDEF: b = self.fresh(self.fsort(k))
        if self.mode == 'real':
            if op == 'frem': raise Unsupported('frem')
            if op == 'fdiv':
                if is_c(a) and is_c(b) and b == 0: return self.special(float('nan'))    # a spelled-out NaN or infinity
                nz = (b != 0)
                if not self.cfg.get('ignore_fdiv0'):
                    self.oblige(st, 'fdiv0', 'real-mode division by zero in ' + self.curfn, nz if isinstance(nz, bool) else z3.simplify(nz))
                elif b == 0 if is_c(b) else False:
                    return self.fresh(z3.RealSort(), 'divz')
            if is_c(a) and is_c(b):
                a, b = Fraction(a), Fraction(b)
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
            if is_c(a):
                if a == 0 and op == 'fadd': return b
                if a == 0 and op in ('fmul', 'fdiv'): return Fraction(0)
                if a == 1 and op == 'fmul': return b
            if is_c(b):
                if b == 0 and op in ('fadd', 'fsub'): return a
                if b == 0 and op == 'fmul': return Fraction(0)
                if b == 1 and op in ('fmul', 'fdiv'): return a
            za, zc = self.fval(a, k), self.fval(b, k)
            if op == 'fadd': return za + zc
            if op == 'fsub': return za - zc
            if op == 'fmul': return za * zc
            if is_c(b): return za * z3.RealVal(str(1 / Fraction(b)))
            return za / zc
        if is_c(a) and is_c(b):
            return self.cfop(op, a, b, k)
        za, zc = self.fval(a, k), self.fval(b, k)
        ab = self.cfg.get('abstract', ())
        if op in ab:
            return self.uf_op(op, k, za, zc)
        if op == 'fadd': return z3.fpAdd(RNE, za, zc)
        if op == 'fsub': return z3.fpSub(RNE, za, zc)
        if op == 'fmul': return z3.fpMul(RNE, za, zc)
        if op == 'fdiv': return z3.fpDiv(RNE, za, zc)
        raise Unsupported(op)

    def uf_op(self, op, k, a, b):
        srt = self.fsort(k)
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id(): a, b = b, a
        return z3.Function('uf_%s_%s' % (op, k), srt, srt, srt)(a, b)

    def cfop(self, op, a, b, k):
        r = f32 if k == 'f32' else (lambda x: x)
        try:
            if op == 'fadd': return r(a + b)
            if op == 'fsub': return r(a - b)
            if op == 'fmul': return r(a * b)
            if op == 'fdiv':
                if b == 0:
                    if a == 0 or a != a: return float('nan')
                    return math.copysign(float('inf'), a) * math.copysign(1, b)
                return r(a / b)
            if op == 'frem':
                if b == 0 or math.isinf(a) or a != a or b != b: return float('nan')
                return r(math.fmod(a, b))
        except OverflowError:
            return float('inf')
        raise Unsupported(op)

    def fneg(self, a, k):
        if a is UNDEF: return a
        if is_c(a): return -a
        if self.mode == 'real': return -a
        t = z3.fpNeg(a)
        if a.get_id() in self.fp_src:
            b = self.fp_src[a.get_id()]; n = b.size()
            self.fp_src[t.get_id()] = b ^ z3.BitVecVal(1 << (n - 1), n); self.keep.append(t)
        return t
    def fabs(self, a, k):
        if is_c(a): return abs(a)
        if self.mode == 'real': return z3.If(a >= 0, a, -a)
        t = z3.fpAbs(a)
        if a.get_id() in self.fp_src:
            b = self.fp_src[a.get_id()]; n = b.size()
            self.fp_src[t.get_id()] = b & z3.BitVecVal((1 << (n - 1)) - 1, n); self.keep.append(t)
        return t

    def fcmp(self, pred, a, b, k):
        if pred == 'true': return True
        if pred == 'false': return False
        if a is UNDEF or b is UNDEF: return self.fresh(z3.BoolSort())
        if is_c(a) and is_c(b):
            un = (a != a) or (b != b)
            if pred == 'ord': return not un
            if pred == 'uno': return un
            c = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
            return (c and not un) if pred[0] == 'o' else (c or un)
        if self.mode == 'real':
            za, zc = self.fval(a, k), self.fval(b, k)
            if pred == 'ord': return True
            if pred == 'uno': return False
            return {'eq': lambda: za == zc, 'ne': lambda: za != zc, 'lt': lambda: za < zc, 'le': lambda: za <= zc,
                    'gt': lambda: za > zc, 'ge': lambda: za >= zc}[pred[1:]]()
        za, zc = self.fval(a, k), self.fval(b, k)
        un = lambda: z3.Or(z3.fpIsNaN(za), z3.fpIsNaN(zc))
        if pred == 'uno': return z3.fpIsNaN(za) if za.eq(zc) else un()
        if pred == 'ord': return z3.Not(un())
        base = {'eq': lambda: z3.fpEQ(za, zc), 'ne': lambda: z3.Not(z3.fpEQ(za, zc)), 'lt': lambda: z3.fpLT(za, zc),
                'le': lambda: z3.fpLEQ(za, zc), 'gt': lambda: z3.fpGT(za, zc), 'ge': lambda: z3.fpGEQ(za, zc)}
        p = pred[1:]
        if pred[0] == 'o':
            if p == 'ne': return z3.And(z3.Not(un()), z3.Not(z3.fpEQ(za, zc)))
            return base[p]()
        if p == 'ne': return z3.Not(z3.fpEQ(za, zc))
        if p == 'eq': return z3.Or(un(), z3.fpEQ(za, zc))
        neg = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[p]
        return z3.Not(base[neg]())

    def cast(self, st, op, v, t1, t2):
        if v is UNDEF and op not in ('bitcast',): 
            return UNDEF
        if op == 'trunc':
            if isinstance(v, int):
                r = v & ((1 << t2.a) - 1); return bool(r) if t2.a == 1 else r
            r = z3.Extract(t2.a - 1, 0, v)
            return (r == 1) if t2.a == 1 else r
        if op in ('zext', 'sext'):
            if t1.a == 1:
                one = 1 if op == 'zext' else (1 << t2.a) - 1
                if isinstance(v, bool): return one if v else 0
                return z3.If(v, z3.BitVecVal(one, t2.a), z3.BitVecVal(0, t2.a))
            if isinstance(v, int): return v if op == 'zext' else self.sgn(v, t1.a) & ((1 << t2.a) - 1)
            return (z3.ZeroExt if op == 'zext' else z3.SignExt)(t2.a - t1.a, v)
        if op in ('fptrunc', 'fpext'):
            if is_c(v):
                if self.mode == 'real':
                    if isinstance(v, float): return self.special(v)
                    # constants are rounded to the type the program really stores
                    f = frac_to_f(v, t2.k)
                    if math.isinf(f): return self.special(f)
                    return snap(f, t2.k)
                if isinstance(v, Fraction): return frac_to_f(v, t2.k)
                return f32(v) if t2.k == 'f32' else v
            if t1.k == 'f80': raise Unsupported('x86_fp80')
            if self.mode == 'real': return v
            return z3.fpFPToFP(RNE, v, self.fsort(t2.k))
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int):
                x = int(v)
                if op == 'sitofp': x = self.sgn(x, t1.a) if t1.a > 1 else -x
                if self.mode == 'real': return Fraction(x)
                return frac_to_f(Fraction(x), t2.k)
            if t1.a == 1: v = z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
            if self.mode == 'real':
                return z3.ToReal(z3.BV2Int(v, op == 'sitofp'))
            return z3.fpSignedToFP(RNE, v, self.fsort(t2.k)) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, v, self.fsort(t2.k))
        if op in ('fptosi', 'fptoui'):
            n = t2.a
            if is_c(v):
                if v != v or (isinstance(v, float) and math.isinf(v)): i = None
                else: i = math.trunc(v)
                if op == 'fptosi':
                    w = 32 if n <= 32 else 64
                    if i is None or not -(1 << w-1) <= i < (1 << w-1):
                        if self.cfg.get('check_fptoi'): self.oblige(st, 'fptoi', 'float to int conversion out of range in ' + self.curfn, False)
                        i = 1 << (w - 1)
                    return i & ((1 << n) - 1)
                if i is None or not -(1 << 63) <= i < (1 << 63):
                    if i is not None and n == 64 and 0 <= i < 1 << 64: return i
                    if self.cfg.get('check_fptoi'): self.oblige(st, 'fptoi', 'float to int conversion out of range in ' + self.curfn, False)
                    i = 1 << 63
                return i & ((1 << n) - 1)
            if self.mode == 'real':
                ti = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                lo, hi = (-(1 << n-1), (1 << n-1)) if op == 'fptosi' else (0, 1 << n)
                self.oblige(st, 'fptoi', 'float to int conversion out of range in ' + self.curfn, z3.And(ti >= lo, ti < hi))
                return z3.Int2BV(ti, n)
            k = t1.k
            if op == 'fptosi':
                w = 32 if n <= 32 else 64
                inr = z3.And(z3.fpGEQ(v, self.fval(-float(1 << w-1), k)), z3.fpLT(v, self.fval(float(1 << w-1), k)))
                if self.cfg.get('check_fptoi'): self.oblige(st, 'fptoi', 'float to int conversion out of range in ' + self.curfn, inr)
                r = z3.If(inr, z3.fpToSBV(RTZ, v, z3.BitVecSort(w)), z3.BitVecVal(1 << (w - 1), w))
                return r if w == n else z3.Extract(n - 1, 0, r)
            inr = z3.And(z3.fpGEQ(v, self.fval(-float(1 << 63), k)), z3.fpLT(v, self.fval(float(1 << 63), k)))
            if self.cfg.get('check_fptoi'): self.oblige(st, 'fptoi', 'float to unsigned conversion out of range in ' + self.curfn,
                                                         z3.And(z3.fpGT(v, self.fval(-1.0, k)), z3.fpLT(v, self.fval(float(1 << n), k))))
            r = z3.If(inr, z3.fpToSBV(RTZ, v, z3.BitVecSort(64)), z3.BitVecVal(1 << 63, 64))
            return r if n == 64 else z3.Extract(n - 1, 0, r)
        if op == 'bitcast':
            if t1.k == t2.k and (t1.k != 'i' or t1.a == t2.a): return v
            return self.from_bv(self.to_bv(v, t1), t2)
        if op == 'ptrtoint':
            if len(v.alts) == 1 and v.alts[0][1] is None: return v.alts[0][2]
            # model: each object lives at base 2^40*id
            r = None
            for (g, o, f, _) in v.alts:
                base = 0 if o is None else self.fnaddr(o[1]) if isinstance(o, tuple) else o << 32
                t = (base + f) if isinstance(f, int) else f + z3.BitVecVal(base, 64)
                r = t if r is None else self.ite(g, t, r, IntTy(64))
            return r
        if op == 'inttoptr':
            return self.int2ptr(v)
        raise Unsupported(op)

    def fnaddr(self, n):
        t = self.__dict__.setdefault('fn_addrs', {})
        if n not in t: t[n] = (len(t) + 1) << 44; self.__dict__.setdefault('fn_names', {})[t[n]] = n
        return t[n]
    def int2ptr(self, v):
        """an address that is a constant, or a choice between constants (pointers to member functions)"""
        names = self.__dict__.get('fn_names', {})
        def one(a): return (('fn', names[a]), 0) if a in names else (None, a)
        if isinstance(v, int): return Ptr([(True,) + one(v) + (None,)])
        alts = []
        def walk(e, g):
            if z3.is_bv_value(e): alts.append((z3.And(*g) if len(g) > 1 else g[0] if g else True,) + one(e.as_long()) + (None,))
            elif z3.is_app_of(e, z3.Z3_OP_ITE): walk(e.arg(1), g + [e.arg(0)]); walk(e.arg(2), g + [z3.Not(e.arg(0))])
            else: raise Unsupported('inttoptr symbolic')
        walk(z3.simplify(v) if isz(v) else v, [])
        return Ptr(alts)

    # ------------------------------------------------------------ constants
    def const(self, c):
        k = c.k
        if k == 'int': return bool(c.v) if c.ty.a == 1 else c.v
        if k == 'fp':
            v = c.v
            if c.ty.k == 'f80': return v
            if self.mode == 'real':
                if isinstance(v, float) and (v != v or math.isinf(v)): return self.special(v)
                return snap(v, c.ty.k)
            return v
        if k == 'null': return NULL()
        if k == 'undef':
            if c.ty.k in ('struct', 'arr', 'vec'):
                n = len(c.ty.a) if c.ty.k == 'struct' else c.ty.a
                return Agg([UNDEF] * n)
            return UNDEF
        if k == 'zero': return self.zero(c.ty)
        if k == 'agg': return Agg([self.const(x) for x in c.v])
        if k == 'glob': return self.global_ptr(c.v)
        if k == 'gep': return self.gep(c.v, [self.const(o[1]) if isinstance(o[1], Const) else o[1] for o in c.x], [o[0] for o in c.x])
        if k == 'cast': return self.cast(None, c.v, self.const(c.x[1]), c.x[0], c.ty)
        raise Unsupported('const ' + k)
    def zero(self, t):
        if t.k == 'i': return False if t.a == 1 else 0
        if t.k in ('f32', 'f64'): return Fraction(0) if self.mode == 'real' else 0.0
        if t.k == 'ptr': return NULL()
        if t.k == 'struct': return Agg([self.zero(x) for x in t.a])
        return Agg([self.zero(t.b) for _ in range(t.a)])
    def global_ptr(self, name):
        g = self.m.globals.get(name)
        if g is not None and g[0] == 'alias': return self.global_ptr(g[1])
        if name in self.m.funcs or name in self.m.decls: return mkptr(('fn', name))
        if name not in self.globs: raise Unsupported('unknown global ' + name)
        return mkptr(self.globs[name])
    def gep(self, bt, ops, tys):
        p = ops[0]; t = bt
        p = self.ptr_add(p, self.idx64(ops[1], tys[1]), self.m.size(bt))
        for o, ty in zip(ops[2:], tys[2:]):
            if t.k == 'struct':
                off = self.m.field_off(t, o); t = t.a[o]
                p = self.ptr_add(p, off, 1)
            else:
                t = t.b; p = self.ptr_add(p, self.idx64(o, ty), self.m.size(t))
        return p
    def idx64(self, v, ty):
        if v is UNDEF: return self.fresh(z3.BitVecSort(64))
        if isinstance(v, int): return self.sgn(v, ty.a) & ((1 << 64) - 1)
        if ty.a < 64: return z3.SignExt(64 - ty.a, v)
        return v

    def init_globals(self, st):
        for name, g in self.m.globals.items():
            if g[0] != 'var': continue
            try: sz = self.m.size(g[1])
            except Unsupported: continue
            self.globs[name] = self.new_obj(st, sz, name, False)
        for name, g in self.m.globals.items():
            if g[0] != 'var' or g[2] is None: continue
            if name.startswith('@llvm.'): continue
            try:
                v = self.const(g[2])
            except Unsupported:
                continue
            oid = self.globs[name]
            if g[2].k == 'zero' and self.m.size(g[1]) > 0:
                n = self.m.size(g[1]); st.mem[oid].cells[0] = (n, 0, IntTy(8 * n))
            else: self.store_at(st, oid, 0, v, g[1])
            st.mem[oid].const = g[3]
        st.tok = object()
        for o in st.mem.values(): o.owner = None
    def run_ctors(self, st):
        g = self.m.globals.get('@llvm.global_ctors')
        if not g: return
        for e in g[2].v:
            fn = e.v[1].v
            self.call(st, self.m.funcs[fn], [])

    # ------------------------------------------------------------ CFG info
    def finfo(self, f):
        if f.info is not None: return f.info
        succ = {}
        for n in f.order:
            t = f.blocks[n].insts[-1]
            if t.op == 'br': s = list(t.x)
            elif t.op == 'switch': s = [t.x[0]] + [c[1] for c in t.x[1]]
            else: s = []
            succ[n] = list(dict.fromkeys(s))
        entry = f.order[0]
        reach = set(); stk = [entry]
        while stk:
            b = stk.pop()
            if b in reach: continue
            reach.add(b); stk += succ[b]
        nodes = [b for b in f.order if b in reach]
        pred = {b: [] for b in nodes}
        for b in nodes:
            for s in succ[b]: pred[s].append(b)
        # dominators (simple iterative sets)
        dom = {b: set(nodes) for b in nodes}; dom[entry] = {entry}
        ch = True
        rpo = self._rpo(entry, succ)
        while ch:
            ch = False
            for b in rpo:
                if b == entry: continue
                nd = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in nodes:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s}); st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += pred[x]
        # loop chain per block (outermost first)
        hs = sorted(loops, key=lambda h: -len(loops[h]))
        chain = {b: [h for h in hs if b in loops[h]] for b in nodes}
        pos = {}
        def order(level_nodes, depth, header):
            # collapse inner loops
            rep = {}
            for b in level_nodes:
                c = chain[b]
                rep[b] = c[depth] if len(c) > depth else b
            reps = set(rep.values())
            g = {r: set() for r in reps}
            for b in level_nodes:
                for s in succ[b]:
                    if s in rep and rep[s] != rep[b] and s != header: g[rep[b]].add(rep[s])
            start = rep[header if header else entry]
            seen = set(); out = []
            def dfs(x):
                stack = [(x, iter(sorted(g[x], key=f.order.index)))]
                seen.add(x)
                while stack:
                    y, it = stack[-1]
                    for z in it:
                        if z not in seen:
                            seen.add(z); stack.append((z, iter(sorted(g[z], key=f.order.index)))); break
                    else:
                        out.append(y); stack.pop()
            dfs(start)
            for r in reps:
                if r not in seen: dfs(r)
            out.reverse()
            for i, r in enumerate(out): pos[(depth, header, r)] = i
            for r in reps:
                if r in loops and (depth < len(chain[r])) and chain[r][depth] == r and any(rep[b] == r for b in level_nodes):
                    order([b for b in level_nodes if rep[b] == r], depth + 1, r)
        order(nodes, 0, None)
        # liveness
        uses, defs, phiuse = {}, {}, {b: {} for b in nodes}
        for b in nodes:
            u, d = set(), set()
            for ph in f.blocks[b].phis: d.add(ph.dst)
            for ins in f.blocks[b].insts:
                for a in ins.args:
                    if isinstance(a, Local) and a.n not in d: u.add(a.n)
                if ins.dst: d.add(ins.dst)
            uses[b], defs[b] = u, d
        for b in nodes:
            for ph in f.blocks[b].phis:
                for a, src in zip(ph.args, ph.x):
                    if isinstance(a, Local): phiuse[b].setdefault(src, set()).add(a.n)
        live = {b: set(uses[b]) for b in nodes}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                o = set()
                for s in succ[b]:
                    o |= live[s] - {p.dst for p in f.blocks[s].phis} | phiuse[s].get(b, set())
                n = uses[b] | (o - defs[b])
                n |= {p.dst for p in f.blocks[b].phis if p.dst in n}
                if not n <= live[b]: live[b] |= n; ch = True
        for b in nodes: live[b] |= {p.dst for p in f.blocks[b].phis}
        tys = {}
        for t, n in f.params: tys[n] = t
        for b in nodes:
            for ins in f.blocks[b].phis + f.blocks[b].insts:
                if ins.dst:
                    t = ins.ty
                    if ins.op in ('icmp', 'fcmp'): t = IntTy(1)
                    if ins.op in ('alloca', 'getelementptr'): t = PTR
                    tys[ins.dst] = t
        exits = {b for b in nodes for h in chain[b] if any(s not in loops[h] for s in succ[b])}
        f.info = dict(exits=exits, loops=loops, chain=chain, pos=pos, live=live, tys=tys, entry=entry)
        return f.info
    def _rpo(self, entry, succ):
        seen, out = {entry}, []
        stack = [(entry, iter(succ[entry]))]
        while stack:
            y, it = stack[-1]
            for z in it:
                if z not in seen: seen.add(z); stack.append((z, iter(succ[z]))); break
            else: out.append(y); stack.pop()
        return out[::-1]

    # ------------------------------------------------------------ merging
    def merge_pc(self, pcs):
        """list of pc tuples -> (merged pc, [guard per state])"""
        n = min(len(p) for p in pcs); i = 0
        while i < n and all(p[i] is pcs[0][i] or p[i].eq(pcs[0][i]) for p in pcs[1:]): i += 1
        pre = pcs[0][:i]
        sufs = [p[i:] for p in pcs]
        return pre, sufs

    def merge2(self, A, B, info):
        """A, B: (state, env). returns merged"""
        sa, ea = A; sb, eb = B
        pre, (xa, xb) = self.merge_pc([sa.pc, sb.pc])
        self.stats['merges'] += 1
        # guard selecting A: one distinguishing branch condition is enough when complementary
        ga = None
        if xa and xb and bnot(xa[0]).eq(xb[0]):
            g = xa[0]
            ra, rb = xa[1:], xb[1:]
            extra = ()
            if ra or rb:
                if not ra: extra = (z3.Or(g, z3.And(*rb)),) if True else ()
                elif not rb: extra = (z3.Or(z3.Not(g), z3.And(*ra)),)
                else: extra = (z3.If(g, z3.And(*ra), z3.And(*rb)),)
            pc = pre + extra
        else:
            g = z3.And(*xa) if len(xa) != 1 else xa[0]
            if not xa: g = z3.BoolVal(True)
            o = z3.simplify(z3.Or(z3.And(*xa) if xa else z3.BoolVal(True), z3.And(*xb) if xb else z3.BoolVal(True)))
            pc = pre if z3.is_true(o) else pre + (o,)
        s = State(); s.pc = pc
        s.mem = {}
        for oid in sa.mem.keys() & sb.mem.keys():
            oa, ob = sa.mem[oid], sb.mem[oid]
            if oa is ob: s.mem[oid] = oa; continue
            s.mem[oid] = self.merge_obj(s, g, oa, ob, sa, sb, oid)
        for oid in sa.mem.keys() - sb.mem.keys(): s.mem[oid] = sa.mem[oid]
        for oid in sb.mem.keys() - sa.mem.keys(): s.mem[oid] = sb.mem[oid]
        env = {}
        tys = info['tys']
        for n in ea.keys() | eb.keys():
            a, b = ea.get(n, UNDEF), eb.get(n, UNDEF)
            env[n] = a if a is b else self.ite(g, a, b, tys.get(n))
        for k in sa.obs.keys() | sb.obs.keys():
            s.obs[k] = sa.obs.get(k, sb.obs.get(k))
        sa.tok = object(); sb.tok = object()
        return (s, env)

    def merge_obj(self, s, g, oa, ob, sa, sb, oid):
        o = Obj(oa.size, oa.name, oa.const); o.owner = s.tok
        ca, cb = oa.cells, ob.cells
        for off in ca.keys() | cb.keys():
            x, y = ca.get(off), cb.get(off)
            if x is not None and y is not None and (x is y or (x[1] is y[1])): 
                if x[0] == y[0]: o.cells[off] = x; continue
            if x is not None and y is not None and x[0] == y[0]:
                if x[2].k == y[2].k and (x[2].k != 'i' or x[2].a == y[2].a):
                    o.cells[off] = (x[0], self.ite(g, x[1], y[1], x[2]), x[2])
                elif self.mode == 'real' and {x[2].k, y[2].k} <= {'i', 'f32', 'f64'}:
                    t = x[2] if x[2].k != 'i' else y[2]
                    xv = x[1] if x[2].k != 'i' else self.from_bv(self.to_bv(x[1], x[2]), t)
                    yv = y[1] if y[2].k != 'i' else self.from_bv(self.to_bv(y[1], y[2]), t)
                    o.cells[off] = (x[0], self.ite(g, xv, yv, t), t)
                else:
                    o.cells[off] = (x[0], self.ite(g, self.to_bv(x[1], x[2]), self.to_bv(y[1], y[2]), IntTy(8 * x[0])), IntTy(8 * x[0]))
                continue
            # layouts differ around off
            c = x if x is not None else y
            if x is not None and y is not None: c = x if x[0] <= y[0] else y
            lo, hi = off, off + c[0]
            # skip if a smaller cell splits it: process via pieces
            splits = sorted({b for d in (ca, cb) for b in d if lo < b < hi} | {b + d[b][0] for d in (ca, cb) for b in d if lo < b + d[b][0] < hi})
            if any(b < lo < b + d[b][0] for d in (ca, cb) for b in d if b != off) and x is not None and y is not None: pass
            pts = [lo] + splits + [hi]
            for l, h in zip(pts, pts[1:]):
                if l in o.cells: continue
                ty = c[2] if (l, h) == (lo, hi) else IntTy(8 * (h - l))
                va = self.piece(sa, oid, l, h, ty); vb = self.piece(sb, oid, l, h, ty)
                o.cells[l] = (h - l, self.ite(g, va, vb, ty), ty)
        return o
    def piece(self, st, oid, l, h, ty):
        o = st.mem[oid]
        cov = any(b < h and b + c[0] > l for b, c in o.cells.items())
        if not cov:
            return UNDEF
        return self.load_at(st, oid, l, ty)

    def merge_all(self, lst, info):
        while len(lst) > 1:
            # merge the pair with the longest common pc prefix first
            best = None
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    pre, _ = self.merge_pc([lst[i][0].pc, lst[j][0].pc])
                    if best is None or len(pre) > best[0]: best = (len(pre), i, j)
            _, i, j = best
            b = lst.pop(j); a = lst.pop(i)
            lst.append(self.merge2(a, b, info))
        return lst[0]

    # ------------------------------------------------------------ feasibility
    def feasible(self, pc):
        """quick satisfiability of a path condition; unknown counts as feasible"""
        if not pc: return True
        for c in pc:
            if z3.is_false(c): return False
        t = time.time()
        s = z3.SolverFor('QF_FPBV') if False else z3.Solver()
        ms = int(self.cfg.get('feas_ms', 1500)); s.set('timeout', 8 * ms); s.set('rlimit', 10000 * ms)   # bounded by work, not by the load of the machine
        s.add(*self.side); s.add(*pc)
        r = s.check()
        self.stats['feas'] += 1; self.stats['feas_t'] += time.time() - t
        return r != z3.unsat

    # ------------------------------------------------------------ execution
    def call(self, st, f, args):
        info = self.finfo(f)
        self.encoded.add(f.name)
        self.stats['calls'] += 1
        self.depth += 1
        if self.depth > self.cfg.get('max_depth', 60): raise Unsupported('recursion depth in ' + f.name)
        saved = self.curfn if hasattr(self, 'curfn') else ''
        env = {n: a for (t, n), a in zip(f.params, args)}
        frame_objs = []
        pend = {}; heap = []
        rets = []
        nm = self.cfg.get('nomerge'); nomerge = bool(nm) and re.search(nm, f.name) is not None
        def push(st, env, blk, frm, iters):
            self.stats['edges'] += 1
            b = f.blocks[blk]
            if b.phis:
                vals = []
                for ph in b.phis:
                    k = ph.x.index(frm); vals.append((ph.dst, self.ev(env, ph.args[k])))
                env = dict(env)
                for d, v in vals: env[d] = v
            lv = info['live'][blk]
            env = {k: v for k, v in env.items() if k in lv}
            ch = info['chain'][blk]; key = []; hdr = None; nit = {}
            for d, h in enumerate(ch):
                c = iters[h] + (1 if h == blk else 0) if frm is not None and h in info['chain'][frm] else 0
                nit[h] = c
                key += [info['pos'][(d, hdr, h)], c]; hdr = h
            key.append(info['pos'][(len(ch), hdr, blk)])
            if nomerge: self.nfork = getattr(self, 'nfork', 0) + 1; key.append(self.nfork)
            key = tuple(key)
            if key in pend: pend[key][2].append((st, env))
            else:
                pend[key] = (blk, nit, [(st, env)]); heapq.heappush(heap, key)
        push(st, env, info['entry'], None, {})
        while heap:
            key = heapq.heappop(heap)
            blk, iters, lst = pend.pop(key)
            S, E = self.merge_all(lst, info)
            if self.deadline and time.time() > self.deadline: raise Unsupported('symbolic execution time budget')
            ch = info['chain'][blk]
            if ch and ch[-1] == blk:
                it = iters[blk]
                lim = self.cfg.get('unwind_fn', {}).get(f.name, self.unwind)
                if it > lim:
                    # unwinding assertion
                    self.obls.append(Obligation('unwind', 'unwinding bound %d in %s' % (lim, f.name), S.pc, z3.BoolVal(False)))
                    continue
            self.stats['blocks'] += 1
            self.curfn = f.name
            try:
                out = self.run_block(S, dict(E), f, blk, frame_objs, blk in info['exits'])
            except Cut:
                continue
            if out is None: continue
            if out[0] == 'ret':
                rets.append((out[1], {'ret': out[2]})); continue
            for (s2, e2, tgt) in out[1]:
                push(s2, e2, tgt, blk, iters)
        self.depth -= 1
        self.curfn = saved
        if not rets: raise Cut()
        S, E = self.merge_all(rets, {'tys': {'ret': f.ret}})
        # the caller's state object is updated in place
        st.pc, st.mem, st.obs, st.tok = S.pc, S.mem, S.obs, object()
        for o in frame_objs: st.mem.pop(o, None)
        return E['ret']

    def ev(self, env, a):
        if isinstance(a, Local):
            return env.get(a.n, UNDEF)
        return self.const(a)

    def run_block(self, st, env, f, blk, frame_objs, inloop):
        for ins in f.blocks[blk].insts:
            op = ins.op
            self.curfn = f.name
            if op == 'unsupported': raise Unsupported(ins.line + ' : ' + str(ins.x))
            if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                a, b = self.ev(env, ins.args[0]), self.ev(env, ins.args[1])
                if ins.ty.k == 'vec': raise Unsupported('vector op')
                env[ins.dst] = self.ibin(st, op, a, b, ins.ty.a, ins.x)
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                env[ins.dst] = self.fbin(st, op, self.ev(env, ins.args[0]), self.ev(env, ins.args[1]), ins.ty.k)
            elif op == 'fneg':
                env[ins.dst] = self.fneg(self.ev(env, ins.args[0]), ins.ty.k)
            elif op == 'icmp':
                a, b = self.ev(env, ins.args[0]), self.ev(env, ins.args[1])
                env[ins.dst] = self.ptr_cmp(ins.x, a, b) if ins.ty.k == 'ptr' else self.icmp(ins.x, a, b, ins.ty.a)
            elif op == 'fcmp':
                env[ins.dst] = self.fcmp(ins.x, self.ev(env, ins.args[0]), self.ev(env, ins.args[1]), ins.ty.k)
            elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'):
                env[ins.dst] = self.cast(st, op, self.ev(env, ins.args[0]), ins.x, ins.ty)
            elif op == 'freeze': env[ins.dst] = self.ev(env, ins.args[0])
            elif op == 'alloca':
                n = self.ev(env, ins.args[0])
                oid = self.new_obj(st, self.m.size(ins.ty) * n, '%s:%s' % (f.name, ins.dst)); frame_objs.append(oid)
                env[ins.dst] = mkptr(oid)
            elif op == 'load':
                env[ins.dst] = self.load(st, self.ev(env, ins.args[0]), ins.ty)
            elif op == 'store':
                self.store(st, self.ev(env, ins.args[1]), self.ev(env, ins.args[0]), ins.ty)
            elif op == 'getelementptr':
                env[ins.dst] = self.gep(ins.ty, [self.ev(env, a) for a in ins.args], ins.x)
            elif op == 'select':
                c = self.ev(env, ins.args[0])
                if c is UNDEF: c = self.fresh(z3.BoolSort())
                if isz(c):
                    cs = z3.simplify(c)
                    c = True if z3.is_true(cs) else False if z3.is_false(cs) else c
                env[ins.dst] = self.ite(c, self.ev(env, ins.args[1]), self.ev(env, ins.args[2]), ins.ty)
            elif op == 'extractvalue':
                v = self.ev(env, ins.args[0])
                for i in ins.x: v = v.els[i] if v is not UNDEF else UNDEF
                env[ins.dst] = v
            elif op == 'insertvalue':
                v = self.ev(env, ins.args[0])
                if len(ins.x) != 1: raise Unsupported('nested insertvalue')
                els = list(v.els); els[ins.x[0]] = self.ev(env, ins.args[1]); env[ins.dst] = Agg(els)
            elif op == 'extractelement':
                env[ins.dst] = self.ev(env, ins.args[0]).els[self.ev(env, ins.args[1])]
            elif op == 'insertelement':
                v = self.ev(env, ins.args[0]); els = list(v.els)
                els[self.ev(env, ins.args[2])] = self.ev(env, ins.args[1]); env[ins.dst] = Agg(els)
            elif op == 'call':
                r = self.do_call(st, ins, env)
                if ins.dst: env[ins.dst] = r
            elif op == 'ret':
                return ('ret', st, self.ev(env, ins.args[0]) if ins.args else None)
            elif op == 'unreachable':
                return None
            elif op == 'br':
                if len(ins.x) == 1: return ('br', [(st, env, ins.x[0])])
                c = self.ev(env, ins.args[0])
                if c is UNDEF: c = self.fresh(z3.BoolSort())
                if isz(c):
                    c = z3.simplify(c)
                    if z3.is_true(c): c = True
                    elif z3.is_false(c): c = False
                if isinstance(c, bool): return ('br', [(st, env, ins.x[0 if c else 1])])
                return ('br', self.fork(st, env, [(c, ins.x[0]), (bnot(c), ins.x[1])], inloop))
            elif op == 'switch':
                c = self.ev(env, ins.args[0]); d, cs = ins.x
                if isz(c):
                    c2 = z3.simplify(c)
                    if z3.is_bv_value(c2): c = c2.as_long()
                if isinstance(c, int):
                    for v, l in cs:
                        if v == c: return ('br', [(st, env, l)])
                    return ('br', [(st, env, d)])
                w = ins.ty.a; br = {}; rest = []
                for v, l in cs:
                    e = c == z3.BitVecVal(v, w); rest.append(z3.Not(e))
                    br[l] = z3.Or(br[l], e) if l in br else e
                de = z3.And(*rest) if rest else z3.BoolVal(True)
                br[d] = z3.Or(br[d], de) if d in br else de
                return ('br', self.fork(st, env, [(g, l) for l, g in br.items()], True))
            else: raise Unsupported(op)
        raise Unsupported('fell off block')

    def fork(self, st, env, brs, inloop):
        out = []
        pol = self.cfg.get('feas', 'loop')
        chk = pol == 'all' or (pol == 'loop' and inloop)
        if chk and 'feas_nodes' in self.cfg and any(isz(g) and big(g, self.cfg['feas_nodes']) for (g, l) in brs): chk = False
        live = []
        for (g, l) in brs:
            if chk and not self.feasible(st.pc + (g,)): continue
            live.append((g, l))
        if chk and len(live) == 1:
            return [(st, env, live[0][1])]
        for i, (g, l) in enumerate(live):
            s = st.fork()
            s.pc = s.pc + (g,)
            out.append((s, dict(env), l))
        return out

    # ------------------------------------------------------------ calls
    def cstring(self, st, p):
        (_, o, f, _) = p.alts[0]; s = b''
        while True:
            c = self.load_at(st, o, f, IntTy(8))
            if c == 0: return s.decode()
            s += bytes([c]); f += 1

    def do_call(self, st, ins, env):
        cal = ins.args[0]
        args = [self.ev(env, a) for a in ins.args[1:]]
        if isinstance(cal, Const) and cal.k == 'glob':
            return self.call_named(st, cal.v, args, ins)
        p = self.ev(env, cal)
        if p is UNDEF: p = NULL()
        bad = False; tg = []
        for (g, o, f, _) in p.alts:
            if isinstance(o, tuple): tg.append((g, o[1]))
            else: bad = bor(bad, g)
        self.oblige(st, 'mem', 'memory-safety: call through invalid function pointer in ' + self.curfn, bnot(bad))
        if not tg: raise Cut()
        if len(tg) == 1: return self.call_named(st, tg[0][1], args, ins)
        outs = []
        for (g, n) in tg:
            if isz(g):
                gs = z3.simplify(g)
                if z3.is_false(gs): continue
            s = st.fork(); s.pc = s.pc + (g,) if isz(g) else s.pc
            if not self.feasible(s.pc): continue
            try: r = self.call_named(s, n, list(args), ins)
            except Cut: continue
            outs.append((s, {'ret': r}))
        if not outs: raise Cut()
        S, E = self.merge_all(outs, {'tys': {'ret': ins.ty}})
        st.pc, st.mem, st.obs, st.tok = S.pc, S.mem, S.obs, object()
        return E['ret']

    def nondet(self, st, kind, name, idx):
        key = (name, idx)
        if key in self.nondets: return self.nondets[key][1]
        if self.concrete is not None:
            v = self.concrete.get(key)
            if v is None: v = 0
            if kind in ('f32', 'f64'):
                v = Fraction(v) if self.mode == 'real' else float(v)
            elif kind == 'b': v = bool(v)
            else: v = int(v) & ((1 << int(kind[1:])) - 1)
            self.nondets[key] = (kind, v); return v
        nm = 'in_%s_%d' % (name, idx)
        if kind in ('f32', 'f64'):
            if self.mode == 'real': t = z3.Real(nm)
            else:
                b = z3.BitVec(nm, 32 if kind == 'f32' else 64)
                t = z3.fpBVToFP(b, self.fsort(kind)); self.fp_src[t.get_id()] = b; self.keep.append(t)
        elif kind == 'b': t = z3.Bool(nm)
        else: t = z3.BitVec(nm, int(kind[1:]))
        self.nondets[key] = (kind, t)
        return t

    def call_named(self, st, name, args, ins):
        n = name[1:].strip('"')
        if n.startswith('vf_'):
            return self.vf_call(st, n, args)
        if n.startswith('llvm.'):
            return self.intrinsic(st, n, args, ins)
        stub = self.stub_for(name)
        if stub is not None:
            return stub(self, st, args)
        f = self.m.funcs.get(name)
        if f is None:
            if n in ('memcpy', 'memmove'):
                self.memcpy(st, args[0], args[1], args[2]); return args[0]
            if n == 'memset':
                b = args[1]
                b = b & 255 if isinstance(b, int) else z3.Extract(7, 0, b)
                self.memset(st, args[0], b, args[2]); return args[0]
            if n in ('fabsf', 'fabs'): return self.fabs(args[0], 'f32')
            if n == '_ZdlPv': return None
            if n in ('abort', '_ZSt9terminatev', '__cxa_pure_virtual'):
                self.oblige(st, 'abort', 'abort reached in ' + self.curfn, False)
            raise Unsupported('external function ' + n)
        return self.call(st, f, args)

    def stub_for(self, name):
        if name in self.stubs: return self.stubs[name]
        return None

    def intrinsic(self, st, n, args, ins):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2]); return None
        if n.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2]); return None
        if n.startswith('llvm.fabs'): return self.fabs(args[0], ins.ty.k)
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume'): return None
        if n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'):
            self.oblige(st, 'ub', 'trap reached in ' + self.curfn, False)
        if n.startswith('llvm.sqrt') and self.mode == 'fp':
            k = ins.ty.k
            return z3.fpSqrt(RNE, self.fval(args[0], k))
        for nm, rm in (('llvm.floor', z3.RTN()), ('llvm.ceil', z3.RTP()), ('llvm.trunc.f', z3.RTZ()), ('llvm.round.', z3.RNA())):
            if n.startswith(nm) and self.mode == 'fp': return z3.fpRoundToIntegral(rm, self.fval(args[0], ins.ty.k))
        if n.startswith('llvm.expect'): return args[0]
        if n.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            w = ins.ty.a; p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[n[5:9]]
            return self.ite(self.icmp(p, args[0], args[1], w), args[0], args[1], ins.ty)
        if n.startswith('llvm.abs'):
            w = ins.ty.a
            return self.ite(self.icmp('slt', args[0], 0, w), self.ibin(st, 'sub', 0, args[0], w, None), args[0], ins.ty)
        raise Unsupported('intrinsic ' + n)

    def vf_call(self, st, n, args):
        if n.startswith('vf_nd_'):
            kind = n[len('vf_nd_'):]
            nm = self.cstring(st, args[0]); idx = args[1]
            if not isinstance(idx, int): raise Unsupported('symbolic nondet index')
            return self.nondet(st, kind, nm, idx)
        if n == 'vf_assume':
            c = args[0]
            if isz(c):
                c = z3.simplify(c)
                c = True if z3.is_true(c) else False if z3.is_false(c) else c
            if c is True: return None
            if c is False: raise Cut()
            st.pc = st.pc + (c,)
            if self.cfg.get('feas_assume') and not self.feasible(st.pc): raise Cut()
            return None
        if n == 'vf_assert':
            lab = self.cstring(st, args[1])
            c = args[0]
            if isz(c):
                c = z3.simplify(c)
                c = True if z3.is_true(c) else False if z3.is_false(c) else c
            self.obls.append(Obligation('assert', lab, st.pc, zb(c)))
            return None
        if n == 'vf_near':      # a, b, tol, label   (doubles)
            a, b, tol = args[0], args[1], args[2]; lab = self.cstring(st, args[3])
            if self.mode == 'real':
                za, zc = self.fval(a, 'f64'), self.fval(b, 'f64')
                self.obls.append(Obligation('near', lab, st.pc, za == zc, (za, zc, self.fval(tol, 'f64'))))
            else:
                za, zc = self.fval(a, 'f64'), self.fval(b, 'f64')
                self.obls.append(Obligation('near', lab, st.pc, z3.fpEQ(za, zc), (za, zc, self.fval(tol, 'f64'))))
            return None
        if n == 'vf_reach':
            lab = self.cstring(st, args[0])
            self.obls.append(Obligation('reach', lab, st.pc, z3.BoolVal(False)))
            return None
        if n == 'vf_observe':
            lab = self.cstring(st, args[0]); self.observed.append((lab, args[1], args[2], st.pc)); return None
        if n == 'vf_fuf':  # uninterpreted real function for references: name, x
            nm = self.cstring(st, args[0])
            return self.uf(nm, [args[1]])
        if n == 'vf_havoc_bytes':
            # arbitrary initial contents for a buffer; named bytes
            nm = self.cstring(st, args[1]); ln = args[2]
            for i in range(ln):
                self.store(st, self.ptr_add(args[0], i, 1), self.nondet(st, 'u8', nm, i), IntTy(8))
            return None
        raise Unsupported(n)
    def uf(self, nm, xs, k='f32'):
        zs = [self.fval(x, k) for x in xs]
        return z3.Function('uf_' + nm, *([z.sort() for z in zs] + [self.fsort(k)]))(*zs)
