"""Contracts standing in for functions that are not encoded (listed in the evidence)."""
import math
from fractions import Fraction
import z3
REG = {}
def stub(n):
    def d(f): REG[n] = f; return f
    return d
def get(n): return REG[n]

def uf(en, name, *args):
    f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    return f(*[en.fval(a, 'f32') for a in args])
def conc(*args): return all(isinstance(a, (int, float, Fraction)) for a in args)
def note(en, s):
    if not hasattr(en, 'stub_used'): en.stub_used = []
    en.stub_used.append(s)

def side(en, c):
    en.side.append(c); en.stub_side = getattr(en, 'stub_side', []) + [c]
INTERP = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else 0.0, 'exp': lambda x: math.exp(min(x, 80.0)), 'log': lambda x: math.log(x) if x > 0 else 0.0, 'cos': math.cos, 'floor': math.floor, 'trunc': int}
def interpret(e):
    """replace contract applications at numeric arguments by their real value (model search only)"""
    while True:
        e = z3.simplify(e)
        sub, seen, stack = [], set(), [e]
        while stack:
            t = stack.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id()); stack += t.children()
            if z3.is_app(t) and t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in INTERP and z3.is_rational_value(t.arg(0)):
                sub.append((t, z3.RealVal(str(Fraction(INTERP[t.decl().name()](float(t.arg(0).as_fraction())))))))
        if not sub: return e
        e = z3.substitute(e, *sub)

@stub('sqrt_real')
def sqrt_real(en, st, args):
    """square root: non-negative, its square is the argument (for non-negative arguments)"""
    note(en, 'sqrt: uninterpreted, s >= 0 and s*s = x for x >= 0')
    x = args[0]
    if conc(x): return Fraction(math.sqrt(float(x))) if x >= 0 else en.special(float('nan'))
    r = uf(en, 'sqrt', x)
    side(en, z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r
@stub('sqrt_uf')
def sqrt_uf(en, st, args):
    note(en, 'sqrt: uninterpreted, s >= 0')
    x = args[0]
    if conc(x): return Fraction(math.sqrt(float(x))) if x >= 0 else en.special(float('nan'))
    r = uf(en, 'sqrt', x)
    side(en, r >= 0)
    return r
@stub('exp_uf')
def exp_uf(en, st, args):
    note(en, 'exp: uninterpreted, positive, at most 1 for negative arguments, 1 at 0')
    x = args[0]
    if conc(x): return Fraction(math.exp(float(x)))
    r = uf(en, 'exp', x)
    side(en, z3.And(r > 0, z3.Implies(x <= 0, r <= 1), z3.Implies(x == 0, r == 1)))
    return r
@stub('log_uf')
def log_uf(en, st, args):
    note(en, 'log: uninterpreted')
    x = args[0]
    if conc(x): return Fraction(math.log(float(x))) if x > 0 else en.special(float('nan'))
    return uf(en, 'log', x)
@stub('log_inv')
def log_inv(en, st, args):
    """logarithm: log(1/x) = -log(x)"""
    note(en, 'log: uninterpreted, log(1/x) = -log(x)')
    x = args[0]
    if conc(x): return Fraction(math.log(float(x))) if x > 0 else en.special(float('nan'))
    r = uf(en, 'log', x)
    side(en, z3.Implies(x > 0, uf(en, 'log', 1 / x) == -r))
    return r
@stub('havoc')
def havoc(en, st, args):
    """any result"""
    note(en, 'result unconstrained (any value)')
    if en.mode == 'real': return en.fresh(z3.RealSort(), 'hv')
    b = en.fresh(z3.BitVecSort(32), 'hv')
    return z3.fpBVToFP(b, en.fsort('f32'))
@stub('cos_uf')
def cos_uf(en, st, args):
    """cosine: within [-1,1], 1 at 0 and -1 at the library's pi"""
    note(en, 'cos: uninterpreted, within [-1,1], cos(0)=1, cos(pi)=-1')
    x = args[0]
    if conc(x): return Fraction(math.cos(float(x))) if x else Fraction(1)
    from symex import snap, f32
    r = uf(en, 'cos', x); pi = snap(f32(math.pi), 'f32')
    side(en, z3.And(r <= 1, r >= -1, z3.Implies(x == 0, r == 1), z3.Implies(x == z3.RealVal(str(pi)), r == -1)))
    return r
@stub('floor_uf')
def floor_uf(en, st, args):
    """floor: f <= x < f+1"""
    note(en, 'floor: uninterpreted, f <= x < f+1')
    x = args[0]
    if conc(x): return Fraction(math.floor(x))
    r = uf(en, 'floor', x)
    side(en, z3.And(r <= x, x < r + 1))
    return r
@stub('trunc_uf')
def trunc_uf(en, st, args):
    """truncation: floor of the magnitude with the sign of the argument"""
    note(en, 'trunc: uninterpreted, towards zero, less than one away')
    x = args[0]
    if conc(x): return Fraction(int(x))
    r = uf(en, 'trunc', x)
    side(en, z3.If(x >= 0, z3.And(r >= 0, r <= x, x < r + 1), z3.And(r <= 0, r >= x, x > r - 1)))
    return r
@stub('sqrt_range')
def sqrt_range(en, st, args):
    """binary32 square root known only by its range: [0.5, 1.5] for arguments in [0.25, 2]"""
    note(en, 'sqrt: a function of its argument with values in [0.5, 1.5] for arguments in [0.25, 2]')
    x = en.fval(args[0], 'f32'); s = en.fsort('f32')
    r = z3.Function('sqrt_fp', s, s)(x)
    k = lambda v: z3.FPVal(v, s)
    side(en, z3.Implies(z3.And(z3.fpGEQ(x, k(0.25)), z3.fpLEQ(x, k(2.0))), z3.And(z3.fpGEQ(r, k(0.5)), z3.fpLEQ(r, k(1.5)))))
    return r
@stub('pow_uf')
def pow_uf(en, st, args):
    """power of a non-negative base"""
    note(en, 'pow: uninterpreted, non-negative for a non-negative base')
    if conc(*args) and (args[0] > 0 or args[1] > 0): return Fraction(float(args[0]) ** float(args[1]))
    r = uf(en, 'pow', *args)
    side(en, z3.Implies(en.fval(args[0], 'f32') >= 0, r >= 0))
    return r

# fixed-point functions: what property C04 decides about them, and nothing else
def b32(v): return z3.BitVecVal(v & 0xffffffff, 32) if isinstance(v, int) else v
def babs(v): return z3.If(v < 0, -v, v)
def bfun(n, *a):
    s = z3.BitVecSort(32)
    return z3.Function(n, *([s] * (len(a) + 1)))(*a)
def signed(x, y, r): return z3.If((x < 0) != (y < 0), -r, r)
@stub('fx_mul')
def fx_mul(en, st, args):
    note(en, 'fixed-point product: uninterpreted, of the sign of its operands, zero for zero, neutral 1')
    x, y = b32(args[0]), b32(args[1]); X, Y = babs(x), babs(y)
    m = bfun('fx_mul', X, Y)
    side(en, z3.And(m >= 0, z3.Implies(z3.Or(x == 0, y == 0), m == 0), z3.Implies(Y == 65536, m == X), z3.Implies(X == 65536, m == Y)))
    return z3.simplify(signed(x, y, m))
@stub('fx_div')
def fx_div(en, st, args):
    note(en, 'fixed-point quotient: uninterpreted, of the sign of its operands, zero for zero, at most 1 if the dividend is not larger than the divisor')
    x, y = b32(args[0]), b32(args[1]); X, Y = babs(x), babs(y)
    m = bfun('fx_div', X, Y)
    side(en, z3.And(m >= 0, z3.Implies(x == 0, m == 0), z3.Implies(z3.And(Y != 0, X <= Y), m <= 65536), z3.Implies(Y == 65536, m == X)))
    return z3.simplify(signed(x, y, m))
@stub('fx_quot')
def fx_quot(en, st, args):
    note(en, 'fixed-point quotient: nearest value, halves away from zero, overflow mark if it does not fit, smallest value for division by zero (property C04)')
    x, y = b32(args[0]), b32(args[1]); X, Y = z3.ZeroExt(32, babs(x)), z3.ZeroExt(32, babs(y))
    q = z3.UDiv((X << 17) + Y, Y << 1)
    r = z3.If(y == 0, b32(-2147483647), z3.If(z3.UGE(q, z3.BitVecVal(1 << 31, 64)), b32(-1 << 31), signed(x, y, z3.Extract(31, 0, q))))
    r = z3.simplify(r)
    return r.as_long() if z3.is_bv_value(r) else r
@stub('fx_exp')
def fx_exp(en, st, args):
    note(en, 'fixed-point exponential: uninterpreted, 1 at 0, not below 1 for positive and within [0,1] for negative arguments, below 23000 up to 10')
    x = b32(args[0]); r = bfun('fx_exp', x)
    side(en, z3.And(r >= 0, z3.Implies(x == 0, r == 65536), z3.Implies(x > 0, r >= 65536), z3.Implies(x < 0, r <= 65536), z3.Implies(x <= 655360, r <= 23000 << 16)))
    return r
@stub('fx_log')
def fx_log(en, st, args):
    note(en, 'fixed-point logarithm: uninterpreted, overflow mark for zero and negative arguments, within [-12, 11] otherwise')
    x = b32(args[0]); r = bfun('fx_log', x)
    return z3.If(x <= 0, b32(-1 << 31), z3.If(z3.And(r >= -12 * 65536, r <= 11 * 65536), r, b32(0)))
@stub('fx_root')
def fx_root(en, st, args):
    note(en, 'fixed-point square root: uninterpreted, non-negative for non-negative arguments, overflow mark for negative ones')
    x = b32(args[0]); r = bfun('fx_root', x)
    return z3.If(x < 0, b32(-1 << 31), z3.If(x == 0, b32(0), r & 0x7fffffff))
@stub('sqrt_nan')
def sqrt_nan(en, st, args):
    """binary32 square root known only by its domain"""
    note(en, 'sqrt: a function of its argument, not a number for negative arguments')
    x = en.fval(args[0], 'f32'); s = en.fsort('f32')
    return z3.If(z3.fpLT(x, z3.FPVal(0.0, s)), z3.fpNaN(s), z3.Function('sqrt_fp', s, s)(x))
