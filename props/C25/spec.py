B = 'bit-precise; '
M = {'qlibs::fp16::mul(int, int)': 'fx_mul'}
D = {'qlibs::fp16::div(int, int)': 'fx_div'}
Q = {'qlibs::fp16::div(int, int)': 'fx_quot'}
E = {'qlibs::fp16::exp(int)': 'fx_exp'}
S = {'qlibs::fp16::sqrt(int)': 'fx_root'}
L = {'qlibs::fp16::log(int)': 'fx_log'}
HARNESSES = [dict(fn='h_sin', unwind=20, bounds=B + '64 angles of the turn'), dict(fn='h_cos', unwind=20, bounds=B + '64 angles of the turn'),
    dict(fn='h_sin_odd', unwind=20, bounds=B + '256 angles within half a turn'),
    dict(fn='h_sin_period', unwind=20, bounds=B + '64 angles of each of the turns -2 to 1'),
    dict(fn='h_trig', unwind=20, stubs={**M, **D}, bounds=B + 'every angle within one and a half turns'),
    dict(fn='h_atan', unwind=20, stubs=Q, bounds=B + '64 arguments between -8 and 8'),
    dict(fn='h_atan2', unwind=20, stubs=Q, bounds=B + '63 points around the origin'),
    dict(fn='h_atan_odd', unwind=40, stubs={**M, **D}, bounds=B + 'every argument below 4096'),
    dict(fn='h_asin', unwind=60, stubs={**M, **D, **S}, bounds=B + 'every argument'),
    dict(fn='h_exp_ends', unwind=40, stubs={**M, **D}, bounds=B + 'every argument outside of (-10.4, 10.4), 0 and 1'),
    dict(fn='h_log_domain', unwind=40, bounds=B + 'every argument up to zero'),
    dict(fn='h_log2', unwind=40, stubs=Q, bounds=B + 'every power of two'),
    dict(fn='h_hyper', stubs=E, bounds=B + 'every argument up to 10'),
    dict(fn='h_hyper_ends', stubs=E, bounds=B + 'every argument from 10.4 on, and zero'),
    dict(fn='h_tanh', stubs={**E, **D}, bounds=B + 'every argument'),
    dict(fn='h_powi', unwind=10, stubs={**E, **L}, bounds=B + 'integers up to 128, powers up to 3'),
    dict(fn='h_pow', unwind=20, stubs={**E, **L, **M}, bounds=B + 'every base, every power up to 16 that is not a positive integer')]
ASSUMPTIONS = ['sine, cosine and arc tangents are compared with their values on the grids stated; exponential and logarithm only at the ends of their domain and at powers of two (log2): their accuracy in between is outside the claim', 'product, quotient, root, exponential and logarithm stand for themselves (uninterpreted, with the facts listed) where a harness relates functions built on them']
