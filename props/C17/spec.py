G = dict(g=(0.1, 1), c=(-40, 40), lo=(-90, -1), hi=(2, 90), k=(.3, 1), u=(-8, 8), p=(-15, 15), h=(0, 1), w=(1, 50))
R = 'exact real arithmetic; '
B = 'bit-precise; '
C = dict(feas='all')
S = {'qlibs::ffmath::log': 'log_inv', 'qlibs::ffmath::sqrt': 'sqrt_real'}
def H(n, b, **k): return [dict(dict(fn='h_' + f, mode='real', bounds=R + b, gen=G, cfg=C, stubs=S), **k) for f in n.split()]
HARNESSES = H('sug_const again', 'two rules, every strength, constant levels within 50') + H('sug_lin', gen=dict(G, c=(-9, 9)), b='three rules, two outputs, weights, linear levels with coefficients within 10') + [
    dict(fn='h_in_' + f, bounds=B + 'every strength, level and range', gen=G) for f in 'aver sum tsu'.split()] + [dict(fn='h_tsig_full', bounds=B + 'slopes and ranges within 100', gen=G, cfg=C)] + \
    H('tlins tlinz tramp tconc_up tconc_down tsig ts tz ts1 tz1 tsu2', 'strengths and points of the set over an interval, points at least 1/2 apart') + \
    H('cen_max cen_por cen_sum cen_neg', 'range [0,100], two rectangular sets, every pair of strengths from 1/16', unwind=110) + \
    H('som lom mom som1 lom1 mom1 bis', 'range [0,100], two rectangular sets, every pair of strengths that are equal or clearly different', unwind=110) + \
    H('reg_min reg_prod', 'every range up to 100 wide, two constant sets', unwind=110) + H('mam2', 'three rules, two outputs with rectangular sets', unwind=110) + H('wrap', 'two rules, every strength') + H('ts_any', 'every pair of points within 50', tier='thorough', timeout=600)
ASSUMPTIONS = ['formulas are decided in exact real arithmetic: rounding of binary32 is outside the claim', 'square root and logarithm are replaced by contracts', 'rule sets, rectangular output sets and ranges of the Mamdani harnesses are fixed; strengths are symbolic']
