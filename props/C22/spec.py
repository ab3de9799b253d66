R = 'exact real arithmetic; values below 1e4 in magnitude, time step above 1e-3; '
G = dict(dt=(.01, 1), s=(-5, 5), r=(.1, 4))
HARNESSES = [dict(fn=f, mode='real', bounds=R + '6 (10 thorough) samples, history optionally held at each', gen=G) for f in
             ('h_int_default', 'h_int_rect', 'h_int_trap', 'h_int_simp', 'h_int_quad', 'h_der_default', 'h_der_2p', 'h_der_back', 'h_der_forw')] + [
    dict(fn='h_exact', mode='real', bounds=R + '3 samples of an arbitrary quadratic signal', gen=G),
    dict(fn='h_ops', mode='real', bounds=R + 'one step', gen=dict(x0=(.1, 5), r=(.1, 5)))]
ASSUMPTIONS = ['decided in exact real arithmetic: rounding of binary32 is outside the claim', 'longer signals are outside the claim (one step depends on the last two samples and the integral only)']
