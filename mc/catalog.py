"""Public calls of PyDSM with fresh arguments, and comparison of results.

`calls()` gives {name: (function, builder, cost)}; each builder returns a new
(args, kwargs) at every call.  Callables among the arguments are pure.
"""
from fractions import Fraction

import numpy as np

Z2 = np.exp(1j*np.array([.05, -.05]))


def cos_w(f):
    return 1.1+np.cos(2*np.pi*f)


def lp(f):
    return 1. if f < 1./16 else 0.


def aud(f):
    return 1/(1+(f/8e3)**2)


def sym_resp(f):
    return 1+2*np.cos(2*np.pi*f)


def one_sided(f):
    return 1+.5*np.exp(-2j*np.pi*f)


def spread_cf(z, g=1.):
    return g+float(np.sum((np.abs(np.angle(z[0]))-.1)**2))


def ntf2():
    return (np.array(Z2), np.array([.5+.2j, .5-.2j]), 1.)


def zpk3():
    return (np.array([1., .9+.1j, .9-.1j]), np.array([.4, .6+.1j, .6-.1j]),
            1.)


def filt_zpk():
    return (np.array([-1.]), np.array([.5]), .25)


def filt_ba():
    return (np.array([.25, .25]), np.array([1., -.5]))


def fir():
    return np.array([1., .5, .25, .125])


def abcd():
    return np.array([[1., 0., 1., -1.], [1., 1., 1., -2.], [0., 1., 1., 0.]])


def signal():
    return np.array([[.3, -.1, .5, .2, .4, -.3, .1, .2, .6, -.5]])


def a(*args, **kwargs):
    return (args, kwargs)


def calls(plot=True):
    import pydsm.audio_weightings as aw
    import pydsm.correlations as co
    import pydsm.delsig as d
    import pydsm.ft as ft
    import pydsm.ir as ir
    import pydsm.iso226 as iso
    import pydsm.NTFdesign as N
    import pydsm.NTFdesign.helpers as hp
    import pydsm.NTFdesign.legacy as lg
    import pydsm.NTFdesign.psychoacoustic as ps
    import pydsm.NTFdesign.weighting as w
    import pydsm.relab as rl
    import pydsm.simulation as sim
    import pydsm.utilities as ut
    S = dict(show_progress=False)
    out = {}

    def add(name, f, b, cost=0):
        assert name not in out
        out[name] = (f, b, cost)

    V = lambda *x: np.array(x, dtype=float)
    M = lambda: np.arange(6.).reshape(2, 3)
    # delsig
    add('axisLabels', d.axisLabels, lambda: a(V(0, 1, 2, 3, 4), 2))
    add('axisLabels list', d.axisLabels, lambda: a([0, 1, 2], 1))
    add('dbv', d.dbv, lambda: a(V(1, 0, -2, 10)))
    add('dbp', d.dbp, lambda: a(V(1, 0, 2, 10)))
    add('dbm', d.dbm, lambda: a(V(1, 0, 2, 10)))
    add('dbm R', d.dbm, lambda: a([1., 0., 2.], R=75))
    add('undbv', d.undbv, lambda: a(V(1, 0, -2)))
    add('undbp', d.undbp, lambda: a([1, 0, -2]))
    add('undbm', d.undbm, lambda: a(V(1, 0, -2), 75))
    add('ds_f1f2', d.ds_f1f2, lambda: a(32, .2))
    add('ds_f1f2 lp', d.ds_f1f2, lambda: a(osr=32, f0=0))
    add('ds_f1f2 cplx', d.ds_f1f2, lambda: a(32, .2, True))
    for n in (1, 2, 3, 4, 7):
        add('ds_optzeros %d' % n, d.ds_optzeros, lambda n=n: a(n, 1))
    add('ds_optzeros opt 2', d.ds_optzeros, lambda: a(4, 2))
    add('ds_optzeros bad', d.ds_optzeros, lambda: a(15, 1))
    add('padl', d.padl, lambda: a(M(), 5, 1))
    add('padr', d.padr, lambda: a(M(), 5, 1))
    add('padt', d.padt, lambda: a(M(), 5, 1))
    add('padb', d.padb, lambda: a(M(), 5, 1))
    add('padl vector', d.padl, lambda: a(V(1, 2, 3), 5))
    add('padr vector', d.padr, lambda: a(V(1, 2, 3), 5, val=2))
    add('padt vector', d.padt, lambda: a(V(1, 2, 3), 5, 2))
    add('padb vector', d.padb, lambda: a(V(1, 2, 3), 5))
    add('padr none', d.padr, lambda: a(M(), 3))
    add('evalTF zpk', d.evalTF, lambda: a(ntf2(), np.exp(1j*V(0, .1, 1))))
    add('evalTF nd', d.evalTF, lambda: a(filt_ba(), np.exp(1j*V(0, .1, 1))))
    add('evalTF lists', d.evalTF, lambda: a(([1.], [.5, .2], 2.), 1j))
    add('evalRPoly', d.evalRPoly, lambda: a(V(1, .5, np.inf), V(0, 2, 3), 2))
    add('evalRPoly list', d.evalRPoly,
        lambda: a([1, .5, np.inf], [0, 2, 3]))
    add('rmsGain', d.rmsGain, lambda: a(ntf2(), 0, .02))
    add('rmsGain N', d.rmsGain, lambda: a(filt_ba(), 0, .02, N=10))
    add('rms', d.rms, lambda: a(V(1, 2, 4)))
    add('rms no_dc', d.rms, lambda: a([1, 2, 4], no_dc=True))
    add('partitionABCD', d.partitionABCD, lambda: a(abcd()))
    add('partitionABCD m', d.partitionABCD, lambda: a(abcd(), 2))
    for q, t in ((1, 'y'), (2, 'nlev')):
        add('ds_quantize %s' % t, sim.ds_quantize,
            lambda q=q: a(V(.5, -2, 7).reshape(3, 1)[:q], np.array([2]*q)))
    add('dsclansNTF', d.dsclansNTF,
        lambda: a(V(.1, .2, -.3), 3, .95, np.exp(1j*V(0, .1, -.1))))
    add('ds_synNTFobj1', d.ds_synNTFobj1,
        lambda: a(V(.3), zpk3()[1], 32, .2))
    add('synthesizeNTF 3', d.synthesizeNTF, lambda: a(3, 64, 0))
    add('synthesizeNTF opt1', d.synthesizeNTF, lambda: a(4, 32, 1, 2.))
    add('synthesizeNTF opt2', d.synthesizeNTF, lambda: a(5, 32, opt=2))
    add('synthesizeNTF opt3', d.synthesizeNTF,
        lambda: a(2, 32, opt=3, use_optimizer=True), 1)
    add('synthesizeNTF zeros', d.synthesizeNTF, lambda: a(2, 32, V(.02, -.02)))
    add('synthesizeNTF list', d.synthesizeNTF,
        lambda: a(2, 32, [np.exp(.02j), np.exp(-.02j)]))
    add('synthesizeNTF bp', d.synthesizeNTF, lambda: a(4, 32, 1, 1.5, .2))
    add('synthesizeNTF bad', d.synthesizeNTF, lambda: a(3, 64, 0, 1.5, .6))
    add('synthesizeChebyshevNTF', d.synthesizeChebyshevNTF,
        lambda: a(3, 64, 0, 1.5))
    add('synthesizeChebyshevNTF bp', d.synthesizeChebyshevNTF,
        lambda: a(4, 64, 1, 1.5, .2))
    add('clans 2', d.clans, lambda: a(2, 32, 5, .95, 0), 1)
    add('clans 3', d.clans, lambda: a(3, 32, 5, .9, 1,
                                      slsqp_opts={'maxiter': 20}), 1)
    for b in ('scipy', 'scipy_blas', 'cblas'):
        add('simulateDSM ntf '+b, d.simulateDSM,
            lambda b=b: a(signal(), ntf2(), backend=b))
        add('simulateDSM abcd '+b, d.simulateDSM,
            lambda b=b: a(signal(), abcd(), 3, V(.1, .2), True, True, True,
                          backend=b))
        add('simulateDSM list '+b, d.simulateDSM,
            lambda b=b: a(signal()[0].tolist(), abcd(), nlev=[3],
                          x0=[[.1], [.2]], store_xn=True, backend=b))
    add('simulateDSM column', sim.simulateDSM,
        lambda: a(signal(), abcd(), V(2), V(.1, .2).reshape(2, 1)))
    add('simulateDSM bad', sim.simulateDSM,
        lambda: a(signal(), abcd(), x0=V(1, 2, 3)))
    if plot:
        add('plotPZ', d.plotPZ, lambda: a(ntf2(), 'r', 4, True), 2)
        add('plotPZ colors', d.plotPZ,
            lambda: a(filt_zpk(), ['b', 'r'], showlist=False), 2)
    # audio
    for n in 'abcdf':
        f = getattr(aw, n+'_weighting')
        add(n+'_weighting', f, lambda: a(V(20, 1e3, 2e4)))
        add(n+'_weighting amplitude', f, lambda: a(V(20, 1e3), False, False))
        add(n+'_weighting dB', f, lambda: a(440., power=False))
    for n in ('tabled_f', 'tabled_alpha_f', 'tabled_L_U', 'tabled_T_f'):
        add(n, getattr(iso, n), lambda: a())
        add(n+' hfe', getattr(iso, n), lambda: a(True))
    add('tabled_L_p', iso.tabled_L_p, lambda: a(40, True))
    add('tabled_L_N', iso.tabled_L_N,
        lambda: a(np.linspace(40, 60, 29)))
    add('tabled_L_N hfe', iso.tabled_L_N,
        lambda: a(np.linspace(40, 60, 29), True))
    add('iso226_spl_contour', iso.iso226_spl_contour, lambda: a(50, True))
    add('iso226_spl_itpl', call_itpl, lambda: a(50, True, V(100, 5.3e3)))
    # transforms
    add('fft_centered', ft.fft_centered, lambda: a(V(1, 2, 3, 4, 5), 2))
    add('fft_centered list', ft.fft_centered, lambda: a([1, 2, 3, 4]))
    add('dtft', call_fun, lambda: a('dtft', V(1, 2, 3), 2., .3))
    add('dtft_hermitian', call_fun,
        lambda: a('dtft_hermitian', [1, 2, 3], 2., .3))
    add('idtft', ft.idtft, lambda: a(one_sided, np.array([0, 1])), 1)
    add('idtft quad', ft.idtft,
        lambda: a(one_sided, [0, 1], 1, quad_opts={'limit': 60}), 1)
    add('idtft_hermitian', ft.idtft_hermitian,
        lambda: a(sym_resp, [0, 1, 2], quad_opts={'epsabs': 1e-12}), 1)
    add('impulse_response', ir.impulse_response, lambda: a(zpk3(), 12))
    add('impulse_response nd', ir.impulse_response,
        lambda: a(filt_ba(), None, 60))
    add('impulse_response lists', ir.impulse_response,
        lambda: a(([.5], [.25], 2), 5))
    add('guess_ir_length', ir.guess_ir_length, lambda: a(zpk3()))
    add('guess_ir_length nd', ir.guess_ir_length, lambda: a(filt_ba(), 40))
    add('guess_ir_length bad', ir.guess_ir_length,
        lambda: a(([], [Fraction(1, 2)], 1.)))
    add('impulse_response bad', ir.impulse_response,
        lambda: a((V(1), np.array(['a']), 1.)))
    add('raw_acorr', co.raw_acorr, lambda: a(V(1, 2, 3), 2))
    add('raw_acorr list', co.raw_acorr, lambda: a([1, 2, 3], 1))
    add('raw_xcorr', co.raw_xcorr, lambda: a(V(1, 2, 3), V(3, 1, 2), 2))
    add('raw_xcorr list', co.raw_xcorr, lambda: a([1, 2, 3], [3, 1, 2], 1))
    # utilities
    add('eps', rl.eps, lambda: a(V(1, 1e3, 0)))
    add('db', rl.db, lambda: a(V(1, 10, 3), 'power'))
    add('db R', rl.db, lambda: a(V(1, -10, 3), 'voltage', R=50))
    add('shiftdim', rl.shiftdim, lambda: a(np.arange(6.).reshape(1, 3, 2)))
    add('shiftdim n', rl.shiftdim,
        lambda: a(np.arange(6.).reshape(1, 3, 2), 2, 1))
    add('shiftdim neg', rl.shiftdim, lambda: a([[1, 2], [3, 4]], -1))
    add('cplxpair', rl.cplxpair,
        lambda: a(np.array([3, 1+1j, 0, 1-1j, -2+3j, -2-3j])))
    add('cplxpair list', rl.cplxpair, lambda: a([1+1e-15j, 2j, -2j], 1e-9))
    add('cplxpair dim', rl.cplxpair,
        lambda: a(np.array([[1j, 2], [-1j, 1]]), dim=0))
    add('cplxpair bad', rl.cplxpair, lambda: a(np.array([1j, 2.])))
    add('is_negligible', ut.is_negligible, lambda: a(V(0, 1e-20, 1)))
    add('chop', ut.chop, lambda: a(V(0, 1e-20, 1)))
    add('chop cplx', ut.chop, lambda: a(np.array([1e-20+1j, 1-1e-20j]), 1e-9))
    add('mdot', ut.mdot, lambda: a(np.eye(2), M(), V(1, 2, 3)))
    # merit factors, weightings
    g = N.quantization_noise_gain
    add('noise gain', g, lambda: a(ntf2()), 1)
    add('noise gain w', g, lambda: a(ntf2(), cos_w, (0, .1), True), 1)
    add('noise gain bounds', g,
        lambda: a(ntf2(), None, [0, .05], quad_opts={'epsrel': 1e-10}), 1)
    add('noise gain zpk', g, lambda: a(ntf2(), filt_zpk()), 1)
    add('noise gain ba', g, lambda: a(filt_ba(), filt_ba(), avg=True), 1)
    add('mult_weightings', call_mult, lambda: a(cos_w, filt_ba(), filt_zpk()))
    add('q0_weighting', w.q0_weighting, lambda: a(3, cos_w), 1)
    add('q0_weighting zpk', w.q0_weighting, lambda: a(3, filt_zpk()), 1)
    add('q0_weighting ba', w.q0_weighting,
        lambda: a(2, filt_ba(), quad_opts={'epsabs': 1e-12}), 1)
    add('q0_from_filter_ir', lg.q0_from_filter_ir, lambda: a(2, fir()))
    gc = lg.quantization_noise_gain_by_conv
    add('gain by conv', gc, lambda: a(ntf2(), filt_zpk()))
    add('gain by conv imp', gc, lambda: a(filt_ba(), fir(), 'imp', db=60))
    add('gain by conv ba', gc, lambda: a(ntf2(), filt_ba(), 'ba'))
    add('dunn_optzeros', ps.dunn_optzeros, lambda: a(4))
    add('dunn_optzeros 3', ps.dunn_optzeros, lambda: a(3))
    add('dunn_optzeros_cplx', ps.dunn_optzeros_cplx, lambda: a(4, 32))
    add('ntf_dunn', N.ntf_dunn, lambda: a(3, 64))
    add('ntf_dunn 5', N.ntf_dunn, lambda: a(5, 64, H_inf=2.))
    add('maxflat', hp.maxflat_fir_zeros, lambda: a(4, .7))
    add('spread', hp.spread_fir_uc_zeros,
        lambda: a(3, 16, spread_cf, [2.], {}, L_BFGS_B_opts={'maxiter': 20}), 1)
    add('spread kw', hp.spread_fir_uc_zeros,
        lambda: a(4, 16, spread_cf, cf_kwargs={'g': .5}), 1)
    add('ntf_schreier', N.ntf_schreier, lambda: a(3, 64, 1))
    add('ntf_chebyshev', N.ntf_chebyshev, lambda: a(3, 64))
    add('ntf_clans', N.ntf_clans, lambda: a(2, 32, 6.), 1)
    # convex designs
    for m in ('cvxpy_old', 'cvxpy', 'picos'):
        add('from_q0 '+m, w.ntf_fir_from_q0,
            lambda m=m: a(V(.6, .3, .1), 1.5, modeler=m, **S), 2)
        add('fir '+m, N.ntf_fir_weighting,
            lambda m=m: a(2, cos_w, 1.5, modeler=m,
                          cvxopt_opts={'maxiters': 50}, **S), 2)
        add('hybrid '+m, N.ntf_hybrid_weighting,
            lambda m=m: a(3, cos_w, 1.5, [.5, .3+.1j, .3-.1j], modeler=m,
                          quad_opts={'limit': 70}, **S), 2)
        add('minmax '+m, N.ntf_fir_minmax,
            lambda m=m: a(3, 8, 1.5, modeler=m, **S), 2)
        add('audio '+m, N.ntf_fir_audio_weighting,
            lambda m=m: a(2, 4, aud, modeler=m, **S), 2)
    add('from_q0 plain', w.ntf_fir_from_q0,
        lambda: a(V(.6, .3, .1), normalize=None, **S), 2)
    add('from_q0 norm', w.ntf_fir_from_q0,
        lambda: a(V(.6, .3, .1), 1.4, 2., fix_pos=False, **S), 2)
    add('fir zpk', N.ntf_fir_weighting, lambda: a(2, filt_zpk(), **S), 2)
    add('fir scs', N.ntf_fir_weighting,
        lambda: a(2, filt_ba(), modeler='cvxpy',
                  cvxpy_opts={'solver': 'scs'}, scs_opts={'eps': 1e-5}, **S),
        2)
    add('hybrid poles', N.ntf_hybrid_weighting,
        lambda: a(2, filt_ba(), 1.5, V(.5, -.2), **S), 2)
    add('hybrid bad', N.ntf_hybrid_weighting,
        lambda: a(1, cos_w, 1.5, V(.5, -.2), **S), 2)
    add('minmax bp', N.ntf_fir_minmax,
        lambda: a(4, 8, 1.5, .2, False, modeler='cvxpy_old', **S), 2)
    add('audio a', N.ntf_fir_audio_weighting,
        lambda: a(2, 4, 'a', 20e3, 60, 1.5, **S), 2)
    return out


def call_fun(name, x, fs, f, t0=0):
    """dtft and dtft_hermitian return functions: evaluate them."""
    import pydsm.ft as ft
    if t0:
        return getattr(ft, name)(x, fs, t0)(f)
    return getattr(ft, name)(x, fs)(f)


def call_mult(*ww):
    import pydsm.NTFdesign as N
    m = N.mult_weightings(*ww)
    return np.array([m(f) for f in (0., .1, .3)])


def call_itpl(L_N, hfe, f, k=3):
    import pydsm.iso226 as iso
    return iso.iso226_spl_itpl(L_N, hfe, k)(f)


def plain(x):
    """Structure of a result, made of nested tuples and arrays."""
    if isinstance(x, tuple) or isinstance(x, list):
        return (type(x).__name__, [plain(i) for i in x])
    if x is None or isinstance(x, str):
        return ('lit', x)
    if isinstance(x, dict):
        return ('dict', [(k, plain(x[k])) for k in sorted(x)])
    if type(x).__name__ == 'Figure' or type(x).__module__.startswith(
            'matplotlib'):
        return ('lit', type(x).__name__)
    y = np.array(x)
    if y.dtype.kind in 'US':
        return ('lit', y.tolist())
    if y.dtype.kind == 'O':
        return ('lit', type(x).__name__)
    return ('num', y)


def outcome(f, args, kwargs):
    """Result or exception of a call, in comparable form."""
    try:
        return ('ok', plain(f(*args, **kwargs)))
    except Exception as e:
        return ('exc', type(e).__name__, str(e))


def match(x, y, rtol, atol):
    left = list(y)
    for i in x:
        j = min(range(len(left)), key=lambda j: abs(left[j]-i))
        if not abs(left[j]-i) <= atol+rtol*abs(i):
            return False
        del left[j]
    return True


def loose(x, y):
    """For results of solvers: rounding depends on memory alignment."""
    return same(x, y, 1e-5, 1e-6, True)


def same(x, y, rtol=1e-9, atol=1e-12, roots_too=False):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return len(x) == len(y) and all(same(i, j, rtol, atol, roots_too)
                                        for i, j in zip(x, y))
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if x.shape != y.shape:
            return False
        if np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
            return x.dtype.kind == y.dtype.kind or 'c' in (x.dtype.kind,
                                                           y.dtype.kind)
        # Roots found by third party code may come in any order
        return bool(x.ndim == 1 and x.dtype.kind in 'fc' and
                    roots_too and match(x, y, rtol, atol))
    return type(x) == type(y) and x == y
