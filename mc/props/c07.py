"""C07: synthesizeChebyshevNTF returns valid Chebyshev NTFs."""
import itertools

import numpy as np

from ..refs import band, match, peak, resp, zpk_ok

BOUNDS = ('every combination of order 1..8 (even for bandpass), oversampling '
          'ratio, gain limit and band center on the listed grids, any opt; '
          'on each design the whole frequency response is compared with the '
          'closed form of the inverse Chebyshev characteristic.')
ASSUMPTIONS = ['the signal band lies strictly between DC and half the sample '
               'rate for bandpass designs',
               'in-band attenuation below 250 dB']


def cases(tier):
    osrs = (1.5, 2, 4, 8, 16, 32, 64, 256) if tier == 'quick' else \
        (1.2, 1.5, 2, 2.5, 3, 4, 6, 8, 12, 16, 24, 32, 50, 64, 100, 128, 256,
         512, 1000)
    f0s = (0., .05, .1, .2, .25, .3, .4, .45, .49)
    for order in range(1, 9):
        for osr in osrs:
            for f0 in f0s:
                if f0 and (order % 2 or f0 <= .26/osr or f0+.26/osr >= .5):
                    continue
                yield {'order': order, 'osr': osr, 'f0': f0,
                       'Hs': [1.05, 1.2, 1.5, 2., 3.3, 8.] if tier == 'quick'
                       else [1.01, 1.05, 1.1, 1.2, 1.3, 1.5, 1.75, 2., 2.5,
                             3.3, 5., 8., 15., 40.]}


def shape(order, osr, f0, f):
    """Argument of the Chebyshev polynomial, and its degree."""
    t = np.tan(np.pi*f)
    if f0 == 0:
        return t/np.tan(np.pi*.5/osr), order
    f1, f2 = band(osr, f0)
    t1, t2 = np.tan(np.pi*f1), np.tan(np.pi*f2)
    return (t*t-t1*t2)/((t2-t1)*t), order//2


def cheb(n, x):
    """Chebyshev polynomial of degree n, as |T_n(x)|."""
    a = np.abs(x)
    return np.where(a <= 1, np.abs(np.cos(n*np.arccos(np.minimum(a, 1)))),
                    np.cosh(n*np.arccosh(np.maximum(a, 1))))


def zeros(order, osr, f0):
    """Angles of the zeros."""
    if f0 == 0:
        c = np.cos((2*np.arange(order)+1)*np.pi/(2*order))
        return 2*np.arctan(c*np.tan(np.pi*.5/osr))
    f1, f2 = band(osr, f0)
    t1, t2 = np.tan(np.pi*f1), np.tan(np.pi*f2)
    n = order//2
    c = np.cos((2*np.arange(n)+1)*np.pi/(2*n))
    b = (t2-t1)*c
    t = (b+np.sqrt(b*b+4*t1*t2))/2
    w = 2*np.arctan(t)
    return np.concatenate((w, -w))


def grid_run(R, order, osr, f0, Hs):
    from pydsm.delsig import synthesizeChebyshevNTF as S
    from pydsm.NTFdesign import ntf_chebyshev
    f1, f2 = band(osr, f0)
    for H in Hs:
        ntf = S(order, osr, 0, H, f0)
        R.step()
        R.state(H)
        info = dict(H=H)
        if not zpk_ok(R, ntf, order, 'ntf', tol=1e-8, **info):
            return
        z, p, k = ntf
        R.outcome(tuple(np.round(p, 8)))
        R.check(np.allclose(np.abs(z), 1, atol=1e-9), 'zeros modulus', z=z,
                **info)
        w = zeros(order, osr, f0)
        R.check(match(z, np.exp(1j*w), 1e-7), 'zeros', z=z, want=np.exp(1j*w),
                **info)
        a = np.abs(np.angle(z))/(2*np.pi)
        R.check(np.all(a <= f2*(1+1e-9)) and np.all(a >= f1*(1-1e-9)),
                'zeros in band', z=z, **info)
        edge = float(np.abs(resp(ntf, f2))[0])
        if order <= (4 if f0 == 0 else 8):
            R.check(abs(np.abs(resp(ntf, f1 if f0 else f2))[0]/edge-1) < 1e-4,
                    'edges', **info)
        if edge/H < 10**(-250/20.):
            continue
        f = np.concatenate((np.linspace(f1, f2, 41)[1:-1],
                            np.linspace(0, .5, 203)[1:-1]))
        x, n = shape(order, osr, f0, f)
        T = cheb(n, x)
        # T^2/(T^2+1/eps^2), with 1/eps^2 from the attenuation at the edge
        e2 = (H/edge)**2-1
        want = H*T/np.sqrt(T*T+e2)
        got = np.abs(resp(ntf, f))
        # high order, high osr responses lose digits in the band
        R.check(np.all(np.abs(got-want) <= 1e-5*want+1e-5*edge), 'response',
                at=f[np.argmax(np.abs(got-want)/want)], want=want, got=got,
                **info)
        R.check(abs(peak(ntf, n=1501)/H-1) < 1e-5, 'H_inf',
                peak=peak(ntf), **info)
        R.trace()
        for opt in (1, 2, 3):
            r = S(order, osr, opt, H, f0)
            R.step()
            R.check(match(r[0], z, 1e-12) and match(r[1], p, 1e-12), 'opt',
                    opt=opt, **info)
        r = ntf_chebyshev(order=order, osr=osr, H_inf=H, f0=f0)
        R.check(match(r[0], z, 1e-12) and match(r[1], p, 1e-12), 'alias',
                **info)
    R.sample({'order': order, 'osr': osr, 'f0': f0, 'H': H, 'z': z, 'p': p})


def misc_cases(tier):
    for order in range(1, 9):
        yield {'order': order}


def misc_run(R, order):
    from pydsm.delsig import synthesizeChebyshevNTF as S
    for osr, H, f0 in itertools.product((4, 16, 64), (1.5, 3.),
                                        (.1, .25, .4)):
        R.state(osr, H, f0)
        R.step()
        if order % 2:
            R.raises(ValueError, lambda: S(order, osr, 0, H, f0),
                     'odd bandpass', 'must be even', f0=f0)
    b = S(order, 64, 0, 1.5, 0.)
    for r in (S(order), S(order=order), S(order, 64.), S(order, osr=64),
              S(np.int64(order), np.float64(64), 0, np.float64(1.5), 0)):
        R.step()
        R.check(match(r[0], b[0], 1e-12) and match(r[1], b[1], 1e-12),
                'spelling', got=r, want=b)
    R.check(len(S()[0]) == 3, 'default')
    R.outcome(order)
    R.trace()
    R.sample({'order': order, 'ntf': b})


FAMILIES = {'grid': (cases, grid_run), 'misc': (misc_cases, misc_run)}
