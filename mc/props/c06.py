"""C06: synthesizeNTF returns valid optimal NTFs of the requested order."""
import itertools
import warnings

import numpy as np

from ..refs import (band, band_rms, conj_closed, design_zeros, gain, match,
                    zpk_ok)

BOUNDS = ('every combination of order 1..8, oversampling ratio, band center, '
          'zero placement option, gain limit and optimizer switch from the '
          'listed grids; every conjugate-closed multiset of explicit zeros '
          'from a small alphabet up to the order bound, and every wrong '
          'length.')
ASSUMPTIONS = ['H_inf >= 1.2 and order <= 8: below and above, the secant '
               'search of the poles is known (and warns) not to converge',
               'gain tolerance 0.3% without and 2% with zero optimization '
               '(the iteration stops on the argument rather than on the '
               'gain)', 'opt 3 and 4 are only claimed with the optimizer']


def design(*a, **k):
    """Call, collecting the warnings."""
    from pydsm.delsig import synthesizeNTF
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = synthesizeNTF(*a, **k)
    from pydsm.exceptions import PyDsmApproximationWarning as W
    return r, [str(x.message) for x in w if issubclass(x.category, W)]


def f0s(order):
    return (0.,) if order % 2 else (0., .06, .125, .2, .25, .3, .4, .45, .5)


def poles_family(R, p, order, f0, tag, **info):
    """The poles are those of a maximally flat denominator: (p+1/p)/2 is
    equispaced on a circle about the cosine of the band center."""
    if np.all(np.asarray(p) == 0):
        return True
    p = np.asarray(p, complex)
    c = np.cos(2*np.pi*f0)
    m = (p-1)**2/(2*p) if f0 == 0 else (p+1/p)/2-c
    r = np.abs(m)
    ok = R.check(r.max()-r.min() <= 1e-5*r.max(), tag+'/pole radius', p=p,
                 **info)
    w = (2*np.arange(order)+1)*np.pi/order
    want = -np.exp(1j*w) if f0 == 0 else np.exp(1j*w)
    return ok and R.check(match(m/r.mean(), want, 1e-4), tag+'/pole angles',
                          p=p, **info)


def grid_cases(tier):
    for order in range(1, 9):
        for f0 in f0s(order):
            for osr in ((2, 8, 32, 64, 200) if tier == 'quick' else
                        (2, 3, 4, 8, 16, 32, 50, 64, 128, 200, 512)):
                if f0 and f0 < .25/osr:
                    continue
                yield {'order': order, 'f0': f0, 'osr': osr,
                       'Hs': [1.2, 1.5, 2.2, 3.1, 6.3] if tier == 'quick'
                       else [1.2, 1.3, 1.5, 1.75, 2.2, 2.6, 3.1, 4.4, 6.3,
                             10., 17., 40., 90., 300.]}


def noise(ntf, osr, f0):
    return band_rms(ntf, *band(osr, f0))


def grid_run(R, order, f0, osr, Hs):
    at = 1. if f0 > .25 else -1.
    f1, f2 = band(osr, f0)
    for H in Hs:
        N = {}
        prev = {}
        for opt, uo in itertools.product((0, 1, 2, 3, 4), (False, True)):
            if opt >= 3 and not uo:
                continue
            info = dict(opt=opt, uo=uo, H=H)
            ntf, w = design(order, osr, opt, H, f0, use_optimizer=uo)
            R.step()
            R.trace()
            R.state(H, opt, uo)
            if not zpk_ok(R, ntf, order, 'ntf', **info):
                return
            z, p, k = ntf
            R.outcome(tuple(np.round(p, 9)))
            R.check(np.allclose(np.abs(z), 1, atol=1e-9), 'zeros modulus',
                    z=z, **info)
            lim = gain(z, np.zeros(order), at)
            if opt < 3:
                want = np.exp(1j*design_zeros(order, osr, opt, f0))
                R.check(match(z, want, 5e-6), 'zeros', z=z, want=want,
                        **info)
                prev.setdefault(opt, ntf)
                R.check(match(z, prev[opt][0], 1e-9) and
                        match(p, prev[opt][1], 1e-9),
                        'optimizer switch', **info)
            else:
                # within half a bandwidth about the band center
                a = np.abs(np.angle(z))
                d = np.minimum(np.abs(a-2*np.pi*f0),
                               np.abs(2*np.pi-a-2*np.pi*f0))
                half = np.pi/osr if f0 == 0 else np.pi/(2*osr)
                R.check(np.all(d <= half*(1+1e-6)), 'zeros in band', z=z,
                        **info)
                if opt == 4:
                    R.check(np.sum(d < 1e-6) >= (2 if order % 2 == 0
                                                 else 1),
                            'zero at band center', z=z, **info)
            # gain
            g = gain(z, p, at)
            tol = 3e-3 if opt < 3 else 2e-2
            unable = any('nable to achieve' in m for m in w)
            if H < lim*(1-tol):
                R.check(not unable, 'warned in vain', w=w, lim=lim, **info)
                R.check(abs(g/H-1) < tol, 'H_inf', g=g, **info)
            elif H > lim*(1+tol):
                R.check(unable and np.all(p == 0), 'unattainable', w=w,
                        lim=lim, p=p, **info)
            else:
                R.check(g < H*(1+tol), 'H_inf exceeded', g=g, **info)
            R.check(not any('lowpass' in m for m in w), 'lowpass warning',
                    w=w, **info)
            poles_family(R, p, order, f0, 'poles', **info)
            N[opt] = noise(ntf, osr, f0)
        # The optimizer improves on the tabled positions
        R.check(N[3] <= N[1]*1.01, 'optimizer worse than table', H=H, N=N)
        R.check(N[4] <= N[2]*1.01, 'optimizer worse than table (4)', H=H, N=N)
    R.sample({'order': order, 'osr': osr, 'f0': f0, 'H': H, 'z': z, 'p': p})


def atoms(f0):
    """Sensible zeros: in the band or close to it."""
    if f0 == 0:
        return [[1.], [.97], 'u.03', 'u.06', 'u.2', 'd.97,.05']
    c = 2*np.pi*f0
    return ['u%r' % (c+d) for d in (0., .03, -.05, .12)]+['d.98,%r' % c]


def atom(a):
    if isinstance(a, list):
        return [complex(a[0])]
    if a[0] == 'u':
        w = np.exp(1j*float(a[1:]))
    else:
        r, t = map(float, a[1:].split(','))
        w = r*np.exp(1j*t)
    return [w, w.conjugate()]


def sets(order, f0):
    ATOMS = atoms(f0)

    def rec(i, left):
        if left == 0:
            yield []
            return
        if i == len(ATOMS):
            return
        n = len(atom(ATOMS[i]))
        if n <= left:
            for r in rec(i, left-n):
                yield [ATOMS[i]]+r
        for r in rec(i+1, left):
            yield r
    return list(rec(0, order))


def explicit_cases(tier):
    for order in range(1, 5 if tier == 'quick' else 7):
        for f0 in (0., .125, .25, .3, .45) if order % 2 == 0 else (0.,):
            yield {'order': order, 'f0': f0}


def explicit_run(R, order, f0):
    """Zeros given by the user."""
    at = 1. if f0 > .25 else -1.
    for s in sets(order, f0):
        z0 = [x for a in s for x in atom(a)]
        orders = [z0, z0[::-1]]
        if order <= 4:
            orders = [list(q) for q in
                      itertools.islice(itertools.permutations(z0), 8)]
        for zz, uo, form in itertools.product(
                orders, (False, True), (list, np.array)):
            if any(abs(x-at) < 1e-3 for x in zz):
                continue            # no gain there, whatever the poles
            arg = form(zz)
            ntf, w = design(order, 32, arg, 1.5, f0, use_optimizer=uo)
            R.step()
            info = dict(z0=zz, uo=uo)
            R.state([str(x) for x in zz], uo, form.__name__)
            R.need(zpk_ok(R, ntf, order, 'explicit', **info), 'explicit')
            R.check(match(ntf[0], zz, 1e-9), 'explicit zeros', got=ntf[0],
                    **info)
            R.check(match(arg, zz, 0), 'argument modified', **info)
            lim = gain(zz, np.zeros(order), at)
            if lim > 1.51:
                R.check(abs(gain(ntf[0], ntf[1], at)/1.5-1) < 1e-2,
                        'explicit H_inf', p=ntf[1], w=w, **info)
                poles_family(R, ntf[1], order, f0, 'explicit poles', **info)
            R.outcome(tuple(np.round(ntf[1], 6)))
            R.trace()
    R.sample({'order': order, 'z': zz, 'p': ntf[1]})


def misc_cases(tier):
    for order in range(1, 9):
        yield {'order': order}


def misc_run(R, order):
    """Errors, warnings, defaults and spellings."""
    from pydsm import NTFdesign
    from pydsm.delsig import synthesizeNTF as S
    for f0 in (.51, .6, 1., 2.):
        R.raises(ValueError, lambda: S(order, 32, 0, 1.5, f0), 'f0 range',
                 'must be less than 0.5', f0=f0)
        R.step()
    for uo in (True, False):
        for osr, f0 in itertools.product((8, 32, 64), (.1, .25, .4, .5,
                                                       .25/8+1e-6)):
            R.state('f0', uo, osr, f0)
            R.step()
            if order % 2:
                R.raises(ValueError,
                         lambda: S(order, osr, 0, 1.5, f0, use_optimizer=uo),
                         'odd bandpass', 'must be even', f0=f0)
            else:
                ntf, w = design(order, osr, 0, 1.5, f0, use_optimizer=uo)
                R.check(w == [], 'warning', w=w, f0=f0)
                a = np.abs(np.angle(ntf[0]))
                R.check(np.allclose(a, 2*np.pi*f0), 'zeros at center',
                        z=ntf[0], f0=f0)
        for osr in (8, 32, 64):
            base, w0 = design(order, osr, 1, 1.5, 0., use_optimizer=uo)
            R.check(w0 == [], 'lowpass warns', w=w0)
            for f0 in (1e-6, .1/osr, .2499/osr):
                R.state('low', uo, osr, f0)
                R.step()
                ntf, w = design(order, osr, 1, 1.5, f0, use_optimizer=uo)
                R.check(any('lowpass' in m for m in w), 'no warning', w=w)
                R.check(match(ntf[0], base[0], 1e-12) and
                        match(ntf[1], base[1], 1e-12), 'low f0', f0=f0,
                        got=ntf)
        for n in range(0, order+4):
            for f0 in (0., .25) if order % 2 == 0 else (0.,):
                zz = np.exp(1j*.01*np.arange(1, n+1))
                if n != order:
                    R.step()
                    R.raises(ValueError,
                             lambda: S(order, 32, zz, 1.5, f0,
                                       use_optimizer=uo), 'zeros length',
                             'must be of length %d' % order, n=n)
        R.raises(ValueError, lambda: S(order, 32, [[1.]*order], 1.5, 0.,
                                       use_optimizer=uo), 'zeros ndim')
    # spelling of arguments
    b, _ = design(order, 64, 0, 1.5, 0.)
    for r in (S(order), S(order=order), S(order, 64), S(order, 64., 0, 1.5),
              S(order, osr=64, H_inf=1.5), NTFdesign.ntf_schreier(order),
              S(order, 64, np.int64(0), np.float64(1.5), 0),
              S(np.int64(order))):
        R.step()
        R.check(match(r[0], b[0], 1e-12) and match(r[1], b[1], 1e-12),
                'spelling', got=r, want=b)
    d = S()
    R.check(len(d[0]) == 3 and match(d[0], [1, 1, 1], 1e-9), 'default', d=d)
    R.raises(TypeError, lambda: S(order, optimizer=True), 'unknown option')
    R.trace()
    R.outcome(order)
    R.sample({'order': order})


FAMILIES = {'grid': (grid_cases, grid_run),
            'explicit': (explicit_cases, explicit_run),
            'misc': (misc_cases, misc_run)}
