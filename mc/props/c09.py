"""C09: DELSIG and Dunn tables of optimal zeros, band edges."""
import itertools

import numpy as np

from ..refs import match, optimal_zeros, quad, resp

BOUNDS = ('every row of the tables (n 1..14, opt 0..2; Dunn n 1..8), each '
          'against the closed form from orthogonal polynomials and against '
          'every single or double coordinate perturbation of its entries; '
          'every combination of osr, center frequency and complex flag on '
          'the listed grids.')
ASSUMPTIONS = ['table entries are taken with 1e-5 tolerance (as published in '
               'DELSIG, which optimized them numerically), Dunn ones exactly '
               'as published']

DUNN = {1: [0.], 2: [4.014], 3: [0., 6.443], 4: [3.590, 11.954],
        5: [0., 4.308, 12.959], 6: [3.325, 7.078, 13.389],
        7: [0., 4.017, 10.471, 13.842], 8: [2.933, 5.167, 12.012, 14.381]}


def table_cases(tier):
    for n in range(1, 15):
        for opt in (0, 1, 2):
            yield {'n': n, 'opt': opt}


_X, _W = np.polynomial.legendre.leggauss(40)


def power(z):
    """Integral over the band of the squared numerator (small angles)."""
    x = (_X+1)/2
    return float(np.sum(_W*np.prod(x[:, None]**2-z[None, :]**2,
                                   axis=1)**2))/2


def table_run(R, n, opt):
    from pydsm.delsig import ds_optzeros as f
    from pydsm import delsig
    z = f(n, opt)
    R.state('row')
    R.step()
    R.need(isinstance(z, np.ndarray) and z.shape == (n,) and
           np.isrealobj(z), 'shape', z=z)
    R.check(match(z, -z, 0), 'symmetric', z=z)
    R.check(np.all(np.abs(z) < 1), 'in band', z=z)
    want = optimal_zeros(n, opt)
    R.check(np.allclose(np.sort(z), want, rtol=0,
                        atol=1e-5 if n > 5 else 1e-9), 'values', z=z,
            want=want)
    if opt == 2:
        R.check(np.sum(z == 0) == (1 if n % 2 else 2), 'center', z=z)
    if opt == 0:
        R.check(np.all(z == 0), 'null', z=z)
    if n % 2:
        R.check(np.sum(z == 0) >= 1, 'odd center', z=z)
    # a positive zero for each pair: optimality against perturbations
    if opt:
        h = np.sort(z[z > 0])
        fixed = np.zeros(n//2-len(h))

        def P(h):
            x = (_X+1)/2
            r = np.prod(x[:, None]**2-h[None, :]**2, axis=1)
            return float(np.sum(_W*(r*x**(n-2*len(h)))**2))
        p0 = P(h)
        ds = (-1e-2, -1e-3, 1e-3, 1e-2)
        for i in range(len(h)):
            for j in range(i, len(h)):
                for a, b in itertools.product(ds, ds):
                    g = h.copy()
                    g[i] += a
                    if i != j:
                        g[j] += b
                    R.step()
                    if R.state(i, j, a, b if i != j else None):
                        R.check(P(g) >= p0*(1-1e-9), 'better zeros', z=z,
                                other=g)
    y = f(n, opt)
    y[:] = 9
    R.check(np.array_equal(f(n, opt), z), 'pure')
    R.check(np.array_equal(f(n=n, opt=opt), z), 'keywords')
    R.check(match(np.sort(f(n)), np.sort(f(n, 1)), 0), 'default')
    R.trace()
    R.outcome(tuple(z))
    R.sample({'n': n, 'opt': opt, 'z': z})


def beyond_cases(tier):
    for n in range(15, 19 if tier == 'quick' else 40):
        yield {'n': n}


def beyond_run(R, n):
    from pydsm.delsig import ds_optzeros as f
    from pydsm.NTFdesign.psychoacoustic import dunn_optzeros as d
    for opt in (1, 2):
        R.step()
        R.state(opt)
        R.raises(ValueError, lambda: f(n, opt), 'beyond table',
                 'not available', opt=opt)
    R.check(np.array_equal(f(n, 0), np.zeros(n)), 'null beyond table')
    for m in (n-6, n):
        R.step()
        R.raises(ValueError, lambda: d(m), 'dunn beyond table',
                 'not available', n=m)
    R.trace()
    R.outcome(n)
    R.sample({'n': n})


def dunn_cases(tier):
    for n in range(1, 9):
        yield {'n': n}


def dunn_run(R, n):
    from pydsm.NTFdesign.psychoacoustic import (dunn_optzeros as f,
                                                dunn_optzeros_cplx as g)
    z = f(n)
    R.step()
    R.state('row')
    R.need(isinstance(z, np.ndarray) and z.shape == (n,), 'shape', z=z)
    R.check(match(z, -z, 0), 'symmetric', z=z)
    want = np.array(DUNN[n])/22.05
    R.close(np.sort(z[z >= 0]), want, 'values', rtol=1e-12, atol=0)
    y = f(n)
    y[:] = 1
    R.check(np.array_equal(f(n), z), 'pure')
    for osr in (1, 1.5, 2, 8, 32, 64, 100, 1024):
        R.step()
        R.state('osr', osr)
        c = g(n, osr)
        R.check(match(c, np.exp(1j*np.pi*z/osr), 1e-12), 'complex', c=c,
                osr=osr)
    R.trace()
    R.outcome(tuple(z))
    R.sample({'n': n, 'z': z})


def band_cases(tier):
    osrs = (1, 2, 3.7, 8, 32, 64, 100, 256) if tier == 'quick' else \
        [1, 1.5, 2, 2.5, 3, 3.7, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 48, 50,
         64, 77.7, 100, 128, 200, 256, 512, 1000, 1024, 4096]
    for osr in osrs:
        yield {'osr': osr}


def band_run(R, osr):
    from pydsm.delsig import ds_f1f2 as f
    edge = .25/osr
    for f0 in sorted({0, 1e-9, edge/2, np.nextafter(edge, 0), edge,
                      np.nextafter(edge, 1), edge*1.5, edge*2, .1, .125, .2,
                      .25, .3, .4, .49, .5}):
        for cplx in (False, True):
            R.step()
            R.state(f0, cplx)
            if cplx:
                want = f0-.5/osr, f0+.5/osr
            elif f0 > edge:
                want = f0-.25/osr, f0+.25/osr
            else:
                want = 0, .5/osr
            got = f(osr, f0, cplx)
            R.check(len(got) == 2 and np.allclose(got, want, rtol=1e-12,
                                                  atol=1e-15),
                    'edges', f0=f0, cplx=cplx, got=got, want=want)
            R.check(abs(got[1]-got[0]-(1. if cplx else .5)/osr) < 1e-12,
                    'width', got=got)
            R.check(tuple(f(osr=osr, f0=f0, complex_flag=cplx)) ==
                    tuple(got), 'keywords')
            R.trace()
            R.outcome(cplx, got[0] == 0)
    R.check(tuple(f(osr)) == tuple(f(osr, 0, False)), 'defaults')
    R.check(np.allclose(f(), (0, .5/64)), 'all defaults')
    R.sample({'osr': osr})


def obj_cases(tier):
    for n in range(1, 7):
        for f0 in (0., .1, .25, .4) if n % 2 == 0 else (0.,):
            yield {'n': n, 'f0': f0}


def obj_run(R, n, f0):
    """Objective of the numeric optimization of the zeros: in-band noise
    (dB) of the NTF having zeros at the given offsets."""
    from pydsm.delsig import ds_synNTFobj1 as f
    p = np.array([.6, .5+.2j, .5-.2j, .4, .7+.1j, .7-.1j])
    p = p[:n] if n % 3 != 2 else np.r_[p[1:3], p[[3, 0]], p[4:]][:n]
    if f0:
        p = np.r_[[.8*np.exp(2j*np.pi*f0)]*(n//2),
                  [.8*np.exp(-2j*np.pi*f0)]*(n//2)]
    for osr in (16, 64):
        fa, fb = (f0-.25/osr, f0+.25/osr) if f0 else (0, .5/osr)
        m = n//2
        vals = (0., .3, .45, -.2)
        for k in range(1, m+1):
            for x in itertools.combinations_with_replacement(vals, k):
                x = np.array(x)
                if f0:
                    a = f0+np.r_[.5/osr*x, np.zeros(m-k)]
                    z = np.exp(2j*np.pi*np.r_[a, -a])
                else:
                    a = .5/osr*x
                    z = np.exp(2j*np.pi*np.r_[a, -a, np.zeros(n-2*k)])
                ff = np.linspace(fa, fb, 100)
                want = 10*np.log10(np.mean(np.abs(resp((z, p, 1), ff))**2))
                R.step()
                R.state(osr, x)
                R.close(f(x, p, osr, f0), want, 'objective', rtol=1e-9,
                        atol=1e-7, x=x, osr=osr)
                R.trace()
                R.outcome(round(want, 3))
    R.sample({'n': n, 'f0': f0})


FAMILIES = {'table': (table_cases, table_run),
            'beyond': (beyond_cases, beyond_run),
            'dunn': (dunn_cases, dunn_run), 'band': (band_cases, band_run),
            'objective': (obj_cases, obj_run)}
