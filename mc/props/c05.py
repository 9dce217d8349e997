"""C05: an NTF in zpk form is simulated as V = U + NTF E."""
import itertools

import numpy as np

from ..simref import BACKENDS, near_tie, quantize, sq
from .c19 import spaced

BOUNDS = ('all multisets of zeros and poles from a small alphabet of real '
          'values and conjugate pairs up to the order bound, with all input '
          'words up to the length bound or long patterns, all level counts '
          'and backends.')
ASSUMPTIONS = ['NTFs equal to 1 (all zeros cancelled by poles) are out of '
               'the domain',
               'for order 5 or more, state coordinates are compared within '
               '1e-3 relative, as the realization is badly conditioned',
               'floating point: the identity is checked within 1e-8 relative '
               'to the size of the signals; comparisons between runs stop at '
               'the first sample whose quantizer input is within 1e-7 of a '
               'threshold']


def sim(*a, **k):
    from pydsm.delsig import simulateDSM
    return simulateDSM(*a, **k)


PAIRS_Z = [[1.], [-1.], [.5], 'p0.1', 'p0.02', 'p1.5', 'p0.9*']
PAIRS_P = [[0.], [.5], [-.4], [.9], 'q.5,.3', 'q.2,.7', 'q-.3,.4']


def atom(a):
    if isinstance(a, list):
        return [complex(x) for x in a]
    if a[0] == 'p':                       # on the unit circle (* : inside)
        w = np.exp(1j*float(a[1:].rstrip('*')))*(.9 if a[-1] == '*' else 1)
    else:
        re, im = map(float, a[1:].split(','))
        w = re+1j*im
    return [complex(w), complex(w.conjugate())]


def sets(alphabet, order):
    """All multisets of atoms with the given total order."""
    def rec(i, left):
        if left == 0:
            yield []
            return
        if i == len(alphabet):
            return
        n = len(atom(alphabet[i]))
        if n <= left:
            for r in rec(i, left-n):
                yield [alphabet[i]]+r
        for r in rec(i+1, left):
            yield r
    return list(rec(0, order))


def grid_cases(tier):
    top = 4 if tier == 'quick' else 5
    for order in range(1, top+1):
        for z in sets(PAIRS_Z, order):
            yield {'z': z, 'order': order, 'N': 60 if tier == 'quick'
                   else 150}


def expand(z, p):
    """First samples of the impulse response of the NTF, by long division."""
    return np.poly(z).real, np.poly(p).real


def check_run(R, ntf, u, nlev, b, tag, x=None):
    """Run and check v = u + ntf(z) (v-y) and v = Q(y); returns (v, y, xn)."""
    from scipy.signal import lfilter
    z, p = ntf[0], ntf[1]
    v, xn, xmax, y = sim(u, ntf, nlev, store_xn=True, store_xmax=True,
                         store_y=True, backend=b)
    N = len(u)
    R.need(sq(np.shape(v)) == sq((N,)) and sq(np.shape(y)) == sq((N,)),
           tag+'/shape')
    v, y = np.ravel(v), np.ravel(y)
    R.need(np.all(np.isfinite(y)), tag+'/finite')
    e = v-y
    num, den = expand(z, p)
    w = lfilter(num, den, e)
    # size of the terms involved, for the tolerance
    g = lfilter(np.abs(num), [1.], np.abs(e))
    m = np.maximum.accumulate(np.abs(u)+np.abs(v)+g+1)
    bad = np.abs(v-u-w) > 1e-8*m
    if not R.check(not bad.any(), tag+'/identity', z=z, p=p, u=u, nlev=nlev,
                   at=int(np.argmax(bad)), v=v, y=y):
        return None
    for k in range(N):
        if v[k] != quantize(y[k], nlev) and not near_tie(
                y[k], nlev, 1e-12*m[k]):
            R.fail(tag+'/quantizer', y=y[k], v=v[k])
            break
    R.step(N)
    R.trace()
    return v, y, np.reshape(xn, (-1, N)), m


def agree(R, a, b, nlev, tag, states=True, tol=1e-8, **info):
    """Two runs agree up to the first sample near a threshold."""
    va, ya, xa, ma = a
    vb, yb, xb, mb = b
    n = len(va)
    for k in range(n):
        if near_tie(ya[k], nlev, 10*tol*ma[k]):
            break
        if not R.check(abs(ya[k]-yb[k]) <= tol*ma[k] and va[k] == vb[k],
                       tag+'/output', at=k, ya=ya[k], yb=yb[k], **info):
            return False
        if states and not R.check(
                np.all(np.abs(xa[:, k]-xb[:, k]) <=
                       10*tol*(ma[k]+np.abs(xa).max())),
                tag+'/state', at=k, xa=xa[:, k], xb=xb[:, k], **info):
            return False
    return True


def inputs(N):
    t = np.arange(N)
    yield .31*np.sin(.17*t+.4)+.05
    yield np.full(N, .2371)
    u = np.zeros(N)
    u[0] = .613
    u[N//2] = -.7
    yield u+.0123
    yield ((t*37 % 23)-11)/17.3


def grid_run(R, z, order, N):
    zz = [x for a in z for x in atom(a)]
    for pl in sets(PAIRS_P, order):
        pp = [x for a in pl for x in atom(a)]
        if np.allclose(np.poly(zz), np.poly(pp)):
            continue                    # NTF = 1: there is no loop filter
        R.state(tuple(z), tuple(map(str, pl)))
        for i, (u, nlev) in enumerate(zip(inputs(N), (2, 3, 5, 8))):
            runs = [check_run(R, (zz, pp, 1), u, nlev, b, b)
                    for b in BACKENDS]
            if None in runs:
                return
            for b, r in zip(BACKENDS[1:], runs[1:]):
                agree(R, runs[0], r, nlev, 'scipy-'+b, z=zz, p=pp)
            R.outcome(tuple(runs[0][0][:40]))
            if i == 0 and order > 1:
                # order of the singularities
                for b in BACKENDS:
                    r = check_run(R, (zz[::-1], pp[1:]+pp[:1], 1.), u, nlev,
                                  b, b+'/permuted')
                    if r is None:
                        return
                    agree(R, runs[0], r, nlev, 'permuted '+b, False, z=zz,
                          p=pp)
    R.sample({'z': z, 'p': pl, 'v': runs[0][0][:12]})


def word_cases(tier):
    L = 5 if tier == 'quick' else 7
    ntfs = [([1.], [0.]), ([1.], [.5]), ([1., 1.], [0., 0.]),
            ([1., 1.], ['q.5,.3']), (['p0.1'], [.5, .5]),
            (['p0.1', 1.], ['q.5,.3', .25]), ([1., 1., 1.], [0., 0., 0.]),
            (['p0.02', 'p0.1'], ['q.5,.3', 'q.2,.7'])]
    for z, p in ntfs:
        for nlev in (2, 3, 4, 7):
            yield {'z': z, 'p': p, 'nlev': nlev, 'L': L}


def word_run(R, z, p, nlev, L):
    zz = [x for a in z for x in atom(a if isinstance(a, str) else [a])]
    pp = [x for a in p for x in atom(a if isinstance(a, str) else [a])]
    for w in itertools.product((-.71, .13, .55, 1.3), repeat=L):
        u = np.array(w)
        runs = [check_run(R, (zz, pp, 1), u, nlev, b, b) for b in BACKENDS]
        if None in runs:
            return
        R.state(w)
        for b, r in zip(BACKENDS[1:], runs[1:]):
            agree(R, runs[0], r, nlev, 'scipy-'+b, u=u)
        R.outcome(tuple(runs[0][0]))
    R.sample({'z': z, 'p': p, 'u': u, 'v': runs[0][0]})


def design_cases(tier):
    for order in range(1, 9):
        for osr in (16, 64):
            for f0 in ((0., .25, .1) if order % 2 == 0 else (0.,)):
                yield {'order': order, 'osr': osr, 'f0': f0,
                       'N': 400 if tier == 'quick' else 4000}


def design_run(R, order, osr, f0, N):
    """The modulators that the design functions deliver."""
    from pydsm.NTFdesign import ntf_schreier
    for opt in (0, 1):
        for H_inf in (1.3, 1.5):
            ntf = ntf_schreier(order, osr, opt, H_inf, f0)
            n = np.arange(N)
            for nlev in (2, 5):
                u = .3*np.sin(2*np.pi*(f0+.2/osr)*n+.3)
                R.state(opt, H_inf, nlev)
                runs = [check_run(R, ntf, u, nlev, b, b) for b in BACKENDS]
                if None in runs:
                    return
                # high order realizations are badly conditioned
                tol = 1e-8 if order < 5 else 1e-4
                for b, r in zip(BACKENDS[1:], runs[1:]):
                    agree(R, runs[0], r, nlev, 'scipy-'+b, order < 8, tol)
                R.outcome(tuple(runs[0][0][:60]))
                # spelling of the NTF
                alt = (list(ntf[0]), np.array(ntf[1]), 1)
                for b in BACKENDS:
                    r = check_run(R, alt, u, nlev, b, b+'/lists')
                    if r is None:
                        return
                    agree(R, runs[0], r, nlev, 'lists '+b, order < 8, tol)
                # carry the final state to another backend
                if order > 6:
                    continue
                h = N//2
                _, x, _, _ = sim(u[:h], ntf, nlev, backend=BACKENDS[opt])
                for b in BACKENDS:
                    v, xn, _, y = sim(u[h:], ntf, nlev, x, True, False, True,
                                      backend=b)
                    R.trace()
                    full = runs[0]
                    if any(near_tie(a, nlev, 10*tol*m) for a, m in
                           zip(full[1], full[3])):
                        continue
                    agree(R, tuple(f[..., h:] for f in full),
                          (v, y, np.reshape(xn, (-1, N-h)), None), nlev,
                          'carried to '+b, True, tol)
    R.sample({'order': order, 'osr': osr, 'f0': f0, 'v': runs[0][0][:12]})


def large_cases(tier):
    return [{'n': n} for n in ((9, 10, 12, 16, 20, 32) if tier == 'quick' else
                               range(6, 50))]


def large_run(R, n):
    """High orders, with singularities far from each other."""
    for rz, rp, N in ((.9, 0., 200), (.97, 0., 200), (.99, .8, 120)):
        ntf = (spaced(n, rz, .5), spaced(n, rp, .2), 1.)
        for (u, nlev) in zip(inputs(N), (2, 3, 8, 33)):
            R.state(rz, rp, nlev)
            runs = [check_run(R, ntf, u, nlev, b, b) for b in BACKENDS]
            if None in runs:
                return
            for b, r in zip(BACKENDS[1:], runs[1:]):
                agree(R, runs[0], r, nlev, 'scipy-'+b, False, 1e-6)
            R.outcome(tuple(runs[0][0][:60]))


FAMILIES = {'large': (large_cases, large_run), 'grid': (grid_cases, grid_run), 'words': (word_cases, word_run),
            'designs': (design_cases, design_run)}
