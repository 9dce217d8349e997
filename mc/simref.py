"""Reference model of the delta sigma modulator simulator.

Plain Python, no linear algebra library.  Used with dyadic data, on which
floating point arithmetic is exact, so that equality is bit for bit.
"""
import math

import numpy as np

BACKENDS = ('scipy', 'scipy_blas', 'cblas')


def quantize(y, n):
    """Legal level nearest to y; a tie goes to the upper level."""
    lo, hi = -(n - 1), n - 1
    if y >= hi:
        return float(hi)
    if y <= lo:
        return float(lo)
    # y in (lo, hi): index of the last level whose lower threshold is <= y
    k = math.floor((y - lo) / 2.0)        # level lo + 2k <= y
    lower = lo + 2 * k
    if y - lower >= 1.0:
        lower += 2
    return float(min(max(lower, lo), hi))


def near_tie(y, n, tol):
    """Is y within tol of a decision threshold of an n level quantizer?"""
    if y > n - 2 + tol or y < -(n - 2) - tol:
        return False
    off = (y - (-(n - 2))) / 2.0
    return abs(off - round(off)) * 2 <= tol


class Ref(object):
    def __init__(self, ABCD, nu, nlev):
        M = [[float(c) for c in row] for row in ABCD]
        nq = len(nlev)
        order = len(M) - nq
        self.order, self.nu, self.nq, self.nlev = order, nu, nq, list(nlev)
        self.A = [r[:order] for r in M[:order]]
        self.B1 = [r[order:order+nu] for r in M[:order]]
        self.B2 = [r[order+nu:order+nu+nq] for r in M[:order]]
        self.C = [r[:order] for r in M[order:]]
        self.D1 = [r[order:order+nu] for r in M[order:]]

    def step(self, x, u):
        """One transition: (next state, y, v)."""
        y = [sum(c*s for c, s in zip(cr, x)) + sum(d*w for d, w in zip(dr, u))
             for cr, dr in zip(self.C, self.D1)]
        v = [quantize(a, n) for a, n in zip(y, self.nlev)]
        nx = tuple(sum(a*s for a, s in zip(ar, x))
                   + sum(b*w for b, w in zip(b1, u))
                   + sum(b*w for b, w in zip(b2, v))
                   for ar, b1, b2 in zip(self.A, self.B1, self.B2))
        return nx, y, v

    def run(self, u, x0=None, N=None):
        """u: nu rows by N.  Returns dict of nested lists/arrays."""
        x = tuple(float(s) for s in (x0 if x0 is not None
                                     else [0.] * self.order))
        if N is None:
            N = len(u[0])
        v = np.empty((self.nq, N))
        y = np.empty((self.nq, N))
        xn = np.empty((self.order, N))
        xmax = [abs(s) for s in x]
        for i in range(N):
            x, yy, vv = self.step(x, [row[i] for row in u])
            v[:, i], y[:, i], xn[:, i] = vv, yy, x
            xmax = [max(a, abs(b)) for a, b in zip(xmax, x)]
        return {'v': v, 'y': y, 'xn': xn, 'xmax': np.array(xmax),
                'xlast': np.array(x)}


def sq(shape):
    return tuple(i for i in shape if i != 1)


def same(got, want, order='exact', tol=0.):
    """Same values, with shapes compared up to unit dimensions."""
    g = np.asarray(got)
    w = np.asarray(want)
    if sq(g.shape) != sq(w.shape) or g.dtype.kind not in 'fiu':
        return False
    g = g.reshape(w.shape)
    if tol == 0.:
        return bool(np.array_equal(g, w))
    return bool(np.all(np.abs(g-w) <= tol*(1+np.abs(w))))


def compare(R, out, ref, tag, N, store=(True, True, True), tol=0., **info):
    """out = simulateDSM(...) against the reference run."""
    R.need(isinstance(out, tuple) and len(out) == 4, tag + '/result', **info)
    v, xn, xmax, y = out
    sxn, sxm, sy = store
    ok = R.check(same(v, ref['v'], tol=tol), tag + '/v', got=v, want=ref['v'],
                 **info)
    w = ref['xn'] if sxn else ref['xlast']
    ok &= R.check(same(xn, w, tol=tol), tag + '/xn', got=xn, want=w, **info)
    if sxm:
        ok &= R.check(same(xmax, ref['xmax'], tol=tol), tag + '/xmax',
                      got=xmax, want=ref['xmax'], **info)
    else:
        ok &= R.check(np.size(xmax) == 0, tag + '/xmax-null', got=xmax,
                      **info)
    if sy:
        ok &= R.check(same(y, ref['y'], tol=tol), tag + '/y', got=y,
                      want=ref['y'], **info)
    else:
        ok &= R.check(np.size(y) == 0, tag + '/y-null', got=y, **info)
    return ok


def dyadic_abcd(order, nu, nq, variant):
    """Deterministic dyadic ABCD matrices, all blocks full and asymmetric.

    The feedback keeps the states from growing too fast, so that exactness
    holds for long words too (entries are multiples of 1/4).
    """
    n = order
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if variant == 0:                       # chain of integrators
                A[i, j] = 1. if j == i or j == i-1 else 0.
            elif variant == 1:                     # delay line with twist
                A[i, j] = (1. if j == (i+1) % n else 0.) * (-1 if i % 2 else 1)
            elif variant == 2:                     # nilpotent, dense
                A[i, j] = ((3*i+5*j) % 7 - 3)/2. if j > i else 0.
            else:                                  # dense permutation-like
                A[i, j] = (1. if (2*i+1) % n == j and n % 2 else 0.) + \
                    (((i*i+3*j) % 5-2)/2. if j < i else 0.)
    B1 = np.array([[((2*i+3*j+variant) % 5-2)/2. for j in range(nu)]
                   for i in range(n)]).reshape(n, nu)
    B2 = np.array([[-((i+2*j+variant) % 3+1)/4. for j in range(nq)]
                   for i in range(n)]).reshape(n, nq)
    C = np.array([[((i+2*j+variant) % 4-1)/2. + (j == n-1) for j in range(n)]
                  for i in range(nq)]).reshape(nq, n)
    D = np.array([[((i+3*j+variant) % 3-1)/2. + (j == i) for j in range(nu)]
                  for i in range(nq)]).reshape(nq, nu)
    return np.vstack((np.hstack((A, B1, B2)),
                      np.hstack((C, D, np.zeros((nq, nq))))))


def signal_pattern(kind, nu, N):
    """Deterministic dyadic inputs, multiples of 1/8 in [-1, 1]."""
    u = np.empty((nu, N))
    s = 0x1d
    for r in range(nu):
        for i in range(N):
            if kind == 'lfsr':
                s = (s >> 1) ^ (0xb8 if s & 1 else 0)
                u[r, i] = (s % 17-8)/8.
            elif kind == 'ramp':
                u[r, i] = ((i+3*r) % 17-8)/8.
            elif kind == 'const':
                u[r, i] = (3-2*r)/8.
            elif kind == 'pulse':
                u[r, i] = 1. if i % 13 == r else 0.
            else:
                u[r, i] = 0.
    return u
