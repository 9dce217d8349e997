"""Independent reference designs and oracles shared by the checks."""
import numpy as np
from scipy import special


def optimal_zeros(n, opt):
    """Zero frequencies (normalized to the band) minimizing the in-band
    noise power, from orthogonal polynomials; sorted."""
    if opt == 0:
        return np.zeros(n)
    if opt == 1 or n % 2:
        return np.sort(special.roots_legendre(n)[0])
    # two zeros at the center: minimize the integral of x^4 r(x^2)^2
    if n == 2:
        return np.zeros(2)
    t = (special.roots_jacobi(n//2-1, 0, 1.5)[0]+1)/2
    return np.sort(np.concatenate((np.sqrt(t), -np.sqrt(t), [0, 0])))


def band(osr, f0):
    """Edges of the signal band of a real modulator."""
    if f0 > .25/osr:
        return f0-.25/osr, f0+.25/osr
    return 0., .5/osr


def design_zeros(order, osr, opt, f0):
    """Angles of the zeros of Schreier's NTFs."""
    if f0 == 0:
        return optimal_zeros(order, opt)*np.pi/osr
    a = optimal_zeros(order//2, opt)*np.pi/(2*osr)+2*np.pi*f0
    return np.concatenate((a, -a))


def gain(z, p, at):
    """Magnitude of a filter with unit leading coefficient."""
    return float(np.abs(np.prod(at-np.asarray(z))/np.prod(at-np.asarray(p))))


def resp(ntf, f):
    """Frequency response of a zpk filter, at normalized frequencies f."""
    e = np.exp(2j*np.pi*np.atleast_1d(np.asarray(f, float)))
    num = np.prod(e[:, None]-np.atleast_1d(ntf[0])[None, :], axis=1)
    den = np.prod(e[:, None]-np.atleast_1d(ntf[1])[None, :], axis=1)
    return ntf[2]*num/den


_GL = np.polynomial.legendre.leggauss(96)


def quad(fun, a, b, pieces=8):
    """Integral by composite Gauss-Legendre."""
    edges = np.linspace(a, b, pieces+1)
    tot = 0.
    for l, r in zip(edges[:-1], edges[1:]):
        tot += np.sum(fun((l+r)/2+(r-l)/2*_GL[0])*_GL[1])*(r-l)/2
    return tot


def band_rms(ntf, f1, f2):
    """Root mean square gain over a band."""
    return np.sqrt(quad(lambda f: np.abs(resp(ntf, f))**2, f1, f2)/(f2-f1))


def peak(ntf, f1=0., f2=.5, n=4001):
    """Peak gain over an interval (dense grid, refined about the top)."""
    f = np.linspace(f1, f2, n)
    g = np.abs(resp(ntf, f))
    i = int(np.argmax(g))
    lo, hi = f[max(i-1, 0)], f[min(i+1, n-1)]
    g2 = np.abs(resp(ntf, np.linspace(lo, hi, 401)))
    return float(max(g[i], g2.max()))


def match(a, b, tol):
    """Are two multisets of complex numbers the same within tol?"""
    a, b = list(np.atleast_1d(a)), list(np.atleast_1d(b))
    if len(a) != len(b):
        return False
    for x in a:
        d = [abs(x-y) for y in b]
        if not d:
            return False
        i = int(np.argmin(d))
        if not d[i] <= tol:
            return False
        b.pop(i)
    return True


def conj_closed(a, tol=1e-9):
    return match(a, np.conj(np.atleast_1d(a)), tol)


def zpk_ok(R, ntf, order, tag, stable=True, rmax=None, tol=1e-9, **info):
    """Structure of an NTF: unit gain, right order, real, stable."""
    ok = R.check(isinstance(ntf, tuple) and len(ntf) == 3, tag+'/triple',
                 got=ntf, **info)
    if not ok:
        return False
    z, p, k = ntf
    info = dict(info, z=z, p=p, k=k)
    ok = R.check(np.ndim(z) == 1 and np.ndim(p) == 1 and
                 len(z) == order and len(p) == order, tag+'/order', **info)
    ok = ok and R.check(np.all(np.isfinite(z)) and np.all(np.isfinite(p)),
                        tag+'/finite', **info)
    ok = ok and R.check(np.ndim(k) == 0 and abs(k-1) < 1e-12, tag+'/gain',
                        **info)
    ok = ok and R.check(conj_closed(z, tol) and conj_closed(p, tol),
                        tag+'/real', **info)
    if ok and stable:
        ok = R.check(np.all(np.abs(p) < 1), tag+'/stable', **info)
    if ok and rmax is not None:
        ok = R.check(np.all(np.abs(p) <= rmax*(1+1e-9)), tag+'/rmax', **info)
    return ok


# -- optimality certificates for NTFs with monic FIR numerators -----------

def lp_min(s):
    """Minimum of b' toeplitz(s) b over monic b (linear prediction)."""
    from scipy.linalg import toeplitz
    S = toeplitz(s)
    if len(s) == 1:
        return float(S[0, 0])
    x = np.linalg.lstsq(S[1:, 1:], S[1:, 0], rcond=1e-14)[0]
    return float(S[0, 0]-S[1:, 0] @ x)


def fir_resp2(b, f):
    return np.abs(np.polyval(b[::-1], np.exp(-2j*np.pi*np.asarray(f))))**2


def worst(fun, a, b, n):
    """Local maxima of a function over an interval, refined."""
    f = np.linspace(a, b, n)
    g = fun(f)
    h = np.r_[-np.inf, g, -np.inf]
    out = []
    for i in np.flatnonzero((g >= h[:-2]) & (g >= h[2:])):
        lo, hi = f[max(i-1, 0)], f[min(i+1, n-1)]
        ff = np.linspace(lo, hi, 201)
        gg = fun(ff)
        j = int(np.argmax(gg))
        out.append((float(ff[j]), float(gg[j])))
    return out


def _polish(mu, q0, C, H2):
    """Ascent on the (concave) dual function from a set of weights."""
    from scipy.linalg import toeplitz
    from scipy.optimize import minimize
    T = np.array([toeplitz(c) for c in C])
    Q = toeplitz(q0)
    s = mu.max()

    def f(x):
        S = Q+s*np.tensordot(x, T, 1)
        b = np.r_[1., -np.linalg.lstsq(S[1:, 1:], S[1:, 0],
                                       rcond=1e-14)[0]]
        v = b @ S @ b-s*H2*x.sum()
        g = s*(np.einsum('i,kij,j->k', b, T, b)-H2)
        return -v/q0[0], -g/q0[0]
    r = minimize(f, mu/s, jac=True, method='L-BFGS-B',
                 bounds=[(0, None)]*len(mu),
                 options={'maxiter': 500, 'ftol': 1e-15, 'gtol': 1e-10})
    x = np.maximum(r.x, 0)*s
    return lp_min(q0+x @ C)-H2*x.sum()


_OFF = np.r_[-np.logspace(-2.5, -6, 12), 0, np.logspace(-6, -2.5, 12)]


def dual_bound(b, q0, H2, aden=None, near=2e-2):
    """Certified lower bound on the objective over ALL the monic FIR b with
    |B|^2 <= H2 |A|^2 everywhere. The objective is b' toeplitz(q0) b. The dual
    measures are fitted from the candidate b, but the bound holds for any
    candidate."""
    from scipy.linalg import toeplitz
    from scipy.optimize import nnls
    P = len(b)-1
    n = np.arange(P+1)
    den = (lambda f: np.ones_like(f)) if aden is None else \
        (lambda f: fir_resp2(aden, f))
    ratio = lambda f: fir_resp2(b, f)/den(f)
    rows = []
    for f, g in worst(ratio, 0., .5, 2001):
        if g >= H2*(1-near):
            rows += list(np.clip(f+_OFF, 0, .5))
    rows = sorted(set(rows))
    cols = []
    for f in rows:
        c = np.cos(2*np.pi*f*n)
        cols.append(c/den(np.array([f]))[0])
    C = np.array(cols).reshape(-1, P+1)
    M = np.array([toeplitz(c)[1:] @ b for c in C]).T.reshape(P, -1)
    Q = toeplitz(q0)
    rhs = -(Q @ b)[1:]
    if C.shape[0]:
        s = max(np.abs(rhs).max(), 1e-300)
        try:
            mu = nnls(M, rhs/s, maxiter=10000)[0]*s
        except RuntimeError:
            mu = np.zeros(C.shape[0])
    else:
        mu = np.zeros(0)
    best = lp_min(q0)
    if not len(mu):
        return best
    best = max(best, lp_min(q0+mu @ C)-H2*mu.sum())
    v = float(b @ Q @ b)
    if best < v*(1-2e-4) and (mu > 0).any():
        best = max(best, _polish(mu, q0, C, H2))
    return best


def minmax_bound(order, bands, H, points, null=()):
    """Least maximum of |B| over the bands for a monic FIR of the order with
    |B| <= H, both only imposed on a grid including the given points (hence
    a lower bound for the real thing), with zeros at the null frequencies."""
    import cvxopt
    grid = [np.r_[lo+(hi-lo)*(1-np.cos(np.linspace(0, np.pi,
                                                   4*order+5)))/2,
                  [p for p in points if lo <= p <= hi]] for lo, hi in bands]
    fb = np.unique(np.concatenate(grid))
    fh = np.unique(np.r_[np.linspace(0, .5, 8*order+17), points])
    if not np.isfinite(H):
        fh = fh[:0]
    n = np.arange(1, order+1)

    def rows(f):
        c = 2*np.pi*np.outer(f, n)
        return np.cos(c), -np.sin(c)
    G, h = [], []
    for f, t in ((fb, True), (fh, False)):
        C, S = rows(f)
        for i in range(len(f)):
            G.append(np.r_[-1. if t else 0., np.zeros(order)])
            h.append(0. if t else H)
            G.append(np.r_[0., -C[i]])
            h.append(1.)
            G.append(np.r_[0., -S[i]])
            h.append(0.)
    k = len(fb)+len(fh)
    kw = {}
    if len(null):
        A, b = [], []
        for f in null:
            C, S = rows(np.array([f]))
            A.append(np.r_[0., C[0]])
            b.append(-1.)
            if 0 < f < .5:
                A.append(np.r_[0., S[0]])
                b.append(0.)
        kw = dict(A=cvxopt.matrix(np.array(A)), b=cvxopt.matrix(b))
    r = cvxopt.solvers.conelp(
        cvxopt.matrix(np.r_[1., np.zeros(order)]),
        cvxopt.matrix(np.array(G)), cvxopt.matrix(np.array(h)),
        dims={'l': 0, 'q': [3]*k, 's': []},
        options={'show_progress': False, 'abstol': 1e-9, 'reltol': 1e-8,
                 'feastol': 1e-8}, **kw)
    return float(r['dual objective']) if r['status'] == 'optimal' else None
