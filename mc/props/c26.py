"""C26: helper placements of zeros for NTF design."""
import math

import numpy as np

BOUNDS = ('every order and steepness of the grids for maxflat_fir_zeros, at '
          'every frequency of a grid; every order, OSR, cost function, '
          'argument spelling and history of options of the grids for '
          'spread_fir_uc_zeros, against the exact optimum (orthogonal '
          'polynomials) and against every point of a lattice of placements.')
ASSUMPTIONS = ['L-BFGS-B reaches the optimum of in-band power costs to 1%']


def maxflat_cases(tier):
    for order in range(1, 9 if tier == 'quick' else 13):
        yield {'order': order, 'n': 9 if tier == 'quick' else 41}


def maxflat_run(R, order, n):
    from pydsm.NTFdesign.helpers import maxflat_fir_zeros
    th = np.linspace(0, np.pi, 129)
    z = np.exp(1j*th)
    for k in range(n):
        alpha = 10.**(-6+10.*k/(n-1))
        for spell in (alpha, np.float64(alpha)):
            R.step()
            p = maxflat_fir_zeros(order, spell)
            info = dict(alpha=alpha)
            R.need(isinstance(p, np.ndarray) and p.shape == (order,),
                   'one root per order', **info)
            R.check(np.all(np.abs(p) < 1), 'inside the unit circle', p=p,
                    **info)
            a = np.poly(p)
            R.check(np.max(np.abs(np.imag(a))) < 1e-7, 'conjugate pairs',
                    p=p, **info)
            # |A|^2 = |A(1)|^2 (1+alpha |1-1/z|^(2 order))
            A = np.prod(z[:, None]-p, axis=1)
            ref = 1+alpha*np.abs(1-1/z)**(2*order)
            got = np.abs(A)**2/np.abs(np.prod(1-p))**2
            R.close(got, ref, 'maximally flat response', rtol=1e-4,
                    atol=1e-4, **info)
            # the response of the NTF (1-1/z)^n / A never decreases
            h = np.abs(1-1/z)**order/np.abs(A)
            R.check(np.all(np.diff(h) > -1e-9*h.max()), 'monotonic NTF',
                    **info)
        R.state(alpha)
        R.outcome(int(math.floor(np.log10(np.abs(np.prod(1-p))))))


def grid(OSR, n=400):
    w = (np.arange(n)+.5)*np.pi/OSR/n
    return w, np.exp(1j*w)


WEIGHTS = {
    'flat': lambda x: np.ones_like(x),
    'up': lambda x: .05+x**2,
    'down': lambda x: 1.2-x,
}


def best(order, OSR, weight):
    """Exact optimum for weighted in-band power: the zeros of an orthogonal
    polynomial in cos w."""
    w, z = grid(OSR)
    x = w*OSR/np.pi
    m = WEIGHTS[weight](x)
    if order % 2:
        m = m*np.abs(z-1)**2
    n = order//2
    c = np.cos(w)
    # Gram-Schmidt on scaled variable for conditioning
    lo, hi = c.min(), c.max()
    s = (2*c-lo-hi)/(hi-lo)
    p0, p1 = np.zeros_like(s), np.ones_like(s)
    al, be = [], []
    prev = 1.
    for k in range(n):
        nn = (m*p1*p1).sum()
        a = (m*s*p1*p1).sum()/nn
        b = nn/prev if k else 0.
        al.append(a)
        be.append(b)
        p0, p1 = p1, (s-a)*p1-b*p0
        prev = nn
    J = np.diag(al)+np.diag(np.sqrt(be[1:]), 1)+np.diag(np.sqrt(be[1:]), -1)
    r = np.sort(np.linalg.eigvalsh(J)) if n else np.array([])
    th = np.arccos((r*(hi-lo)+lo+hi)/2)
    zz = np.concatenate((np.exp(1j*th), np.exp(-1j*th)))
    if order % 2:
        zz = np.append(zz, 1.)
    return zz


def power(zeros, OSR, weight):
    w, z = grid(OSR)
    m = WEIGHTS[weight](w*OSR/np.pi)
    return float((m*np.abs(np.prod(z[:, None]-np.asarray(zeros),
                                   axis=1))**2).mean())


def structure(R, z, order, OSR, **info):
    R.need(isinstance(z, np.ndarray) and z.shape == (order,),
           'one zero per order', z=z, **info)
    R.close(np.abs(z), np.ones(order), 'unit circle', **info)
    a = np.angle(z)
    R.check(np.all(np.abs(a) <= np.pi/OSR+1e-9), 'in the band', z=z, **info)
    up = np.sort(a[a > 1e-12])
    dn = np.sort(-a[a < -1e-12])
    R.check(len(up) == len(dn) and np.allclose(up, dn), 'conjugate pairs',
            z=z, **info)
    if order % 2:
        R.check(np.min(np.abs(z-1)) < 1e-12, 'zero in one', z=z, **info)


def spread_cases(tier):
    for order in range(2, 7 if tier == 'quick' else 9):
        for OSR in (4, 16, 32.5, 64, 128) if tier == 'quick' else (
                2, 4, 8, 16, 32.5, 64, 128, 256):
            for weight in sorted(WEIGHTS):
                yield {'order': order, 'OSR': OSR, 'weight': weight,
                       'lattice': 5 if tier == 'quick' else 9}


def spread_run(R, order, OSR, weight, lattice):
    import itertools
    from pydsm.NTFdesign.helpers import spread_fir_uc_zeros
    ref = power(best(order, OSR, weight), OSR, weight)
    seen = []

    def cf(tf, *args, **kw):
        seen.append((tf, args, kw))
        z, p, k = tf
        return power(z, args[0] if args else kw['OSR'], kw['weight'])

    first = None
    for pos in (True, False):
        del seen[:]
        R.step()
        if pos:
            z = spread_fir_uc_zeros(order, OSR, cf, [OSR],
                                    {'weight': weight})
        else:
            z = spread_fir_uc_zeros(order, OSR, cf, cf_args=(),
                                    cf_kwargs={'OSR': OSR,
                                               'weight': weight})
        structure(R, z, order, OSR)
        for tf, args, kw in seen:
            R.check(len(tf) == 3 and np.shape(tf[0]) == (order,) and
                    np.array_equal(tf[1], np.zeros(order)) and tf[2] == 1,
                    'cost evaluated on FIR transfer functions in zpk form')
        if first is None:
            first = z.copy()
        R.close(z, first, 'spelling of the arguments')
    got = power(first, OSR, weight)
    R.check(got <= ref*1.01, 'optimal placement', got=got, want=ref,
            z=first, best=best(order, OSR, weight))
    R.check(got >= ref*(1-1e-6), 'reference is the optimum', got=got,
            want=ref)
    # exhaustive lattice of placements, mostly coarser than the optimum
    pts = np.linspace(0, np.pi/OSR, lattice)
    for c in itertools.combinations_with_replacement(pts, order//2):
        zz = np.exp(1j*np.array(c))
        zz = np.concatenate((zz, zz.conj(), [1.]*(order % 2)))
        R.bulk_states(1)
        R.check(power(zz, OSR, weight) >= got*.99, 'no better placement',
                c=c)
    R.trace()
    R.outcome(order, round(-math.log10(got)))


def opts_cases(tier):
    yield {}


def opts_run(R):
    """Options reach the optimizer, over histories of calls."""
    import inspect
    import itertools
    import scipy.optimize
    from pydsm.NTFdesign import helpers
    f = helpers.spread_fir_uc_zeros
    key = 'L_BFGS_B_opts'
    base = {k: dict(v) for k, v in f.default_options.items()}
    saved = scipy.optimize.minimize
    where = [(m, n) for m in (helpers, scipy.optimize)
             for n, v in list(vars(m).items()) if v is saved]
    sig = inspect.signature(saved)
    seen = []

    def spy(*a, **k):
        ar = sig.bind(*a, **k).arguments
        seen.append((np.array(ar['x0']), dict(ar.get('options') or {})))
        return saved(*a, **k)

    def cost(tf, b=1):
        return b*power(tf[0], 16, 'flat')
    calls = [{}, {'maxiter': 3}, {'ftol': 1e-4, 'eps': 1e-7}]
    dflt = [None, {'gtol': 1e-3}, {'maxiter': 50}]
    for m, n in where:
        setattr(m, n, spy)
    try:
        for hist in itertools.product(range(9), repeat=2):
            f.default_options = {k: dict(v) for k, v in base.items()}
            cur = dict(base[key])
            for h in hist:
                o, d = calls[h % 3], dflt[h // 3]
                if d:
                    f.default_options[key].update(d)
                    cur.update(d)
                del seen[:]
                R.step()
                R.state(hist, h)
                given = dict(o)
                z = f(4, 16, cost, **({key: given} if o else {}))
                R.check(given == o, 'options of the caller', o=o)
                structure(R, z, 4, 16, hist=hist)
                R.need(len(seen) > 0, 'optimization', hist=hist)
                x0, got = seen[-1]
                R.check(got == dict(cur, **o), 'options at the optimizer',
                        got=got, want=dict(cur, **o), hist=hist)
                R.check(f.default_options[key] == cur,
                        'default options unchanged', hist=hist)
                R.check(x0.shape == (2,) and (x0 >= 0).all() and
                        (x0 <= np.pi/16+1e-12).all(), 'starting point',
                        x0=x0)
        f.default_options = {k: dict(v) for k, v in base.items()}
        for bad in ({'foo': 1}, {'ftol': 1e-3}, {'opts': {}}):
            R.raises(TypeError, lambda: f(4, 16, cost, **bad),
                     'unknown option', bad=bad)
        # results do not depend on the scale of the cost
        z1 = f(5, 16, cost, [1.])
        z2 = f(5, 16, cost, [1e-6])
        R.close(np.sort(np.angle(z1)), np.sort(np.angle(z2)),
                'scale of the cost', rtol=1e-2, atol=1e-4)
        R.check(z1 is not z2, 'separate results')
        z3 = z1.copy()
        f(5, 8, cost)
        R.close(z1, z3, 'earlier result unchanged')
    finally:
        for m, n in where:
            setattr(m, n, saved)
        f.default_options = base
    R.outcome('options')


FAMILIES = {
    'maxflat': (maxflat_cases, maxflat_run),
    'spread': (spread_cases, spread_run),
    'options': (opts_cases, opts_run),
}
