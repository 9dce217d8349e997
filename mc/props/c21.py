"""C21: Matlab compatibility and utility functions."""
import itertools
import math
import signal

import numpy as np

BOUNDS = ('cplxpair: every multiset of atoms (conjugate pairs and reals, '
          'including repeated values, equal real parts and near-conjugates) '
          'up to the size bound in every order of the entries (up to the '
          'permutation bound), every wrong multiset, every axis, up to 65 '
          'values in the orders given by rotations and strides, all lists of '
          'two to four values of a lattice with tolerances as large as its '
          'step; shiftdim: '
          'every shape with up to 4 dimensions of size 1..3 and every shift; '
          'chop, is_negligible, eps, db, mdot: every value of the grids '
          '(around each tolerance, each power of two) in every shape.')
ASSUMPTIONS = []

ATOMS = ((1.,), (-2.,), (0.,), (1.,), (1+1j, 1-1j), (1+2j, 1-2j),
         (-1+.5j, -1-.5j), (0+1j, 0-1j), (3-1e-3j, 3+1e-3j),
         (1+1j, 1-1j))


def sorted_pairs(vals):
    """Expected result."""
    re = sorted(v.real for v in vals if v.imag == 0)
    up = sorted((v for v in vals if v.imag > 0),
                key=lambda v: (v.real, v.imag))
    out = []
    for v in up:
        out += [v.conjugate(), v]
    return out, re


def pair_cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n+1):
        for c in itertools.combinations(range(len(ATOMS)), k):
            if sum(len(ATOMS[i]) for i in c) <= (6 if tier == 'quick'
                                                 else 7):
                yield {'atoms': list(c)}


def contract(R, got, vals, tol, **info):
    """Same values, pairs first by increasing real part, exact conjugates,
    negative imaginary part first; reals in increasing order."""
    pairs, re = sorted_pairs(vals)
    got = list(got)
    if not R.check(len(got) == len(vals), 'size', got=got, **info):
        return
    m = len(pairs)
    g = [complex(v) for v in got]
    R.check(all(g[i].conjugate() == g[i+1] and g[i].imag < 0
                for i in range(0, m, 2)), 'pairs', got=got, **info)
    R.check(all(v.imag == 0 for v in g[m:]), 'reals last', got=got, **info)
    R.check([v.real for v in g[m:]] == re, 'reals', got=got, **info)
    r = [v.real for v in g[:m:2]]
    R.check(all(a <= b+tol for a, b in zip(r, r[1:])), 'order', got=got,
            **info)
    left = list(pairs)
    for v in g[:m]:
        d = min(left, key=lambda w: abs(w-v), default=None)
        if d is None or abs(d-v) > tol*max(1, abs(v)):
            R.fail('values', got=got, **info)
            return
        left.remove(d)


def pair_run(R, atoms):
    from pydsm.relab import cplxpair
    vals = [complex(v) for i in atoms for v in ATOMS[i]]
    pairs, re = sorted_pairs(vals)
    seen = set()
    for perm in itertools.permutations(vals):
        if perm in seen:
            continue
        seen.add(perm)
        R.state(perm)
        R.step()
        x = np.array(perm)
        keep = x.copy()
        y = cplxpair(x)
        R.check(isinstance(y, np.ndarray) and y.shape == x.shape, 'shape',
                x=x)
        contract(R, y, vals, 0, x=x)
        R.check(np.isrealobj(y) == (not pairs), 'type', x=x, y=y)
        R.check(np.array_equal(x, keep), 'argument changed', x=x)
        y2 = cplxpair(list(perm))
        R.check(np.array_equal(y2, y), 'list', x=x)
        R.trace()
    R.outcome(tuple(y))
    # tiny deviations from conjugation are paired, exactly
    e = 1e-15
    for signs in itertools.product((-1, 0, 1), repeat=min(len(vals), 4)):
        x = np.array(vals)
        for i, s in enumerate(signs):
            if x[i].imag:
                x[i] += s*e*(1j if i % 2 else 1)
        R.state('near', signs)
        R.step()
        contract(R, cplxpair(x), vals, 1e-13, x=x)
    # a tolerance to pair loosely
    if pairs and len(set(np.round(pairs, 2))) == len(pairs):
        x = np.array(vals)
        for i in range(len(x)):
            if x[i].imag > 0:
                x[i] *= 1+1e-6
        R.raises(ValueError, lambda: cplxpair(x), 'loose', x=x)
        contract(R, cplxpair(x, tol=1e-3), vals, 1e-4, x=x) \
            if not any(0 < abs(v.imag) <= 1.1e-3*abs(v) for v in vals) \
            else None
    # spoiled lists
    for i, v in enumerate(vals):
        if v.imag:
            R.step()
            x = vals[:i]+vals[i+1:]
            R.raises(ValueError, lambda: cplxpair(x), 'unpaired', x=x)
            for w in (v+.1, v*1.01, v+.1j, complex(v.real), v.conjugate()):
                x = vals[:i]+[w]+vals[i+1:]
                if can_pair(x):
                    continue
                R.raises(ValueError, lambda: cplxpair(x), 'spoiled', x=x)
    R.sample({'x': [str(v) for v in perm], 'y': [str(v) for v in y]})


def can_pair(x):
    left = [v for v in x if v.imag]
    while left:
        v = left.pop()
        if v.conjugate() not in left:
            return False
        left.remove(v.conjugate())
    return True


COLS = [(1+1j, 1-1j, 2.), (2., 1+1j, 1-1j), (5., -1., 0.), (-1+1j, 3.,
                                                           -1-1j),
        (4., 4., 4.)]


def axis_run(R, ndim):
    from pydsm.relab import cplxpair
    for cols in itertools.product(range(len(COLS)), repeat=4):
        # vectors of 3 along the chosen axis
        a = np.array([COLS[i] for i in cols], complex)      # 4 x 3
        want = [sum(sorted_pairs([complex(v) for v in COLS[i]]), [])
                for i in cols]
        want = np.array(want, complex)
        if ndim == 3:
            a, want = a.reshape(2, 2, 3), want.reshape(2, 2, 3)
        for ax in range(ndim):
            x = np.moveaxis(a, -1, ax)
            w = np.moveaxis(want, -1, ax)
            R.state(cols, ax)
            R.step()
            R.close(cplxpair(x, dim=ax), w, 'axis', rtol=0, atol=0, x=x,
                    ax=ax)
            if ax == 0:
                R.close(cplxpair(x), w, 'default axis', rtol=0, atol=0, x=x)
                R.close(cplxpair(x[None]), w[None], 'first non unit axis',
                        rtol=0, atol=0, x=x)
            R.trace()
        if ndim == 2 and all(i in (2, 4) for i in cols):
            xr = a.real.astype(int)
            y = cplxpair(xr, dim=1)
            R.check(np.array_equal(y, np.sort(xr, axis=1)), 'integers')


def real_run(R, n):
    from pydsm.relab import cplxpair
    for x in itertools.product((3, -1, 0, 2), repeat=n):
        R.state(x)
        R.step()
        for xs in (list(x), np.array(x), np.array(x, float),
                   np.array(x, complex)):
            y = cplxpair(xs)
            R.check(np.isrealobj(y) and list(y) == sorted(x), 'reals', x=x,
                    y=y)
    R.check(np.array_equal(cplxpair(1), [1]), 'scalar')
    R.check(np.size(cplxpair([])) == 0, 'empty')


def shift_cases(tier):
    for nd in range(1, 5):
        for first in (1, 2, 3):
            yield {'nd': nd, 'first': first}


def shift_run(R, nd, first):
    from pydsm.relab import shiftdim
    for rest in itertools.product((1, 2, 3), repeat=nd-1):
        s = (first,)+rest
        x = np.arange(int(np.prod(s))).reshape(s)
        lead = next((i for i, v in enumerate(s) if v > 1), 0)
        for n in (None,)+tuple(range(-3, nd+1)):
            R.state(s, n)
            R.step()
            m = lead if n is None else n
            if m < 0:
                want, wn = x.reshape((1,)*-m+s), m
            else:
                wn = m % nd
                if wn == 0:
                    want = x
                elif wn <= lead:
                    want = x.reshape(s[wn:])
                else:
                    want = x.transpose(list(range(wn, nd))+list(range(wn)))
            for xs in (x, x.tolist()):
                r = shiftdim(xs, n)
                if not R.check(isinstance(r, tuple) and len(r) == 2,
                               'outputs', r=r):
                    return
                y, k = r
                R.check(k == wn, 'shift', s=s, n=n, k=k)
                R.check(y.shape == want.shape and np.array_equal(y, want),
                        'array', s=s, n=n, shape=y.shape)
                y1 = shiftdim(xs, n, nargout=1)
                R.check(isinstance(y1, np.ndarray) and
                        np.array_equal(y1, want), 'nargout', s=s, n=n)
            if n is None:
                # back
                b = shiftdim(y, -k, nargout=1)
                R.check(b.shape == s and np.array_equal(b, x), 'round trip',
                        s=s)
            R.trace()


def eps_run(R):
    from pydsm.relab import eps
    R.check(eps() == 2.**-52, 'default')
    for t, b, lo, hi in ((np.float64, 52, -1074, 1023),
                         (np.float32, 23, -149, 127),
                         (np.float16, 10, -24, 15)):
        R.check(eps(t) == 2.**-b and eps(np.dtype(t)) == 2.**-b, 'type')
        for e in range(lo, hi+1, 1 if hi < 1000 else 7):
            for f in (1., 1.5, 2-2.**-b):
                x = t(math.ldexp(f, e))
                if x == 0 or not np.isfinite(np.nextafter(x, t(np.inf))):
                    continue
                R.state(t.__name__, e, f)
                R.step()
                want = math.ldexp(1., max(math.frexp(float(x))[1]-1-b, lo))
                for v in (x, -x):
                    R.check(float(eps(v)) == want, 'spacing', x=v,
                            got=eps(v), want=want)
                g = eps(np.array([[x, -x]], t))
                R.check(g.shape == (1, 2) and np.all(g == want), 'array',
                        x=x)
    R.check(eps(0.) == 2.**-1074 and eps(.5) == 2.**-53 and
            list(eps([1., 2.])) == [2.**-52, 2.**-51], 'values')


def db_run(R):
    from pydsm.relab import db
    V = [1., .1, 2., 1e6, 1e-9, 7, 3]
    for v in V:
        for r in (1, 50., .1):
            R.state(v, r)
            R.step()
            R.close(db(v, 'voltage', r), 20*math.log10(v)-10*math.log10(r),
                    'voltage', v=v, r=r)
            R.close(db(v, R=r), 20*math.log10(v)-10*math.log10(r),
                    'voltage', v=v, r=r)
            R.close(db(-v, R=r), 20*math.log10(v)-10*math.log10(r),
                    'negative', v=v, r=r)
            R.close(db(v, 'power', r), 10*math.log10(v), 'power', v=v, r=r)
        R.close(db(v), 20*math.log10(v), 'default', v=v)
        R.close(db(v, signal_type='power'), 10*math.log10(v), 'power', v=v)
    R.close(db(np.array(V)), [20*math.log10(v) for v in V], 'array')
    R.close(db(np.array(V), 'power'), [10*math.log10(v) for v in V], 'array')


def chop_run(R, tol):
    from pydsm.utilities import EPS, chop, is_negligible
    kw = [{}, {'tol': 100*EPS}] if tol is None else [{'tol': tol}]
    t = 100*EPS if tol is None else tol
    R.check(EPS == 2.**-52, 'EPS')
    lo, hi = np.nextafter(t, 0), np.nextafter(t, 1)
    P = [0., lo, -lo, t, -t, hi, -hi, t/2, 1., -3., t*2]
    for k in kw:
        for v in P:
            R.state(v, len(k))
            R.step()
            small = abs(v) < t
            R.check(bool(is_negligible(v, **k)) == small, 'negligible', v=v)
            got = chop(v, **k)
            R.check(got == (0. if small else v), 'chop', v=v, got=got)
            for w in P:
                c = complex(v, w)
                R.state(v, w, len(k))
                R.step()
                g = complex(chop(c, **k))
                R.check(g == complex(0. if small else v,
                                     0. if abs(w) < t else w),
                        'chop complex', c=c, got=g)
                if abs(abs(c)-t) > 1e-9*t:
                    R.check(bool(is_negligible(c, **k)) == (abs(c) < t),
                            'negligible complex', c=c)
                for x in (np.array([[v, w]]), [[v, w]], [[v, w, 1]]):
                    keep = np.array(x)
                    g = chop(x, **k)
                    want = np.where(np.abs(keep) < t, 0., keep)
                    R.check(g.shape == want.shape and np.all(g == want),
                            'chop array', x=x, got=g)
                    R.check(np.array_equal(np.array(x), keep) and
                            g is not x, 'changed', x=x)
                    n = is_negligible(x, **k)
                    R.check(n.shape == want.shape and
                            np.all(n == (np.abs(keep) < t)),
                            'negligible array', x=x)
                    if isinstance(x, np.ndarray):
                        g = chop(x*(1+0j)+1j*x[:, ::-1], **k)
                        R.check(np.all(g.real == want) and
                                np.all(g.imag == want[:, ::-1]),
                                'chop complex array', x=x)
                        y = chop(x, **k)
                        y[...] = 5
                        R.check(np.array_equal(x, keep), 'alias', x=x)
        R.trace()


def mdot_run(R):
    from pydsm.utilities import mdot
    M = [np.array([[1., 2], [3, 4]]), np.array([[0., 1], [-1, 0]]),
         np.array([[2., 0], [1, 1]]), np.array([1., -2])]

    def mul(a, b):
        """Plain dot product."""
        a2 = a.reshape(-1, a.shape[-1])
        b2 = b.reshape(b.shape[0], -1)
        c = np.array([[sum(a2[i, k]*b2[k, j] for k in range(b2.shape[0]))
                       for j in range(b2.shape[1])]
                      for i in range(a2.shape[0])])
        return c.reshape(a.shape[:-1]+b.shape[1:])
    for n in range(1, 5):
        for c in itertools.product(range(4), repeat=n):
            if 3 in c[1:-1]:
                continue        # inner vectors would contract to scalars
            a = [M[i] for i in c]
            R.state(c)
            R.step()
            want = a[0]
            for b in a[1:]:
                want = mul(want, b)
            R.close(mdot(*a), want, 'mdot', c=c)
            R.close(mdot(*[x.tolist() for x in a]), want, 'mdot list', c=c)
    for s in [(2, 3, 4), (1, 5, 2), (3, 1, 1)]:
        a = np.arange(s[0]*s[1]).reshape(s[:2])
        b = np.arange(s[1]*s[2]).reshape(s[1:])
        c = np.arange(s[2]*2).reshape(s[2], 2)
        R.close(mdot(a, b, c), mul(mul(a, b), c), 'rectangular', s=s)


def long_run(R, n):
    """Many values, in every rotation and stride of the order."""
    from pydsm.relab import cplxpair
    for reals in sorted({0, 1, n//3, n}):
        pairs = (n-reals)//2
        re = [((7*i) % 11-5)/2. for i in range(n-2*pairs)]
        up = [complex(((5*i) % 9-4)/2., 1+((3*i) % 7)/4.)
              for i in range(pairs)]
        vals = re+up+[v.conjugate() for v in up]
        vals = [complex(v) for v in vals]
        for stride in range(1, n+1):
            if math.gcd(stride, n) != 1:
                continue
            for shift in range(0, n, max(1, n//5)):
                x = [vals[(shift+stride*i) % n] for i in range(n)]
                R.state(reals, stride, shift)
                R.step()
                contract(R, cplxpair(np.array(x)), vals, 0, x=x)
            R.trace()
        R.outcome(n, reals)


class Endless(Exception):
    pass


def limited(seconds, fn):
    """fn() within some CPU time."""
    def stop(sig, frame):
        raise Endless()
    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def matching(vals, near):
    """Can the values be coupled so that near holds for every couple?"""
    if not vals:
        return True
    v, rest = vals[0], vals[1:]
    return any(near(v, w) and matching(rest[:i]+rest[i+1:], near)
               for i, w in enumerate(rest))


LATTICE = [complex(r, i) for r in (-1., -.5, 1.) for i in (-1, -.4, .4, 1)]


def coarse_cases(tier):
    return [{'n': 2, 'tol': t, 'first': None} for t in (.1, .3, .5, .9)] + \
        [{'n': 3, 'tol': .5, 'first': None}] + \
        [{'n': 4, 'tol': t, 'first': i} for t in (.1, .3, .5, .7)
         for i in range(len(LATTICE))]


def coarse_run(R, n, tol, first):
    """Tolerances comparable to the values: every list is either paired, each
    value moved by no more than that, or rejected."""
    from pydsm.relab import cplxpair
    fixed = () if first is None else (LATTICE[first],)
    words = itertools.product(LATTICE, repeat=n) if not fixed else (
        fixed+w for w in itertools.combinations_with_replacement(
            LATTICE[first:], n-1))
    num = 0
    for k, w in enumerate(words):
        x = w[k % n:]+w[:k % n]
        R.state(x)
        R.step()
        num += 1
        cplx = [v for v in x if abs(v.imag) > tol*abs(v)]
        loose = matching(cplx, lambda a, b: max(
            abs(a.real-b.real), abs(a.imag+b.imag)) <=
            2.01*tol*max(abs(a), abs(b)))
        try:
            y = limited(5, lambda: cplxpair(np.array(x), tol=tol))
        except Endless:
            R.fail('endless', x=x, tol=tol)
            return
        except ValueError:
            R.check(not can_pair(cplx), 'coarse rejected', x=x, tol=tol)
            R.outcome('rejected')
            continue
        R.check(loose, 'coarse accepted', x=x, tol=tol, y=y)
        R.outcome('paired', len(cplx))
        m = len(cplx)
        R.check(np.array_equal(np.conj(y[0:m:2]), y[1:m:2]) and
                np.all(y[1:m:2].imag > 0) and np.all(np.imag(y[m:]) == 0) and
                np.all(np.diff(y[m:].real) >= 0), 'coarse pairs', x=x,
                tol=tol, y=y)
        R.check(any(all(abs(a-b) <= 3*tol*max(abs(a), abs(b))
                        for a, b in zip(y, z))
                    for z in itertools.permutations(x)), 'coarse values',
                x=x, tol=tol, y=y)
    R.trace(num)


FAMILIES = {
    'coarse': (coarse_cases, coarse_run),
    'long': (lambda tier: [{'n': n} for n in (
        list(range(7, 25)) + [30, 32, 33, 40, 50, 64, 65])], long_run),
    'pairs': (pair_cases, pair_run),
    'axis': (lambda tier: [{'ndim': 2}, {'ndim': 3}], axis_run),
    'reals': (lambda tier: [{'n': n} for n in range(1, 6)], real_run),
    'shift': (shift_cases, shift_run),
    'eps': (lambda tier: [{}], eps_run),
    'db': (lambda tier: [{}], db_run),
    'chop': (lambda tier: [{'tol': t} for t in (None, 1e-3, 1e-10, .5)],
             chop_run),
    'mdot': (lambda tier: [{}], mdot_run),
}
