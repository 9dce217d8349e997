"""C18: raw correlations."""
import itertools

import numpy as np

BOUNDS = ('every word and every pair of words over a small alphabet up to '
          'the length bound, equal or different lengths, every unit impulse '
          'pair up to length 10 (which decides the bilinear forms for those '
          'lengths), every maximum lag, lists and arrays; '
          'three patterns for 17 by 17 lengths up to 200; '
          'vectors at the limits of every pair of integer types.')
ASSUMPTIONS = []

ALPHA = (-1, 0, 2)


def ref(x, y, N):
    return [sum(x[n]*y[n-k] for n in range(len(x)) if 0 <= n-k < len(y))
            for k in range(N+1)]


def words(n):
    return itertools.product(ALPHA, repeat=n)


def one(R, f, args, N, want, name):
    got = f(*args, N)
    R.step()
    R.check(isinstance(got, np.ndarray), name+'/type')
    R.close(got, want, name, args=args, N=N)
    return got


def auto_run(R, n):
    from pydsm.correlations import raw_acorr
    for x in words(n):
        R.state(x)
        for N in range(n+1):
            want = np.array(ref(x, x, N))
            for xs in (list(x), x, np.array(x), np.array(x, float)*.5):
                s = .25 if isinstance(xs, np.ndarray) and \
                    xs.dtype == float else 1
                keep = np.array(xs)
                g = one(R, raw_acorr, (xs,), N, want*s, 'acorr')
                R.check(np.array_equal(np.array(xs), keep), 'changed', x=x)
        R.outcome(tuple(g))
        R.trace()
    R.sample({'x': x, 'q': g})


def cross_run(R, nx, ny):
    from pydsm.correlations import raw_xcorr
    for x, y in itertools.product(words(nx), words(ny)):
        R.state(x, y)
        for N in range(ny+1):
            want = ref(x, y, N)
            g = one(R, raw_xcorr, (x, y), N, want, 'xcorr')
        ax, ay = np.array(x), np.array(y, float)
        g = one(R, raw_xcorr, (ax, ay), N, want, 'xcorr')
        R.check(tuple(ax) == x and tuple(ay) == y, 'changed')
        R.outcome(tuple(g))
        R.trace()
    R.sample({'x': x, 'y': y, 'q': g})


def unit_run(R, nx):
    from pydsm.correlations import raw_acorr, raw_xcorr
    for ny in range(1, 11):
        for i in range(nx):
            x = np.eye(nx)[i]
            for j in range(ny):
                y = np.eye(ny)[j]
                N = ny
                R.state(ny, i, j)
                one(R, raw_xcorr, (x, y), N, ref(x, y, N), 'xcorr')
                if nx == ny:
                    one(R, raw_acorr, (x+3*y,), N, ref(x+3*y, x+3*y, N),
                        'acorr')
                    one(R, raw_xcorr, (x+y, x+y), N, raw_acorr(x+y, N),
                        'same')
                R.trace()


def auto_cases(tier):
    return [{'n': n} for n in range(1, 8 if tier == 'quick' else 10)]


def cross_cases(tier):
    m = 4 if tier == 'quick' else 5
    return [{'nx': a, 'ny': b} for a in range(1, m+1)
            for b in range(1, m+1) if a+b <= 2*m-1]


INTS = (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32,
        np.int64, np.uint64)


def types_run(R, tx, ty):
    from pydsm.correlations import raw_acorr, raw_xcorr
    tx, ty = INTS[tx], INTS[ty]
    ax, ay = [[np.iinfo(t).min//(2**43 if t(0).nbytes == 8 else 1),
               0, 1, np.iinfo(t).max//(2**44 if t(0).nbytes == 8 else 1)]
              for t in (tx, ty)]
    for x in itertools.product(ax, repeat=3):
        for y in itertools.product(ay, repeat=2):
            xi, yi = [int(i) for i in x], [int(i) for i in y]
            x1, y1 = np.array(x, tx), np.array(y, ty)
            R.state(xi, yi)
            if any(abs(i) >= 2**63 for i in ref(xi, yi, 2)+ref(xi, xi, 2)):
                continue
            one(R, raw_xcorr, (x1, y1), 2, ref(xi, yi, 2), 'xcorr')
            one(R, raw_acorr, (x1,), 2, ref(xi, xi, 2), 'acorr')
            R.trace()
    R.outcome(tx.__name__, ty.__name__)


LONG = (11, 12, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129,
        200)


def long_run(R, nx):
    from pydsm.correlations import raw_acorr, raw_xcorr
    for ny in LONG:
        for a, b in ((3, 7), (1, 5), (2, 11)):
            x = [(a*i*i+i) % 13-6 for i in range(nx)]
            y = [(b*i*i-i) % 11-5 for i in range(ny)]
            R.state(nx, ny, a, b)
            for N in sorted({0, 1, ny//2, ny-1, ny, min(nx, ny)}):
                one(R, raw_xcorr, (x, y), N, ref(x, y, N), 'long xcorr')
                one(R, raw_xcorr, (np.array(x)*.5, np.array(y)), N,
                    .5*np.array(ref(x, y, N)), 'long xcorr')
                if N <= nx:
                    one(R, raw_acorr, (np.array(x),), N, ref(x, x, N),
                        'long acorr')
            R.trace()
    R.outcome(nx)


FAMILIES = {
    'long': (lambda tier: [{'nx': n} for n in LONG], long_run),
    'types': (lambda tier: [{'tx': i, 'ty': j} for i in range(8)
                            for j in range(8)], types_run),
    'auto': (auto_cases, auto_run),
    'cross': (cross_cases, cross_run),
    'units': (lambda tier: [{'nx': n} for n in range(1, 11)], unit_run),
}
