"""C19: impulse responses and their length."""
import itertools

import numpy as np

BOUNDS = ('every filter with singularities drawn from the listed alphabet of '
          'conjugate-closed atoms up to the order bound, in zpk and ba form '
          'and for every gain; every pair of coefficient words over a small '
          'alphabet as ba form; every length up to 30 and every decay '
          'specification of the grid; poles up to radius 0.9995 together with '
          'faster ones, responses up to length 501.')
ASSUMPTIONS = ['accuracy of poles of radius above 0.95 1e-6; else accuracy 1e-7 relative to the '
               'largest sample, as root finding is ill conditioned on '
               'multiple poles']

P_ATOMS = ((0.,), (.5,), (-.8,), (.9,), (.3+.4j, .3-.4j), (.6+.7j, .6-.7j),
           (-.05j, .05j))
Z_ATOMS = ((0.,), (1.,), (-1.,), (1.5,), (.8+.6j, .8-.6j), (-.5+.1j,
                                                           -.5-.1j))


def multisets(atoms, order):
    """Multisets of atoms with that many singularities."""
    out = []

    def rec(i, left, acc):
        if left == 0:
            out.append(tuple(acc))
            return
        for j in range(i, len(atoms)):
            if len(atoms[j]) <= left:
                rec(j, left-len(atoms[j]), acc+list(atoms[j]))
    rec(0, order, [])
    return out


def recursion(b, a, m):
    """Plain difference equation."""
    b, a = list(b), list(a)
    y = []
    for n in range(m):
        v = b[n] if n < len(b) else 0.
        for i in range(1, min(len(a), n+1)):
            v -= a[i]*y[n-i]
        y.append(v/a[0])
    return np.array(y)


def zpk_ref(z, p, k, m):
    """Response by cascading first order sections, in complex arithmetic."""
    h = np.zeros(m, complex)
    h[0] = k
    for x in z:
        h[1:] = h[1:]-x*h[:-1]
    for x in p:
        for n in range(1, m):
            h[n] += x*h[n-1]
    return h.real


def decay(p, db):
    """Time after which the slowest pole is db below."""
    r = max([abs(x) for x in p]+[0])
    return 0. if r == 0 else db/20*np.log(10)/-np.log(r)


def zpk_cases(tier):
    for order in range(0, 5 if tier == 'quick' else 6):
        for z in multisets(Z_ATOMS, order):
            yield {'z': [[v.real, v.imag] for v in map(complex, z)]}


DBS = (20, 60., 80, 120)


def guess(R, g, z, p, **info):
    """g: function of db, for the filter with those singularities."""
    prev = 0
    for db in DBS:
        m = g(db)
        d = decay(p, db)
        R.check(isinstance(m, (int, np.integer)) and m >= 1, 'length type',
                m=m, **info)
        # small tolerance: the pole radius may come from root finding
        R.check(m >= d*(1-1e-3), 'too short', m=m, d=d, db=db, **info)
        R.check(m <= d*(1+1e-3)+len(z)+2, 'too long', m=m, d=d, db=db,
                **info)
        R.check(m >= prev, 'not monotone', m=m, prev=prev, db=db, **info)
        prev = m


def zpk_run(R, z):
    from pydsm.ir import guess_ir_length, impulse_response
    z = np.array([complex(*v) for v in z])
    order = len(z)
    for p in multisets(P_ATOMS, order):
        p = np.array(p)
        err = dict(np.geterr())
        R.state(tuple(p))
        R.step()
        for k in (1., -2.5):
            want = zpk_ref(z, p, k, 30)
            b, a = k*np.poly(z).real, np.poly(p).real
            b, a = np.atleast_1d(b), np.atleast_1d(a)
            sc = np.max(np.abs(want))
            for h in ((z, p, k), (b, a), [list(z), list(p), k],
                      (list(3*b), list(3*a))):
                if order == 0 and len(h) == 2:
                    continue
                for m in (30, 1, 7):
                    R.close(impulse_response(h, m), want[:m], 'response',
                            rtol=0, atol=1e-9*sc, h=h, m=m)
        R.check(dict(np.geterr()) == err, 'error state changed')
        # every zpk spelling
        h = (z, p, 1.)
        guess(R, lambda db: guess_ir_length(h, db), z, p, h=h)
        R.check(guess_ir_length(h) == guess_ir_length(h, 80), 'default db')
        if not np.any(p):
            R.check(guess_ir_length(h, 80) == order+1, 'FIR length', p=p)
        for db in (20, 80):
            n = guess_ir_length(h, db)
            r = impulse_response(h, db=db)
            R.close(r, zpk_ref(z, p, 1., n), 'truncated', rtol=0,
                    atol=1e-7*max(1, np.max(np.abs(r))), db=db, p=p)
        R.check(len(impulse_response(h)) == guess_ir_length(h, 80),
                'default length')
        # a slower pole makes it longer (or as long)
        if order:
            for s in (.5, .9, .97):
                q = np.r_[p, s]
                R.check(guess_ir_length((np.r_[z, 0.], q, 1.), 80) >=
                        guess_ir_length(h, 80), 'slower pole', p=p, s=s)
        R.trace()
        R.outcome(tuple(np.round(want[:6], 6)))
    R.sample({'z': z, 'p': p, 'h': want[:5]})


def ba_cases(tier):
    n = 3 if tier == 'quick' else 4
    for nb in range(1, n+1):
        for na in range(1, n+1):
            yield {'nb': nb, 'na': na}


def ba_run(R, nb, na):
    from scipy.signal import tf2zpk
    from pydsm.ir import guess_ir_length, impulse_response
    for b in itertools.product((1., -.5, 0., 3.), repeat=nb):
        if b[0] == 0:
            continue
        for t in itertools.product((0., .25, -.6, .1), repeat=na-1):
            for a0 in (1., 2.):
                a = tuple(a0*x for x in (1.,)+t)
                r = np.roots(a)
                if len(r) and np.max(np.abs(r)) > .95:
                    continue
                R.state(b, a)
                R.step()
                for h in ((b, a), [np.array(b), np.array(a)]):
                    want = recursion(b, a, 25)
                    R.close(impulse_response(h, 25), want, 'ba', h=h)
                    z, p, _ = tf2zpk(b, a)
                    guess(R, lambda db: guess_ir_length(h, db), z, p, h=h)
                n = guess_ir_length((b, a), 40)
                R.close(impulse_response((b, a), db=40),
                        recursion(b, a, n), 'ba truncated', b=b, a=a)
                R.trace()
                R.outcome(tuple(want[:5]))
    R.sample({'b': b, 'a': a, 'h': want[:5]})


SLOW = (.96, .98, .99, .995, .999, .9995)


def slow_run(R, r, angle):
    """Long responses: one slow pole, or pair, together with fast ones."""
    from pydsm.ir import guess_ir_length, impulse_response
    pair = [r] if angle == 0 else [-r] if angle == .5 else \
        [r*np.exp(2j*np.pi*angle), r*np.exp(-2j*np.pi*angle)]
    for more in ((), (.5,), (.3+.4j, .3-.4j), (-.8, .1, .9)):
        for front in (True, False):
            p = np.array(list(pair)+list(more) if front else
                         list(more)+list(pair))
            for z in ((0.,)*len(p), (1.,)*len(p), (-1.,)+(0.,)*(len(p)-1)):
                if len(set(z) & set(p)):
                    continue
                z = np.array(z)
                h = (z, p, 1.)
                R.state(tuple(p), tuple(z))
                R.step()
                guess(R, lambda db: guess_ir_length(h, db), z, p, h=h)
                for m in (100, 501):
                    want = zpk_ref(z, p, 1., m)
                    R.close(impulse_response(h, m), want, 'slow response',
                            rtol=0, atol=1e-6*np.max(np.abs(want)), h=h, m=m)
                n = guess_ir_length(h, 40)
                R.check(len(impulse_response(h, db=40)) == n, 'slow length',
                        h=h)
                b, a = np.poly(z).real, np.poly(p).real
                R.close(impulse_response((b, a), 200),
                        zpk_ref(z, p, 1., 200), 'slow ba', rtol=0,
                        atol=1e-6*np.max(np.abs(want)), b=b, a=a)
                R.trace()
    R.outcome(r, angle)


def spaced(n, r, shift):
    """n singularities evenly spread about the circle of radius r."""
    a = np.pi*(np.arange(n//2)+shift)/(n//2+1)+.1
    z = r*np.exp(1j*a)
    return np.r_[z, z.conj(), [r]*(n % 2)]


def large_cases(tier):
    return [{'n': n} for n in ((6, 8, 11, 16, 24, 32) if tier == 'quick' else
                               range(5, 33))]


def large_run(R, n):
    """High orders, with singularities far from each other."""
    from pydsm.ir import guess_ir_length, impulse_response
    z = spaced(n, 1., .5)
    tol = 1e-7 if n < 16 else 1e-5  # from polynomials to roots and back
    for r in (0., .4, .7, .9):
        for k in (1., .3):
            p = spaced(n, r, .2)
            R.state(r, k)
            want = zpk_ref(z, p, k, 300)
            b, a = k*np.poly(z).real, np.poly(p).real
            sc = np.max(np.abs(want))
            for h in ((z, p, k), (z[::-1], p[::-1], k), (b, a),
                      (2*b, 2*a)):
                for m in (1, 2, n, n+1, n+2, 128, 129, 300):
                    R.step()
                    R.close(impulse_response(h, m), want[:m], 'high order',
                            rtol=0, atol=tol*sc, n=n, r=r, m=m)
            h = (z, p, k)
            guess(R, lambda db: guess_ir_length(h, db), z, p, h=h)
            for db in (30, 90):
                m = guess_ir_length(h, db)
                R.close(impulse_response(h, db=db), want[:m],
                        'high order, length', rtol=0, atol=tol*sc, n=n, r=r)
            if r == 0:
                R.check(guess_ir_length(h, 80) == n+1, 'FIR length', n=n)
            R.trace()
            R.outcome(tuple(np.round(want[:4], 6)))


FAMILIES = {
    'large': (large_cases, large_run),
    'slow': (lambda tier: [{'r': r, 'angle': a} for r in SLOW
                           for a in (0, .5, .1, .25, .01)], slow_run),
    'zpk': (zpk_cases, zpk_run),
    'ba': (ba_cases, ba_run),
}
