"""C04: simulations can be split, repeated and recorded at no effect."""
import itertools

import numpy as np

from ..simref import (BACKENDS, Ref, compare, dyadic_abcd, same,
                      signal_pattern)

BOUNDS = ('split: all the compositions of the length, all pairs of backends '
          'across a cut; history: all the sequences of calls up to the depth '
          'over a menu of calls sharing argument objects; switches: all the '
          'combinations.')
ASSUMPTIONS = ['dyadic data, so that results are independent of the order of '
               'summation']


def sim(*a, **k):
    from pydsm.delsig import simulateDSM
    return simulateDSM(*a, **k)


def compositions(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n+1):
        for rest in compositions(n-first):
            yield (first,)+rest


def split_cases(tier):
    n = 7 if tier == 'quick' else 10
    for order, nu, nq in ((1, 1, 1), (2, 1, 1), (3, 2, 1), (3, 1, 2),
                          (4, 2, 2), (5, 3, 3)):
        for var in range(4):
            for b in BACKENDS:
                yield {'order': order, 'nu': nu, 'nq': nq, 'var': var,
                       'backend': b, 'N': n}


def split_run(R, order, nu, nq, var, backend, N):
    M = dyadic_abcd(order, nu, nq, var)
    nl = [2, 3, 6][:nq]
    u = signal_pattern('lfsr', nu, N)
    start = [.25*(i+1) for i in range(order)]
    ref = Ref(M.tolist(), nu, nl)
    want = ref.run(u.tolist(), start)
    R.outcome(tuple(want['v'].ravel()))
    for comp in compositions(N):
        # the state carried over a cut is the last one: returned alone, or
        # as last column of the state history
        for carry in ('last', 'history', 'last-other-backend'):
            x = np.array(start)
            pos = 0
            vs, ys, xs, mx = [], [], [], np.abs(x)
            for k, c in enumerate(comp):
                b = backend
                if carry == 'last-other-backend' and k:
                    b = BACKENDS[(BACKENDS.index(backend)+k) % 3]
                x_before = np.array(x)
                v, xn, xmax, y = sim(u[:, pos:pos+c], M, nl, x,
                                     carry == 'history', True, True,
                                     backend=b)
                R.step()
                R.check(np.array_equal(x, x_before), 'x0 modified',
                        comp=comp)
                vs.append(np.reshape(v, (nq, c)))
                ys.append(np.reshape(y, (nq, c)))
                mx = np.maximum(mx, np.ravel(xmax))
                if carry == 'history':
                    xh = np.reshape(xn, (order, c))
                    xs.append(xh)
                    x = xh[:, -1].copy()
                else:
                    x = xn
                pos += c
                R.state(pos, tuple(np.ravel(x)))
            R.trace()
            ok = same(np.hstack(vs), want['v']) and \
                same(np.hstack(ys), want['y']) and \
                same(np.ravel(x), np.ravel(want['xlast'])) and same(mx, want['xmax'])
            if carry == 'history':
                ok = ok and same(np.hstack(xs), want['xn'])
            if not R.check(ok, 'split/'+carry, comp=comp, u=u,
                           got=np.hstack(vs), want=want['v']):
                return
    R.sample({'composition': comp, 'v': np.hstack(vs)})


def long_cases(tier):
    for order, nu, nq in ((2, 1, 1), (3, 2, 2)):
        for chunk in (1, 7, 64, 500, 1023, 1024, 1025, 4096):
            yield {'order': order, 'nu': nu, 'nq': nq, 'chunk': chunk,
                   'N': 5000 if tier == 'quick' else 40000}


def long_run(R, order, nu, nq, chunk, N):
    M = dyadic_abcd(order, nu, nq, 2)       # nilpotent: never grows
    nl = [2, 3][:nq]
    u = signal_pattern('lfsr', nu, N)
    for b in BACKENDS:
        v, x, m, y = sim(u, M, nl, store_xmax=True, store_y=True, backend=b)
        xc, mc = np.zeros(order), np.zeros(order)
        vs, ys = [], []
        for p in range(0, N, chunk):
            c = min(chunk, N-p)
            vv, xc, mm, yy = sim(u[:, p:p+c], M, nl, np.reshape(xc, order),
                                 store_xmax=True, store_y=True, backend=b)
            vs.append(vv.reshape(nq, c))
            ys.append(yy.reshape(nq, c))
            mc = np.maximum(mc, np.ravel(mm))
            R.step()
            R.state(b, tuple(np.ravel(xc)))
        R.trace()
        R.check(same(np.hstack(vs), v), b+'/v')
        R.check(same(np.hstack(ys), y), b+'/y')
        R.check(same(xc, x), b+'/x')
        R.check(same(mc, m), b+'/xmax')
        R.outcome(b, tuple(v.ravel()[:50]))


MENU = []


def history_cases(tier):
    d = 3 if tier == 'quick' else 4
    for first in range(8):
        for b in BACKENDS:
            yield {'first': first, 'backend': b, 'depth': d}


def history_run(R, first, backend, depth):
    """Calls share the very same argument objects, results are kept."""
    ua = signal_pattern('lfsr', 1, 12)
    ub = signal_pattern('ramp', 2, 9)
    Ma = dyadic_abcd(2, 1, 1, 0)
    Mb = dyadic_abcd(3, 2, 2, 1)
    xa = np.array([.5, -.25])
    xb = np.array([[1.], [.25], [0.]])
    na, nb = np.array([3]), [2, 4]
    menu = [
        ((ua, Ma, na, xa), {}),
        ((ua, Ma, na, xa, True, True, True), {}),
        ((ua[0], Ma, 2), {'store_xn': True}),
        ((ub, Mb, nb, xb), {'store_xmax': True}),
        ((ub, Mb, nb, xb), {'store_xn': True, 'store_y': True}),
        ((ub[:, :1], Mb, nb, xb), {'store_xmax': True}),
        ((ua, Ma, na), {'store_xmax': True, 'store_y': True}),
        ((ua[:, :1], Ma, na, xa), {'store_xn': True, 'store_xmax': True,
                                   'store_y': True})]
    objs = [ua, ub, Ma, Mb, xa, xb, na]
    orig = [o.copy() for o in objs]

    def call(i):
        a, k = menu[i]
        return sim(*a, backend=backend, **k)
    fresh = [tuple(r.copy() for r in call(i)) for i in range(len(menu))]
    for i, r in enumerate(fresh):
        a, k = menu[i]
        full = dict(zip(('store_xn', 'store_xmax', 'store_y'), a[4:]))
        full.update(k)
        uu = np.atleast_2d(a[0])
        nl = np.atleast_1d(a[2]).tolist()
        want = Ref(a[1].tolist(), len(uu), nl).run(
            uu.tolist(), None if len(a) < 4 else np.ravel(a[3]).tolist())
        compare(R, r, want, 'menu', uu.shape[1],
                tuple(full.get(s, False) for s in
                      ('store_xn', 'store_xmax', 'store_y')), call=i)
    for rest in itertools.product(range(len(menu)), repeat=depth-1):
        seq = (first,)+rest
        kept = []
        for i in seq:
            r = call(i)
            R.step()
            for a in r:
                for o in objs:
                    R.check(not np.shares_memory(a, o), 'aliases argument',
                            seq=seq)
                for _, old in kept:
                    for x in old:
                        R.check(not np.shares_memory(a, x),
                                'aliases older result', seq=seq)
            kept.append((i, r))
        for i, r in kept:
            ok = all(np.array_equal(a, b) and a.shape == b.shape
                     for a, b in zip(r, fresh[i]))
            if not R.check(ok, 'history', seq=seq, call=i):
                return
        for o, c in zip(objs, orig):
            if not R.check(np.array_equal(o, c), 'argument modified',
                           seq=seq):
                return
        # results can be written to without consequences
        for i, r in kept:
            for a in r:
                a[...] = 77.
        R.state(seq)
        R.trace()
    R.check(nb == [2, 4], 'argument modified')
    R.outcome(first, backend)
    R.sample({'sequence': seq})


def switch_cases(tier):
    for b in BACKENDS:
        for form in ('ABCD', 'zpk'):
            for N in (1, 2, 50):
                yield {'backend': b, 'form': form, 'N': N}


def switch_run(R, backend, form, N):
    for order in (1, 2, 3, 5):
        if form == 'ABCD':
            M, nl, nu = dyadic_abcd(order, 2, 2, order % 4), [3, 2], 2
        else:
            M = ([1.]*order, [.5, .25, -.25, .125, 0.][:order], 1)
            nl, nu = 3, 1
        u = signal_pattern('lfsr', nu, N)*.5
        for x0 in (0, [.5]*order):
            ref = sim(u, M, nl, x0, True, True, True, backend=backend)
            last = np.reshape(ref[1], (order, N))[:, -1]
            for sw in itertools.product((False, True), repeat=3):
                out = sim(u, M, nl, x0, *sw, backend=backend)
                R.step()
                R.trace()
                R.state(order, sw, x0 == 0)
                R.outcome(order, form, tuple(np.ravel(out[0])[:20]))
                inf = {'switches': sw, 'order': order}
                R.check(np.array_equal(out[0], ref[0]), 'v', **inf)
                R.check(same(out[1], ref[1] if sw[0] else last), 'xn', **inf)
                R.check(same(out[2], ref[2]) if sw[1] else out[2].size == 0,
                        'xmax', **inf)
                R.check(same(out[3], ref[3]) if sw[2] else out[3].size == 0,
                        'y', **inf)
    R.sample({'backend': backend, 'form': form, 'v': ref[0][:6] if N > 5
              else ref[0]})


FAMILIES = {'split': (split_cases, split_run), 'long': (long_cases, long_run),
            'history': (history_cases, history_run),
            'switches': (switch_cases, switch_run)}
