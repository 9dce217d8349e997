"""C01: simulateDSM follows the modulator difference equation exactly."""
import itertools

import numpy as np

from ..simref import (BACKENDS, Ref, compare, dyadic_abcd, near_tie, quantize,
                      signal_pattern)

BOUNDS = ('words: all input words up to the stated length over the alphabet, '
          'for every listed ABCD, quantizer bank, initial state and backend; '
          'shapes: all (order, nu, nq) up to the bound with all recording '
          'switches; long: all (modulator, input pattern, length); real: all '
          'trajectories of the listed modulators, checked step by step.')
ASSUMPTIONS = ['double precision arithmetic is exact on the dyadic alphabet '
               '(checked: no value exceeds 2**40 with 10 fractional bits)',
               'unit dimensions of the returned arrays are not significant']


def sim(*a, **k):
    from pydsm.delsig import simulateDSM
    return simulateDSM(*a, **k)


def words_cases(tier):
    L = 5 if tier == 'quick' else 7
    al1 = [-1., -.5, 0., .5, 1.]
    mods = []
    # every first order modulator over a small dyadic alphabet
    for a in (1., .5, -1., 0.):
        for b1 in (1., .5):
            for b2 in (-1., -.5):
                for c in (1., -.5):
                    for d in (0., 1.):
                        mods.append([[a, b1, b2], [c, d, 0.]])
    for i, M in enumerate(mods):
        yield {'ABCD': M, 'nu': 1, 'alphabet': al1 if i % 4 == 0 else
               [-.5, .25, 1.], 'L': 4 if tier == 'quick' else L,
               'nlevs': [[2], [3]]}
    for order, nu, nq in ((2, 1, 1), (3, 1, 1), (2, 2, 1), (2, 1, 2),
                          (3, 2, 2), (1, 2, 1), (1, 1, 2)):
        for var in range(4):
            yield {'ABCD': dyadic_abcd(order, nu, nq, var).tolist(), 'nu': nu,
                   'alphabet': [-.75, .25, 1.] if nu == 1 else [-.5, .75],
                   'L': L if nu == 1 else 3,
                   'nlevs': [[2]*nq, [3, 2, 5][:nq], [4]*nq]}


def words_run(R, ABCD, nu, alphabet, L, nlevs):
    M = np.array(ABCD)
    for nlev in nlevs:
        ref = Ref(ABCD, nu, nlev)
        inits = [None, [.5*(-1)**i*(i+1) for i in range(ref.order)]]
        syms = list(itertools.product(alphabet, repeat=nu))
        for x0 in inits:
            # explore the reference model: distinct states up to depth L
            frontier = {tuple(x0) if x0 else (0.,)*ref.order}
            seen = set(frontier)
            for d in range(L):
                nxt = set()
                for x in frontier:
                    for u in syms:
                        nx, y, v = ref.step(x, u)
                        R.step()
                        if nx not in seen:
                            seen.add(nx)
                            nxt.add(nx)
                frontier = nxt
            for x in seen:
                R.state(tuple(nlev), x)
            # replay every word on the implementation
            for w in itertools.product(syms, repeat=L):
                u = np.array(w).T
                want = ref.run(u.tolist(), x0)
                R.outcome(tuple(want['v'].ravel()))
                for b in BACKENDS:
                    kw = {} if x0 is None else {'x0': x0}
                    out = sim(u, M, nlev if len(nlev) > 1 else nlev[0],
                              store_xn=True, store_xmax=True, store_y=True,
                              backend=b, **kw)
                    R.trace()
                    if not compare(R, out, want, b, L, u=u, nlev=nlev, x0=x0):
                        return
        R.sample({'ABCD': ABCD, 'nlev': nlev, 'u': u, 'v': want['v']})


def shapes_cases(tier):
    mo = 6 if tier == 'quick' else 10
    for order in range(mo+1):
        for nu in (0, 1, 2, 3):
            for nq in (1, 2, 3):
                yield {'order': order, 'nu': nu, 'nq': nq,
                       'lens': [0, 1, 2, 3, 17] if tier == 'quick'
                       else [0, 1, 2, 3, 4, 5, 8, 16, 33]}
    big = [(16, 1, 1), (33, 2, 1), (2, 9, 1), (2, 1, 9), (5, 5, 5), (0, 4, 6),
           (12, 4, 4)]
    if tier != 'quick':
        big += [(n, n, n) for n in range(4, 21)]
    for order, nu, nq in big:
        yield {'order': order, 'nu': nu, 'nq': nq, 'lens': [1, 2, 9]}


def shapes_run(R, order, nu, nq, lens):
    for var in range(4):
        M = dyadic_abcd(order, nu, nq, var)
        for nlev in ([2]*nq, [3]*nq, ([2, 5, 8]*nq)[:nq],
                     ([7, 2, 4]*nq)[:nq]):
            ref = Ref(M.tolist(), nu, nlev)
            for N in lens:
                for kind in ('lfsr', 'ramp'):
                    u = signal_pattern(kind, nu, N)
                    for x0 in (None, [(i % 3-1)*.5+.25 for i in
                                      range(order)]):
                        want = ref.run(u.tolist(), x0, N)
                        R.need(np.abs(want['xn']).max(initial=0.) < 2.**40,
                               'harness/exact')
                        R.state(var, tuple(nlev), N, kind, x0 is None)
                        R.outcome(tuple(want['v'].ravel()[:40]))
                        for st in itertools.product((False, True), repeat=3):
                            for b in BACKENDS:
                                kw = {} if x0 is None else {
                                    'x0': np.array(x0)}
                                out = sim(u, M, nlev, backend=b,
                                          store_xn=st[0], store_xmax=st[1],
                                          store_y=st[2], **kw)
                                R.step(N)
                                R.trace()
                                if not compare(R, out, want, b, N, st, u=u,
                                               nlev=nlev, x0=x0, var=var):
                                    return
    R.sample({'order': order, 'nu': nu, 'nq': nq, 'last_v': want['v']})


def long_cases(tier):
    N = [4099] if tier == 'quick' else [4099, 70001]
    for n in N:
        for order in (1, 2, 3, 5):
            for kind in ('lfsr', 'ramp', 'const', 'pulse'):
                yield {'order': order, 'kind': kind, 'N': n}


def stable_abcd(order):
    """CIFB-like modulators with dyadic coefficients, stable on small inputs
    (distributed feedback; coefficients halve along the chain)."""
    n = order
    A = np.eye(n) + np.eye(n, k=-1)*.5
    if n > 2:
        A = A*1.
        A[np.arange(n), np.arange(n)] = [1.]+[0.5]*(n-1)
    B1 = np.zeros((n, 1))
    B1[0] = .5
    B2 = -np.ones((n, 1))*.5
    C = np.zeros((1, n))
    C[0, -1] = 1
    return np.vstack((np.hstack((A, B1, B2)),
                      np.hstack((C, [[0.]], [[0.]]))))


def long_run(R, order, kind, N):
    # one quantizer: trajectories are quantized to keep exactness
    M = stable_abcd(order)
    if order > 2:
        # poles at 1/2 need ever more bits: use a deadbeat chain instead
        M[:order, :order] = np.eye(order, k=-1)
        M[0, 0] = 1.
        M[0, order+1] = -1.
        M[0, order] = 1.
    u = signal_pattern(kind, 1, N)
    for nlev in (2, 4, 9):
        ref = Ref(M.tolist(), 1, [nlev])
        want = ref.run(u.tolist())
        R.need(np.abs(want['xn']).max() < 2.**40, 'harness/exact')
        R.bulk_states(len(set(map(tuple, want['xn'].T))))
        R.outcome(kind, nlev, tuple(want['v'].ravel()[-50:]))
        for b in BACKENDS:
            for full in (True, False):
                out = sim(u, M, nlev, store_xn=full, store_xmax=full,
                          store_y=full, backend=b)
                R.trace()
                R.step(N)
                compare(R, out, want, b, N, (full,)*3, nlev=nlev)
    R.sample({'order': order, 'kind': kind, 'N': N, 'v_tail':
              want['v'][0, -8:]})


def real_cases(tier):
    N = 1500 if tier == 'quick' else 20000
    for order in (1, 2, 3, 4, 5, 6, 7, 8, 10):
        for nu, nq in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 3)):
            yield {'order': order, 'nu': nu, 'nq': nq, 'N': N}


def real_run(R, order, nu, nq, N):
    """Any doubles: every recorded transition obeys the equations up to
    rounding, and the quantizer output is the image of the recorded y."""
    i, j = np.mgrid[:order+nq, :order+nu+nq]
    M = np.sin(1.7*i+2.3*j+.37*i*j+order+nu+2*nq)
    rho = np.max(np.abs(np.linalg.eigvals(M[:order, :order])))
    M[:order, :order] *= .97/rho
    M[order:, order+nu:] = 0
    A, B = M[:order, :order], M[:order, order:]
    C, D1 = M[order:, :order], M[order:, order:order+nu]
    t = np.arange(N)
    u = np.array([.7*np.sin(2*np.pi*(.003+.0011*k)*t+k) for k in range(nu)])
    nlev = [2, 5, 16][:nq]
    x0 = np.cos(np.arange(order))
    base = None
    for b in BACKENDS:
        v, xn, xmax, y = sim(u, M, nlev, x0, True, True, True, backend=b)
        R.trace()
        v = np.reshape(v, (nq, N))
        xn = np.reshape(xn, (order, N))
        y = np.reshape(y, (nq, N))
        xb = np.hstack((x0.reshape(-1, 1), xn[:, :-1]))
        sc = 1 + np.abs(xn).max()
        R.check(np.abs(C.dot(xb)+D1.dot(u)-y).max() < 1e-11*sc, b+'/y-step')
        R.check(np.abs(A.dot(xb)+B.dot(np.vstack((u, v)))-xn).max()
                < 1e-11*sc, b+'/x-step')
        for q in range(nq):
            for k in range(N):
                if v[q, k] != quantize(y[q, k], nlev[q]) and \
                        not near_tie(y[q, k], nlev[q], 1e-12):
                    R.fail(b+'/quantizer', y=y[q, k], v=v[q, k])
                    break
        R.check(np.array_equal(
            np.ravel(xmax), np.maximum(np.abs(xn).max(axis=1), np.abs(x0))),
            b+'/xmax')
        R.step(N)
        R.bulk_states(N)
        R.outcome(b, tuple(v[0, :64]))
    R.sample({'order': order, 'v': v[:, :8]})


FAMILIES = {'words': (words_cases, words_run),
            'shapes': (shapes_cases, shapes_run),
            'long': (long_cases, long_run),
            'real': (real_cases, real_run)}
