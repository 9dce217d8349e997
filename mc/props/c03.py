"""C03: backends and argument spellings are interchangeable; errors."""
import itertools
import warnings

import numpy as np

from ..simref import BACKENDS, Ref, compare, dyadic_abcd, signal_pattern

BOUNDS = ('all pairs (backend, spelling of each argument) over the listed '
          'modulators; all (backend, malformed argument) pairs.')
ASSUMPTIONS = ['"auto" is one of the compiled backends']
ALLB = BACKENDS + ('auto', None)


def sim(b, *a, **k):
    from pydsm.delsig import simulateDSM
    if b is not None:
        k['backend'] = b
    return simulateDSM(*a, **k)


def spell_cases(tier):
    Ns = [1, 2, 7, 40] if tier == 'quick' else [1, 2, 3, 4, 7, 40, 300]
    for order in (1, 2, 3, 5):
        for nu, nq in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
            for N in Ns:
                yield {'order': order, 'nu': nu, 'nq': nq, 'N': N}


def u_spellings(u):
    """Equivalent spellings of a nu by N input (dyadic values)."""
    nu, N = u.shape
    big = np.zeros((2*nu+1, 3*N+2))
    big[1:1+nu, 1:1+N] = u
    strided = np.zeros((nu, 2*N))
    strided[:, ::2] = u
    rev = u[:, ::-1].copy()
    out = [('array', u), ('list', u.tolist()),
           ('tuple', tuple(map(tuple, u.tolist()))),
           ('float32', u.astype(np.float32)),
           ('fortran', np.asfortranarray(u)),
           ('window', big[1:1+nu, 1:1+N]),
           ('strided', strided[:, ::2]),
           ('reversed', rev[:, ::-1]),
           ('transposed', u.T.copy().T),
           ('longdouble', u.astype(np.longdouble)),
           ('matrix', np.matrix(u)),
           ('rows', [np.array(r) for r in u])]
    ro = u.copy()
    ro.flags.writeable = False
    out.append(('readonly', ro))
    if nu == 1:
        out += [('1d', u[0].copy()), ('1d list', u[0].tolist()),
                ('1d strided', strided[0, ::2]),
                ('1d tuple', tuple(u[0].tolist())),
                ('1d column of matrix', np.column_stack((u[0], -u[0]))[:, 0])]
        if N == 1:
            out += [('scalar', float(u[0, 0])), ('0d', np.array(u[0, 0]))]
    return out


def nlev_spellings(nl):
    out = [('list', list(nl)), ('tuple', tuple(nl)), ('array', np.array(nl)),
           ('int64', np.array(nl, dtype=np.int64)),
           ('int16', np.array(nl, dtype=np.int16)),
           ('float', np.array(nl, dtype=float)),
           ('strided', np.array([x for n in nl for x in (n, 0)])[::2])]
    if len(nl) == 1:
        out += [('int', nl[0]), ('np.int64', np.int64(nl[0])),
                ('0d', np.array(nl[0]))]
    return out


def m_spellings(M):
    big = np.zeros((2*M.shape[0], 2*M.shape[1]))
    big[::2, ::2] = M
    ro = M.copy()
    ro.flags.writeable = False
    return [('array', M), ('list', M.tolist()), ('matrix', np.matrix(M)),
            ('fortran', np.asfortranarray(M)), ('strided', big[::2, ::2]),
            ('float32', M.astype(np.float32)), ('readonly', ro),
            ('tuple of rows', [tuple(r) for r in M.tolist()])]


def x0_spellings(x0):
    x = np.array(x0)
    big = np.zeros(2*len(x0))
    big[::2] = x
    ro = x.copy()
    ro.flags.writeable = False
    return [('list', list(x0)), ('tuple', tuple(x0)), ('array', x),
            ('column', x.reshape(-1, 1)), ('row', x.reshape(1, -1)),
            ('strided', big[::2]), ('float32', x.astype(np.float32)),
            ('readonly', ro), ('fortran column',
                               np.asfortranarray(x.reshape(-1, 1)))]


def spell_run(R, order, nu, nq, N):
    M = dyadic_abcd(order, nu, nq, (order+N) % 4)
    u = signal_pattern('lfsr', nu, N)
    nl = [2, 5, 4][:nq]
    x0 = [.5*(i % 3)-.25 for i in range(order)]
    ref = Ref(M.tolist(), nu, nl)
    want = ref.run(u.tolist(), x0)
    want0 = ref.run(u.tolist())
    base = (u, M, nl, x0)
    alts = [('u', 0, u_spellings(u)), ('nlev', 2, nlev_spellings(nl)),
            ('ABCD', 1, m_spellings(M)), ('x0', 3, x0_spellings(x0))]
    for b in ALLB:
        for what, pos, sp in alts:
            for name, val in sp:
                R.state(b, what, name)
                args = list(base)
                args[pos] = val
                out = sim(b, args[0], args[1], args[2], args[3], True, True,
                          True)
                R.step()
                compare(R, out, want, '%s/%s=%s' % (b, what, name), N)
        # all the spellings of u with all the spellings of the initial state
        for (n1, uu), (n2, xx) in itertools.product(alts[0][2], alts[3][2]):
            R.state(b, 'u,x0', n1, n2)
            out = sim(b, uu, M, nl, xx, store_xn=True, store_xmax=True,
                      store_y=True)
            R.step()
            compare(R, out, want, '%s/u=%s,x0=%s' % (b, n1, n2), N)
        # keywords, defaults and null initial states
        kw = dict(u=u, arg2=M, nlev=nl, x0=x0, store_xn=True,
                  store_xmax=True, store_y=True)
        compare(R, sim(b, **kw), want, '%s/keywords' % b, N)
        compare(R, sim(b, u, M, nl), want0, '%s/defaults' % b, N,
                (False,)*3)
        for z in (0, 0., [0.]*order, np.zeros((order, 1)),
                  np.zeros(order, dtype=int)):
            compare(R, sim(b, u, M, nl, z, True, True, True), want0,
                    '%s/x0 null' % b, N)
        if nl == [2]:
            compare(R, sim(b, u, M), want0, '%s/default nlev' % b, N,
                    (False,)*3)
        for sw in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
            compare(R, sim(b, u, M, nl, x0, *sw), want, '%s/switch ints' % b,
                    N, tuple(map(bool, sw)))
        R.trace()
        R.outcome(tuple(want['v'].ravel()[:30]))
    R.sample({'order': order, 'nu': nu, 'nq': nq, 'u': u, 'v': want['v']})


MODULATOR = 'Incorrect modulator specification'
NLEV = 'Invalid argument: nlev must be convertible into a 1D int array'
INP = 'Invalid argument: u must be convertible into a 2D float array'
INIT = 'Incorrect initial condition specification'


def error_cases(tier):
    for b in BACKENDS + ('auto',):
        for order in (1, 2, 4):
            for nu, nq in ((1, 1), (2, 1), (1, 2), (2, 3)):
                yield {'backend': b, 'order': order, 'nu': nu, 'nq': nq}


def error_run(R, backend, order, nu, nq):
    M = dyadic_abcd(order, nu, nq, 0)
    u = signal_pattern('lfsr', nu, 9)
    nl = [2, 5, 4][:nq]
    x0 = [.5]*order

    def attempt(what, match, **kw):
        a = {'u': u, 'arg2': M, 'nlev': nl, 'x0': x0}
        a.update(kw)
        R.state(what)
        R.step()
        R.trace()
        R.outcome(match)
        R.raises(ValueError, lambda: sim(backend, **a), what, match)
    attempt('u text', INP, u='abc')
    attempt('u list of text', INP, u=['a', 'b'])
    attempt('u 3D', INP, u=np.zeros((nu, 3, 2)))
    attempt('u ragged', INP, u=[[1, 2], [1]])
    attempt('u dict', INP, u={'a': 1})
    attempt('nlev text', NLEV, nlev='x')
    attempt('nlev list of text', NLEV, nlev=['x']*nq)
    attempt('nlev 2D', NLEV, nlev=[nl, nl])
    attempt('nlev column', NLEV, nlev=[[n] for n in nl])
    attempt('nlev dict', NLEV, nlev={})
    attempt('ABCD 1D', MODULATOR, arg2=M[0])
    attempt('ABCD 3D', MODULATOR, arg2=M[np.newaxis])
    attempt('ABCD text', MODULATOR, arg2='abc')
    attempt('ABCD ragged', MODULATOR, arg2=[[1, 2, 3], [1, 2]])
    attempt('ABCD list of text', MODULATOR, arg2=[['a', 'b'], ['c', 'd']])
    attempt('ABCD short of a column', MODULATOR, arg2=M[:, :-1])
    attempt('ABCD column too many', MODULATOR, arg2=np.hstack((M, M[:, :1])))
    attempt('ABCD row too many', MODULATOR, arg2=np.vstack((M, M[:1])))
    attempt('ABCD for more inputs', MODULATOR,
            u=signal_pattern('lfsr', nu+1, 9))
    attempt('ABCD scalar', MODULATOR, arg2=1.)
    attempt('zpk of text', MODULATOR, arg2=(['a'], ['b'], 1))
    attempt('zpk with 2D zeros', MODULATOR, arg2=([[1.]], [0.], 1))
    attempt('zpk with 2D poles', MODULATOR, arg2=([1.], [[0.]], 1))
    attempt('zpk with bad gain', MODULATOR, arg2=([1.], [0.], 'k'))
    attempt('zpk with vector gain', MODULATOR, arg2=([1.], [0.], [1., 2.]))
    attempt('x0 text', INIT, x0='abc')
    attempt('x0 list of text', INIT, x0=['a']*order)
    attempt('x0 too long', INIT, x0=[.5]*(order+1))
    if order > 1:
        attempt('x0 too short', INIT, x0=[.5]*(order-1))
    attempt('x0 3D', INIT, x0=np.zeros((order, 1, 1)))
    attempt('x0 empty', INIT, x0=[])
    if order > 1:
        attempt('x0 nonzero scalar', INIT, x0=1.5)
    if nq == 2:
        attempt('zpk with many quantizers', MODULATOR, arg2=([1.], [0.], 1))
    if nu == 2:
        attempt('zpk with many inputs', MODULATOR, arg2=([1.], [0.], 1))
    # a failed call leaves everything working
    want = Ref(M.tolist(), nu, nl).run(u.tolist(), x0)
    compare(R, sim(backend, u, M, nl, x0, True, True, True), want,
            'after errors', 9)
    R.sample({'backend': backend, 'tried': len(R.states)})


def misc_cases(tier):
    yield {}


def misc_run(R):
    from pydsm.delsig import simulateDSM
    from pydsm.exceptions import PyDsmSlowPathWarning, PyDsmWarning
    M = dyadic_abcd(2, 1, 1, 0)
    u = signal_pattern('lfsr', 1, 9)
    for bad in ('', 'blas', 'SCIPY', 'cython', 'none', 3, None, 'scipy_blas '):
        R.state(bad)
        R.raises(RuntimeError, lambda: simulateDSM(u, M, backend=bad),
                 'unknown backend', 'Unsupported simulator backend',
                 backend=bad)
    R.raises(TypeError, lambda: simulateDSM(u, M, foo=1), 'unknown option')
    R.check(issubclass(PyDsmSlowPathWarning, Warning), 'category')
    for b in ALLB:
        for arg in (M, ([1., 1.], [.5, .25], 1)):
            for rep in (0, 1):
                R.state(b, rep, type(arg))
                R.step()
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    sim(b, u, arg)
                slow = [x for x in w
                        if issubclass(x.category, PyDsmSlowPathWarning)]
                R.outcome(b, len(slow))
                R.check(len(slow) == (1 if b == 'scipy' else 0),
                        'slow path warning', backend=b, got=len(slow))
                R.check(not any(issubclass(x.category, PyDsmWarning)
                                for x in w if x not in slow),
                        'other warnings', backend=b)
            R.trace()
    # the selection of the backend follows the default options
    old = dict(simulateDSM.default_options)
    try:
        for seq in itertools.product(('scipy', 'scipy_blas', 'cblas', 'auto'),
                                     repeat=3):
            for d in seq:
                simulateDSM.default_options['backend'] = d
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    simulateDSM(u, M)
                slow = any(issubclass(x.category, PyDsmSlowPathWarning)
                           for x in w)
                R.check(slow == (d == 'scipy'), 'default backend', default=d)
                R.step()
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    simulateDSM(u, M, backend='cblas')
                R.check(not w, 'explicit backend', default=d)
            R.state(seq)
            R.trace()
        simulateDSM.default_options['backend'] = 'foo'
        R.raises(RuntimeError, lambda: simulateDSM(u, M), 'unknown default')
        sim('scipy', u, M)
    finally:
        simulateDSM.default_options.clear()
        simulateDSM.default_options.update(old)
    R.sample({'backends': [str(b) for b in ALLB]})


FAMILIES = {'spelling': (spell_cases, spell_run),
            'errors': (error_cases, error_run),
            'misc': (misc_cases, misc_run)}
