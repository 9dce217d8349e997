"""C02: quantizers emit legal levels, the nearest to their input."""
import itertools

import numpy as np

from ..simref import BACKENDS, quantize

BOUNDS = ('for each number of levels, the states are all the decision cells: '
          'every legal level and every threshold, probed at the tie, next to '
          'it on both sides, inside the cells and in saturation; banks: all '
          'tuples of level counts up to the bound with all the tuples of '
          'probes.')
ASSUMPTIONS = ['within 2 ulp of a threshold (not on it) either of the two '
               'adjacent levels is accepted, since the definition is met up '
               'to rounding']

BIG = [1e3, 65537.5, 1e6, 2.**31-1, 2.**31, 2.**31+1, 2.**32+.5, 1e10, 2.**52,
       2.**53+2, 2.**62, 2.**63, 2.**64, 1e19, 1e100, 1e300, 1.7e308]


def ok_level(y, n, v):
    """Accept v for input y."""
    if v == quantize(y, n):
        return True
    t = 2*np.spacing(max(abs(y), 1.))
    near = [quantize(y-t, n), quantize(y+t, n)]
    # exactly on a threshold there is no slack
    if abs(y) < n and (y-(n % 2)) % 2 == 0 and abs(y) <= n-2:
        return False
    return v in near


def probes(n):
    lv = np.arange(-(n-1), n, 2, dtype=float)
    if len(lv) > 400:
        lv = np.concatenate((lv[:60], lv[len(lv)//2-60:len(lv)//2+60],
                             lv[-60:]))
    ties = np.concatenate((lv-1, lv[-1:]+1))
    ys = []
    for b in np.concatenate((lv, ties)):
        ys += [b, np.nextafter(b, np.inf), np.nextafter(b, -np.inf),
               b+.25, b-.25, b+.5, b-.5, b+.875, b-.875, b+1e-9, b-1e-9]
    ys += [0., -0., 5e-324, -5e-324, 1e-300, -1e-300, 1e-17, -1e-17]
    for x in BIG:
        ys += [x, -x]
    return np.array(ys)


def judge(R, ys, n, got, tag):
    got = np.asarray(got, dtype=float).reshape(-1)
    R.need(got.size == ys.size, tag+'/size')
    for y, v in zip(ys, got):
        R.checks += 1
        if not ok_level(y, n, v):
            R.fail(tag, n=n, y=repr(y), got=v, want=quantize(y, n))
            return False
    lv = set(got.tolist())
    R.outcome(n, len(lv))
    return True


LEVELS = list(range(2, 34)) + [47, 48, 63, 64, 65, 100, 127, 128, 129, 255,
                               256, 257, 511, 512, 1000, 1001, 4096, 32767,
                               32768, 65535, 65536, 65537, 1 << 20,
                               (1 << 20)+1, (1 << 30), (1 << 30)+1]


def single_cases(tier):
    ls = LEVELS if tier == 'quick' else sorted(set(LEVELS + list(
        range(2, 600))))
    for n in ls:
        yield {'n': n}


def single_run(R, n):
    from pydsm.delsig import ds_quantize, simulateDSM
    ys = probes(n)
    for y in ys:
        R.state(float(y))
    # y = u: no state feedback at all
    M = np.array([[0., 0., 0.], [0., 1., 0.]])
    for b in BACKENDS:
        v, _, _, y = simulateDSM(ys, M, n, store_y=True, backend=b)
        R.check(np.array_equal(y, ys), b+'/y')
        R.step(ys.size)
        R.trace()
        if not judge(R, ys, n, v, b):
            return
    # one sample at a time, as scalar, vector of one, column of one
    for y in ys:
        for arg, nl in ((float(y), n), (np.float64(y), np.int64(n)),
                        (np.array([y]), n), (np.array([[y]]), [n]),
                        (np.array(y), np.array([n]))):
            v = ds_quantize(arg, nl)
            R.step()
            R.check(np.shape(v) == np.shape(arg), 'ds_quantize/shape',
                    arg=arg, got=v)
            if not judge(R, np.array([y]), n, v, 'ds_quantize'):
                return
    R.trace(ys.size)
    # odd symmetry away from ties, monotonicity everywhere
    s = np.sort(ys)
    for b in BACKENDS:
        v = simulateDSM(s, M, n, backend=b)[0]
        R.check(np.all(np.diff(v) >= 0), b+'/monotone')
        R.step(s.size)
    # random access is not a thing: the quantizer has no memory
    for b in BACKENDS:
        v1 = simulateDSM(ys, M, n, backend=b)[0]
        v2 = simulateDSM(ys[::-1].copy(), M, n, backend=b)[0]
        R.check(np.array_equal(v1, v2[::-1]), b+'/memoryless')
    R.sample({'n': n, 'y': s[:5], 'v': v[:5]})


def bank_cases(tier):
    top = 9 if tier == 'quick' else 17
    for n1 in range(2, top+1):
        yield {'first': n1, 'top': top}


def bank_run(R, first, top):
    """All pairs and (some) triples of quantizers fed independently."""
    from pydsm.delsig import ds_quantize, simulateDSM
    for rest in itertools.chain(
            ((n2,) for n2 in range(2, top+1)),
            itertools.product(range(2, 6), repeat=2),
            itertools.product((2, 3, 8, 257), repeat=3)):
        nl = (first,)+rest
        nq = len(nl)
        base = [-1e9, -7., -3.5, -2., -1., -.5, -0., .5, 1., 2., 3.25, 7.,
                1e9]
        if nq > 2:
            base = [-1e9, -2., -.5, 0., 1., 2.5, 1e9]
        if nq > 3:
            base = [-1e9, -1., 0., .5, 1e9]
        g = np.array(list(itertools.product(base, repeat=nq))).T
        want = np.array([[quantize(y, n) for y in row]
                         for row, n in zip(g, nl)])
        M = np.zeros((1+nq, 1+2*nq))
        M[1:, 1:1+nq] = np.eye(nq)
        R.bulk_states(g.shape[1])
        R.outcome(tuple(want[:, ::7].ravel()))
        for b in BACKENDS:
            for spec in (list(nl), np.array(nl)):
                v = simulateDSM(g, M, spec, backend=b)[0]
                R.step(g.shape[1])
                R.trace()
                R.close(v, want, b, rtol=0, atol=0, nlev=nl)
        for k in range(0, g.shape[1], max(1, g.shape[1]//60)):
            for shape in ((nq,), (nq, 1)):
                v = ds_quantize(g[:, k].reshape(shape), list(nl))
                R.close(v, want[:, k].reshape(shape), 'ds_quantize/bank',
                        rtol=0, atol=0, nlev=nl, y=g[:, k])
                R.step()
                R.trace()
    R.sample({'nlev': nl, 'y': g[:, 3], 'v': want[:, 3]})


ITYPES = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64',
          'uint64')


def types_cases(tier):
    for nt in ('int',)+ITYPES:
        for yt in ('float', 'float32')+ITYPES:
            yield {'nlev': nt, 'y': yt}


def types_run(R, nlev, y):
    """Levels and quantizer inputs of any real type."""
    from pydsm.delsig import ds_quantize, simulateDSM
    top = 1 << 20 if nlev == 'int' else int(np.iinfo(nlev).max)
    ns = [n for n in (2, 3, 4, 5, 127, 128, 254, 255, 256, 257, 32767, 65535,
                      65536) if n <= top]
    if y.startswith('float'):
        ys = [-1e9, -300., -2.75, -1., -.5, 0., .25, 1., 3.5, 300., 1e9]
    else:
        lim = np.iinfo(y)
        ys = sorted({v for v in (lim.min, lim.min+1, -300, -128, -3, -2, -1,
                                 0, 1, 2, 3, 126, 127, 128, 255, 300,
                                 1 << 30, lim.max-1, lim.max)
                     if lim.min <= v <= lim.max})
        if lim.bits == 64:
            ys = [v for v in ys if abs(v) < 1 << 50]
    mk = int if nlev == 'int' else getattr(np, nlev)
    M = np.array([[0., 0., 0.], [0., 1., 0.]])
    for n in ns:
        want = np.array([quantize(float(v), n) for v in ys])
        u = np.array(ys, dtype=y)
        for b in BACKENDS:
            v = simulateDSM(u, M, mk(n), backend=b)[0]
            R.close(v, want, b, rtol=0, atol=0, n=n)
            v = simulateDSM(u, M, np.array([n], mk), backend=b)[0]
            R.close(v, want, b+'/array', rtol=0, atol=0, n=n)
            R.step(2)
        for k, x in enumerate(u):
            R.state(n, float(x))
            for form, a, c in (('scalar', x, mk(n)),
                               ('vector', u[k:k+1], np.array([n], mk)),
                               ('column', u[k:k+1].reshape(1, 1),
                                np.array([n], mk))):
                R.step()
                v = ds_quantize(a, c)
                R.check(np.shape(v) == np.shape(a), 'shape', form=form)
                R.check(np.all(np.asarray(v, dtype=float) == want[k]),
                        'ds_quantize/'+form, n=n, y=x, got=v, want=want[k])
    if len(ns) > 2:
        nl = np.array(ns[:3], mk)
        for k in range(len(ys)-2):
            w = [quantize(float(ys[k+i]), ns[i]) for i in range(3)]
            v = ds_quantize(u[k:k+3], nl)
            R.close(np.asarray(v, dtype=float), w, 'bank', rtol=0, atol=0)
            R.step()
    R.trace(len(ns))
    R.outcome(len(ns), len(ys))


FAMILIES = {'single': (single_cases, single_run),
            'bank': (bank_cases, bank_run),
            'types': (types_cases, types_run)}
