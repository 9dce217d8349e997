"""C28: arguments mean the same, however they are spelled."""
import functools
import inspect
import itertools

import numpy as np

from .. import catalog
from ..catalog import match, outcome

BOUNDS = ('every argument (also within filters) of the calls of the catalog '
          'in every spelling that keeps its value: the eight NumPy integer '
          'types, float64 and float32 where they hold it, integers for '
          'integral floats, NumPy booleans and strings, lists, tuples, '
          'arrays in five memory layouts, callable objects and partial '
          'applications; every number of positional arguments, the others '
          'by name in two orders; integer parameters at values around the '
          'limits of the narrow types, alone and in pairs, in every integer '
          'type that holds them; every documented default omitted and '
          'given. Two arguments respelled at once: for a quarter of the inexpensive '
          'calls (quick), for all calls but the convex designs (thorough).')
ASSUMPTIONS = ['lists are tried where the documentation says array_like',
               'results agree within 1e-7 (1e-4 for float32 arguments and '
               '1e-5 for those of solvers)',
               'arguments must be valid: what is done with others may differ']
INTS = (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32,
        np.int64, np.uint64)
SEQ = ('list', 'tuple')
# (prefix of the name of the call, argument) for which lists are not promised
NO_LIST = [(n+'_weighting', 0) for n in 'abcdf'] + [
    (p, 0) for p in ('padl', 'padr', 'padt', 'padb', 'ds_synNTFobj1',
                     'dsclansNTF', 'from_q0', 'ds_quantize', 'partitionABCD',
                     'q0_from_filter_ir')] + [
    ('dsclansNTF', 3), ('ds_synNTFobj1', 1), ('ds_quantize', 1)]
# Where complex arrays with null imaginary parts make sense
CPLX = ('cplxpair', 'evalRPoly', 'synthesizeNTF zeros')
# Arguments whose type is meaningful or that go to a function of the caller
TYPED = [('eps', 0), ('spread', 3), ('spread kw', 'cf_kwargs')]
_cat = None
_ref = {}


def cat():
    global _cat
    if _cat is None:
        import matplotlib
        matplotlib.use('Agg')
        _cat = catalog.calls()
    return _cat


def fits(x, t):
    x = np.asarray(x)
    if x.dtype.kind not in 'iuf' or x.size == 0 or \
            not np.all(np.isfinite(x)) or not np.all(x == np.round(x)):
        return False
    i = np.iinfo(t)
    return bool(np.all(x >= i.min) and np.all(x <= i.max))


class Obj:
    """A callable which is not a function."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *x, **k):
        return self.f(*x, **k)


def layouts(a):
    if a.ndim > 1:
        yield 'fortran', np.asfortranarray(a)
    b = np.zeros(tuple(2*s for s in a.shape), a.dtype)
    v = b[tuple(slice(None, None, 2) for s in a.shape)]
    v[...] = a
    yield 'strided', v
    back = tuple(slice(None, None, -1) for s in a.shape)
    yield 'reversed', a[back].copy()[back]
    yield 'swapped', a.astype(a.dtype.newbyteorder('>'))
    r = a.copy()
    r.setflags(write=False)
    yield 'read-only', r


def spellings(x, lists=True, cplx=False):
    """(description, other spelling of x)"""
    if x is None or isinstance(x, dict):
        return
    if isinstance(x, (bool, np.bool_)):
        yield 'bool_', np.bool_(x)
    elif isinstance(x, str):
        yield 'str_', np.str_(x)
    elif callable(x):
        yield 'object', Obj(x)
        yield 'partial', functools.partial(x)
    elif isinstance(x, (int, np.integer)):
        for t in INTS:
            if fits(x, t):
                yield t.__name__, t(x)
    elif isinstance(x, (float, np.floating)):
        yield 'float64', np.float64(x)
        if float(np.float32(x)) == x:
            yield 'float32', np.float32(x)
        if fits(x, np.int64):
            yield 'int', int(x)
        for t in INTS:
            if fits(x, t):
                yield t.__name__, t(x)
    elif isinstance(x, (complex, np.complexfloating)):
        yield 'complex128', np.complex128(x)
    elif isinstance(x, (list, tuple, np.ndarray)):
        try:
            a = np.array(x)
        except ValueError:
            return
        if a.dtype.kind not in 'ifcu':
            return
        yield 'array', a
        if lists:
            yield 'list', a.tolist()
            if a.ndim == 1:
                yield 'tuple', tuple(a.tolist())
        for v in layouts(a):
            yield v
        if a.dtype.kind == 'f' and \
                np.array_equal(a.astype(np.float32).astype(float), a):
            yield 'float32', a.astype(np.float32)
        if a.dtype.kind != 'c':
            for t in INTS:
                if fits(a, t):
                    yield t.__name__, a.astype(t)
                    if lists and t is np.uint8 and a.ndim == 1:
                        yield 'list of uint8', [t(i) for i in a]
            if cplx:
                yield 'complex', a.astype(complex)
        if a.dtype.kind == 'i':
            yield 'float', a.astype(float)


def sites(x, path=()):
    """Places of an argument that may be respelled (parts of a filter)."""
    if isinstance(x, tuple) and any(isinstance(i, (np.ndarray, list, tuple))
                                    for i in x):
        for k, i in enumerate(x):
            for s in sites(i, path+(k,)):
                yield s
    else:
        yield path, x


def put(x, path, v):
    if not path:
        return v
    parts = list(x)
    parts[path[0]] = put(parts[path[0]], path[1:], v)
    return tuple(parts)


def agree(x, y, tol=1e-7):
    if x[0] != y[0]:
        return False
    if x[0] != 'ok':
        return True

    def rec(p, q):
        if p[0] == 'num' and q[0] == 'num':
            u, v = np.asarray(p[1]), np.asarray(q[1])
            if u.shape != v.shape:
                return False
            u, v = u.astype(complex), v.astype(complex)
            return bool(np.allclose(u, v, rtol=tol, atol=tol, equal_nan=True)
                        or tol > 1e-6 and u.ndim == 1 and
                        match(u, v, tol, tol))
        if {p[0], q[0]} <= {'tuple', 'list'}:
            return len(p[1]) == len(q[1]) and all(map(rec, p[1], q[1]))
        return p == q
    return rec(x[1], y[1])


def leaves(name):
    """Places of a call and their spellings: (where, description, index)."""
    args, kwargs = cat()[name][1]()
    for key, val in list(enumerate(args)) + sorted(kwargs.items()):
        if (name, key) in TYPED:
            continue
        for path, leaf in sites(val):
            lists = not any(name.startswith(n) and key == k
                            for n, k in NO_LIST)
            cplx = bool(len(path) == 1 and len(val) == 3 and path[0] < 2 or
                        name.startswith(CPLX) and key in (0, 2))
            for i, (kind, v) in enumerate(spellings(leaf, lists, cplx)):
                yield key, path, kind, (lists, cplx)


def respell(name, changes):
    """Call with some of the leaves respelled."""
    f, b, cost = cat()[name]
    args, kwargs = b()
    args = list(args)
    for key, path, kind, how in changes:
        box = args if isinstance(key, int) else kwargs
        leaf = dict(sites(box[key]))[path]
        box[key] = put(box[key], path, dict(spellings(leaf, *how))[kind])
    return outcome(f, tuple(args), kwargs)


def tolerance(name, changes):
    if any('float32' in c[2] for c in changes):
        return 1e-4
    return 1e-5 if cat()[name][2] == 2 else 1e-7


def reference(name):
    if name not in _ref:
        f, b, cost = cat()[name]
        _ref[name] = outcome(f, *b())
    return _ref[name]


def show(o):
    return str(o)[:200]


def names(tier):
    out = sorted(cat())
    if tier == 'quick':
        out = [n for n in out if cat()[n][2] < 2 or
               n.endswith(('cvxpy_old', 'poles', 'zpk', 'bp', 'norm')) or
               n in ('plotPZ', 'plotPZ colors', 'audio a')]
    return out


def leaf_run(R, name):
    ref = reference(name)
    for c in leaves(name):
        got = respell(name, [c])
        R.state(name, c[0], c[1], c[2])
        R.step()
        R.check(agree(got, ref, tolerance(name, [c])), 'spelling',
                call=name, argument=c[0], part=c[1], kind=c[2],
                got=show(got), want=show(ref))
        R.trace()
        R.outcome(c[2], got[0])
    R.sample({'call': name})


def two_cases(tier):
    if tier == 'quick':
        return [{'name': n} for n in sorted(cat())
                if cat()[n][2] == 0][::4]
    return [{'name': n} for n in sorted(cat()) if cat()[n][2] < 2]


def two_run(R, name):
    ref = reference(name)
    for c, d in itertools.combinations(list(leaves(name)), 2):
        if c[:2] == d[:2]:
            continue
        got = respell(name, [c, d])
        R.state(name, c[:3], d[:3])
        R.step()
        R.check(agree(got, ref, tolerance(name, [c, d])), 'two',
                call=name, one=c[:3], two=d[:3],
                got=show(got), want=show(ref))
        R.trace()
    R.outcome(name, ref[0])


# Positional arguments and keywords

def word_run(R, name):
    f, b, cost = cat()[name]
    f = {'call_fun': None, 'call_mult': None, 'call_itpl': None}.get(
        f.__name__, f)
    if f is None:
        return
    args, kwargs = b()
    try:
        par = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return
    if any(p.kind is p.VAR_POSITIONAL for p in par):
        return
    order = [p.name for p in par
             if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    ref = reference(name)
    given = dict(zip(order, args))
    ahead = len(args)
    while ahead < len(order) and order[ahead] in kwargs:
        ahead += 1
    for k in range(ahead+1):
        for back in (False, True):
            args, kwargs = b()
            every = dict(zip(order, args))
            every.update(kwargs)
            first = tuple(every.pop(n) for n in order[:k])
            rest = {n: every[n] for n in sorted(every, reverse=back)}
            got = outcome(f, first, rest)
            R.state(name, k, back)
            R.step()
            R.check(agree(got, ref, tolerance(name, [])), 'keywords',
                    call=name, positional=k, keywords=sorted(rest),
                    got=show(got), want=show(ref))
            R.trace()
    R.outcome(name, len(order))


# Integers around the limits of the narrow types

OSR = (64, 100, 127, 128, 200, 255, 256, 32767, 40000)
NEAR = (1, 3, 100, 127, 128, 200, 255, 256, 30000, 40000)


def zpk():
    return (np.array([1.]), np.array([.5]), 1.)


def narrow():
    """{name: (function of the integers, lists of values)}"""
    import pydsm.audio_weightings as aw
    import pydsm.correlations as co
    import pydsm.delsig as d
    import pydsm.ft as ft
    import pydsm.ir as ir
    import pydsm.iso226 as iso
    import pydsm.NTFdesign as N
    import pydsm.NTFdesign.helpers as hp
    import pydsm.NTFdesign.legacy as lg
    import pydsm.NTFdesign.psychoacoustic as ps
    import pydsm.NTFdesign.weighting as w
    import pydsm.relab as rl
    import pydsm.simulation as sim
    x = np.arange(5.)
    fir = catalog.fir
    band = catalog.lp
    S = dict(show_progress=False)
    out = {}
    for opt in (0, 1, 2):
        out['synthesizeNTF osr %d' % opt] = (
            lambda v, opt=opt: d.synthesizeNTF(3, v, opt), OSR)
        out['synthesizeNTF bp osr %d' % opt] = (
            lambda v, opt=opt: d.synthesizeNTF(4, v, opt, 1.5, .25), OSR)
        out['synthesizeNTF order %d' % opt] = (
            lambda v, opt=opt: d.synthesizeNTF(v, 32, opt), range(1, 15))
        out['synthesizeNTF bp order %d' % opt] = (
            lambda v, opt=opt: d.synthesizeNTF(v, 32, opt, 1.5, .2),
            range(2, 15, 2))
    out['synthesizeNTF opt H_inf'] = (
        lambda o, h: d.synthesizeNTF(4, 32, o, h), (0, 1, 2), (2, 3, 8))
    out['synthesizeNTF order osr'] = (
        lambda n, o: d.synthesizeNTF(n, o, 1), (2, 7, 8), (64, 127, 200))
    out['synthesizeNTF bp order osr'] = (
        lambda n, o: d.synthesizeNTF(n, o, 1, 1.5, .2), (2, 8),
        (64, 127, 200))
    out['cheb osr'] = (lambda v: d.synthesizeChebyshevNTF(3, v), OSR)
    out['cheb bp osr'] = (
        lambda v: d.synthesizeChebyshevNTF(4, v, 0, 1.5, .2), OSR)
    out['cheb order osr'] = (
        lambda n, o: d.synthesizeChebyshevNTF(n, o), range(1, 8), (64, 127))
    out['cheb order H_inf'] = (
        lambda n, h: d.synthesizeChebyshevNTF(n, 64, 0, h), (2, 3), (2, 3))
    out['clans'] = (lambda n, o, q: d.clans(n, o, q), (2, 3), (32, 200),
                    (5,))
    out['dsclansNTF'] = (
        lambda n: d.dsclansNTF(x[:n]*.1+.1, n, .95, np.ones(int(n))),
        range(1, 5))
    out['ds_f1f2'] = (lambda v: d.ds_f1f2(v, 0), OSR)
    out['ds_f1f2 bp'] = (lambda v: d.ds_f1f2(v, .2), OSR)
    out['ds_f1f2 complex'] = (lambda v: d.ds_f1f2(v, .2, True), OSR)
    out['ds_optzeros'] = (d.ds_optzeros, range(1, 15), (0, 1, 2))
    out['ds_quantize n'] = (
        lambda n: sim.ds_quantize(
            np.array([[-300., -100.3, 3.2, 99., 500]]), n),
        (2, 3, 127, 128, 255, 256))
    for b in ('scipy', 'scipy_blas', 'cblas'):
        out['simulateDSM nlev '+b] = (
            lambda n, b=b: d.simulateDSM(
                [[50., -90.5, 120.25, 400., -700.]], zpk(), n, backend=b),
            (2, 3, 127, 128, 255, 256))
    out['rmsGain N'] = (lambda v: d.rmsGain(zpk(), 0, .25, v),
                        (2, 100, 127, 128, 200, 255, 300))
    out['rmsGain f2'] = (lambda v: d.rmsGain(zpk(), 0, v), (1,))
    for n in ('padl', 'padr', 'padt', 'padb'):
        f = getattr(d, n)
        out[n] = (lambda m, v, f=f: f(x, m, v), (5, 127, 200), (0, 100, 127))
        out[n+' matrix'] = (
            lambda m, v, f=f: f(np.arange(6.).reshape(2, 3), m, v),
            (3, 127, 200), (0, 100))
    for n in ('dbv', 'dbp', 'dbm', 'undbv', 'undbp', 'undbm'):
        f = getattr(d, n)
        out[n] = (f, NEAR)
        out[n+' array'] = (lambda v, f=f: f(np.array([v, v])), NEAR)
        out[n+' list'] = (lambda v, f=f: f([v, v]), NEAR)
    out['dbm R'] = (d.dbm, (1, 100, 127, 200), (50, 75, 127, 200))
    out['undbm R'] = (d.undbm, (1, 50, 127), (50, 75, 127, 200))
    out['db R'] = (lambda v, r: rl.db(v, 'voltage', r), (1, 100, 127, 200),
                   (1, 50, 127, 200))
    out['db power'] = (lambda v: rl.db(v, 'power'), NEAR)
    out['cplxpair dim'] = (
        lambda v: rl.cplxpair(np.array([[5, 6, 4], [3, 2, 1]]), None, v),
        (0, 1))
    out['cplxpair'] = (lambda v: rl.cplxpair([v, v+0]), NEAR)
    out['shiftdim'] = (
        lambda n, k: rl.shiftdim(np.arange(6.).reshape(1, 2, 3), n, k),
        (0, 1, 2, 3, 4, 5, -1, -2), (1, 2))
    out['impulse_response m'] = (lambda v: ir.impulse_response(zpk(), v),
                                 (1, 10, 127, 128, 200, 300))
    out['impulse_response db'] = (
        lambda v: ir.impulse_response(zpk(), None, v),
        (20, 100, 127, 128, 200, 300))
    out['guess_ir_length'] = (lambda v: ir.guess_ir_length(zpk(), v),
                              (20, 100, 127, 128, 200, 300))
    out['impulse_response gain'] = (
        lambda v: ir.impulse_response(([], [.5], v), 5), NEAR)
    out['fft_centered'] = (lambda v: ft.fft_centered(x, v), NEAR)
    out['fft_centered x'] = (lambda v: ft.fft_centered([v, 1, v]), NEAR)
    out['dtft'] = (lambda v, f: ft.dtft(x, v)(f), NEAR, (1, 100, 127))
    out['dtft t0'] = (lambda v, f: ft.dtft(x, 1, v)(f*.3), (1, 100, 200),
                      (1, 100))
    out['dtft x'] = (lambda v: ft.dtft(np.array([v, v, v]))(.2), NEAR)
    out['dtft_hermitian'] = (
        lambda v, f: ft.dtft_hermitian(x, v)(f*.1), NEAR, (1, 100))
    out['idtft'] = (lambda t: ft.idtft(ft.dtft(x), t), (0, 1, 3))
    out['idtft fs'] = (lambda v: ft.idtft(ft.dtft(x, v), .01, v), (1, 4, 100))
    out['idtft_hermitian fs'] = (
        lambda v: ft.idtft_hermitian(ft.dtft_hermitian(x, v), .01, v),
        (1, 4, 100))
    out['raw_acorr N'] = (lambda n: co.raw_acorr(x, n), range(5))
    out['raw_acorr x'] = (lambda v: co.raw_acorr(np.array([v, v, v]), 1),
                          NEAR)
    out['raw_acorr list'] = (lambda v: co.raw_acorr([v, v, v], 1), NEAR)
    out['raw_xcorr x'] = (
        lambda v, u: co.raw_xcorr(np.array([v, v, v]), np.array([u, u]), 1),
        NEAR, (3, 100, 127, 200))
    out['raw_xcorr N'] = (lambda n: co.raw_xcorr(x, x[::-1], n), range(5))
    for n in 'abcdf':
        f = getattr(aw, n+'_weighting')
        out[n+'_weighting'] = (f, (1, 20, 100, 127, 200, 255, 1000, 20000,
                                   40000))
        out[n+'_weighting array'] = (
            lambda v, f=f: f(np.array([v, v]), False, False),
            (1, 20, 100, 127, 200, 255, 1000, 20000, 40000))
    out['evalTF'] = (lambda v: d.evalTF(catalog.zpk3(), v), NEAR)
    out['evalTF ba'] = (
        lambda v: d.evalTF(([1., 0, 0, 1], [1., 2., 3., 0.]), v), NEAR)
    out['evalTF ints'] = (
        lambda v, u: d.evalTF((np.array([v, v, v]), np.array([v, u])), 2.),
        NEAR, (1, 100, 200))
    out['evalRPoly'] = (lambda v, k: d.evalRPoly([1., 2., -1.], v, k), NEAR,
                        (1, 100, 127, 200))
    out['evalRPoly roots'] = (
        lambda v, u: d.evalRPoly(np.array([v, v, 1]), np.array([u, u])),
        NEAR, (1, 3, 100, 200))
    out['axisLabels'] = (
        lambda i: d.axisLabels(np.arange(300.), i), (1, 2, 100, 127, 200, 255))
    out['axisLabels pair'] = (
        lambda s, i: d.axisLabels(np.arange(300.), (s, i)), (0, 100, 200),
        (1, 100, 200))
    out['rms'] = (lambda v: d.rms(np.array([v, v, 0])), NEAR)
    out['rms no_dc'] = (lambda v: d.rms([v, v, v*0], no_dc=True), NEAR)
    out['partitionABCD'] = (
        lambda m: d.partitionABCD(np.arange(20.).reshape(4, 5), m), (1, 2))
    out['maxflat'] = (lambda n: hp.maxflat_fir_zeros(n, .3), range(1, 10))
    out['spread'] = (
        lambda n, o: hp.spread_fir_uc_zeros(n, o, catalog.spread_cf),
        (2, 3, 4), (16, 100, 127, 200))
    out['dunn_optzeros'] = (ps.dunn_optzeros, range(1, 9))
    out['dunn_optzeros_cplx'] = (ps.dunn_optzeros_cplx, range(1, 9), OSR)
    out['ntf_dunn'] = (lambda n, o: N.ntf_dunn(n, o), (1, 3, 5), (32, 64))
    out['ntf_dunn H_inf'] = (lambda n, h: N.ntf_dunn(n, 64, h), (3, 7, 8),
                             (2, 3))
    out['q0_from_filter_ir'] = (lambda n: lg.q0_from_filter_ir(n, fir()),
                                (1, 2, 3))
    out['gain by conv db'] = (
        lambda v: lg.quantization_noise_gain_by_conv(
            catalog.ntf2(), zpk(), db=v), (60, 100, 127, 128, 200))
    out['q0_weighting'] = (lambda n: w.q0_weighting(n, catalog.cos_w),
                           (1, 5, 20))
    out['fir'] = (lambda n, h: N.ntf_fir_weighting(n, band, h, **S), (3, 4),
                  (2, 3))
    out['hybrid'] = (
        lambda n, h: N.ntf_hybrid_weighting(n, band, h, [.5, -.3], **S),
        (4,), (2, 3))
    out['minmax'] = (lambda n, o: N.ntf_fir_minmax(n, o, **S), (3, 4),
                     (16, 127, 200))
    out['minmax H_inf'] = (lambda n, h: N.ntf_fir_minmax(n, 16, h, **S),
                           (4,), (2, 3))
    out['minmax bp'] = (lambda o: N.ntf_fir_minmax(4, o, 1.5, .25, **S),
                        (16, 127, 200))
    out['audio'] = (
        lambda n, o: N.ntf_fir_audio_weighting(n, o, **S), (3,),
        (64, 127, 128, 200))
    out['audio band'] = (
        lambda b: N.ntf_fir_audio_weighting(3, 4, 'a', b, **S),
        (20000, 22050, 30000, 40000))
    out['audio max_attn H_inf'] = (
        lambda m, h: N.ntf_fir_audio_weighting(3, 4, 'a', 20e3, m, h, **S),
        (60, 120, 127), (2,))
    out['tabled_L_p'] = (iso.tabled_L_p, (20, 40, 60, 80, 90))
    out['tabled_A_f'] = (iso.tabled_A_f, (20, 40, 60, 80, 90))
    out['tabled_L_N'] = (lambda v: iso.tabled_L_N(np.array([v]*29)),
                         (40, 60, 100))
    out['tabled_B_f'] = (lambda v: iso.tabled_B_f(np.array([v]*29)),
                         (40, 60, 100))
    out['iso226_spl_contour'] = (iso.iso226_spl_contour, (20, 40, 80, 90))
    out['iso226_spl_itpl'] = (
        lambda v, f: iso.iso226_spl_itpl(v)(f), (20, 40, 90),
        (20, 100, 127, 200, 255, 1000, 12500))
    out['iso226_spl_itpl k'] = (
        lambda k: iso.iso226_spl_itpl(40, False, k)(np.array([100., 3e3])),
        (1, 2, 3))
    return out


SOLVER = ('fir', 'hybrid', 'minmax', 'audio')


def narrow_run(R, name):
    spec = narrow()[name]
    f, values = spec[0], spec[1:]
    tol = 1e-5 if name.startswith(SOLVER) else 1e-7
    for vals in itertools.product(*values):
        ref = outcome(f, vals, {})
        R.check(ref[0] == 'ok', 'plain', call=name, values=vals,
                got=show(ref))
        fitting = [[t for t in INTS if fits(v, t)] for v in vals]
        for types in itertools.product(*fitting):
            if len(types) == 3 and len(set(types)) == 3:
                continue
            got = outcome(f, tuple(t(v) for t, v in zip(types, vals)), {})
            kinds = [t.__name__ for t in types]
            R.state(vals, kinds)
            R.step()
            R.check(agree(got, ref, tol), 'narrow', call=name, values=vals,
                    types=kinds, got=show(got), want=show(ref))
            R.outcome(kinds, got[0])
        R.trace()
    R.sample({'call': name})


# Documented defaults

def defaults():
    """{name: (function, arguments, {parameter: documented default})}"""
    import pydsm.audio_weightings as aw
    import pydsm.delsig as d
    import pydsm.ft as ft
    import pydsm.ir as ir
    import pydsm.iso226 as iso
    import pydsm.NTFdesign as N
    import pydsm.NTFdesign.helpers as hp
    import pydsm.NTFdesign.legacy as lg
    import pydsm.NTFdesign.weighting as w
    import pydsm.relab as rl
    import pydsm.simulation as sim
    import pydsm.utilities as ut
    c = catalog
    eps = np.finfo(float).eps
    S = dict(show_progress=False)
    out = {}
    syn = dict(order=3, osr=64, opt=0, H_inf=1.5, f0=0.)
    for n, f in (('synthesizeNTF', d.synthesizeNTF),
                 ('ntf_schreier', N.ntf_schreier),
                 ('cheb', d.synthesizeChebyshevNTF),
                 ('ntf_chebyshev', N.ntf_chebyshev)):
        out[n] = (f, {}, syn)
        out[n+' bp'] = (f, dict(order=4, f0=.2), {
            k: v for k, v in syn.items() if k not in ('order', 'f0')})
        out[n+' opt'] = (f, dict(opt=1, order=4, H_inf=2.),
                         dict(osr=64, f0=0.))
    for n, f in (('clans', d.clans), ('ntf_clans', N.ntf_clans)):
        out[n] = (f, dict(order=2), dict(osr=64, nq=5, rmax=.95, opt=0))
        out[n+' order'] = (f, dict(osr=32), dict(order=4))
    out['ntf_dunn'] = (N.ntf_dunn, {}, dict(order=3, osr=64, H_inf=1.5))
    for n in ('padl', 'padr', 'padt', 'padb'):
        out[n] = (getattr(d, n), dict(x=np.arange(3.)+1, n=5), dict(val=0))
    out['rms'] = (d.rms, dict(x=np.arange(3.)+1), dict(no_dc=False))
    out['rmsGain'] = (d.rmsGain, dict(H=c.ntf2(), f1=0, f2=.1), dict(N=100))
    out['dbm'] = (d.dbm, dict(v=3.), dict(R=50.))
    out['undbm'] = (d.undbm, dict(x=3.), dict(R=50.))
    out['db'] = (rl.db, dict(x=3.), dict(signal_type='voltage', R=1))
    out['evalRPoly'] = (d.evalRPoly, dict(roots=[1., 2.], x=.3), dict(k=1))
    out['ds_optzeros'] = (d.ds_optzeros, dict(n=3), dict(opt=1))
    out['ds_f1f2'] = (d.ds_f1f2, {}, dict(osr=64, f0=0, complex_flag=False))
    out['ds_f1f2 bp'] = (d.ds_f1f2, dict(f0=.2),
                         dict(osr=64, complex_flag=False))
    out['partitionABCD'] = (d.partitionABCD,
                            dict(ABCD=np.arange(12.).reshape(3, 4)),
                            dict(m=None))
    out['eps'] = (rl.eps, {}, dict(x=1.))
    out['shiftdim'] = (rl.shiftdim, dict(x=np.arange(6.).reshape(1, 3, 2)),
                       dict(n=None, nargout=2))
    out['cplxpair'] = (rl.cplxpair, dict(x=np.array([1j, 2., -1j])),
                       dict(tol=100*eps, dim=None))
    out['cplxpair dim'] = (
        rl.cplxpair, dict(x=np.array([[3., 2, 1], [2., 1, 5]])),
        dict(dim=0))
    near = np.array([0., 50*eps, 99*eps, 101*eps, 1+50j*eps, 1+200j*eps])
    out['chop'] = (ut.chop, dict(x=near), dict(tol=100*eps))
    out['is_negligible'] = (ut.is_negligible, dict(x=near),
                            dict(tol=100*eps))
    for n in 'abcdf':
        out[n+'_weighting'] = (getattr(aw, n+'_weighting'),
                               dict(f=np.array([20., 1e3, 2e4])),
                               dict(normal=True, power=True))
    for n in ('tabled_f', 'tabled_alpha_f', 'tabled_L_U', 'tabled_T_f'):
        out[n] = (getattr(iso, n), {}, dict(hfe=False))
    for n in ('tabled_A_f', 'tabled_L_p'):
        out[n] = (getattr(iso, n), dict(L_N=40.), dict(hfe=False))
    for n in ('tabled_B_f', 'tabled_L_N'):
        out[n] = (getattr(iso, n), dict(L_p=np.linspace(40, 60, 29)),
                  dict(hfe=False))
    out['iso226_spl_contour'] = (iso.iso226_spl_contour, {},
                                 dict(L_N=40, hfe=False))
    f = np.array([20., 55., 1234., 9e3, 12500.])
    out['iso226_spl_itpl'] = (lambda **k: iso.iso226_spl_itpl(**k)(f), {},
                              dict(L_N=40, hfe=False, k=3))
    x = np.array([1., 2., 3., 5.])
    out['fft_centered'] = (ft.fft_centered, dict(x=x), dict(fs=1))
    f = (0., .1, .7)

    def at(g):
        return np.array([g(i) for i in f])
    out['dtft'] = (lambda **k: at(ft.dtft(x, **k)), {}, dict(fs=1, t0=0))
    out['dtft fs'] = (lambda **k: at(ft.dtft(x, 4., **k)), {}, dict(t0=0))
    out['dtft_hermitian'] = (lambda **k: at(ft.dtft_hermitian(x, **k)), {},
                             dict(fs=1))
    out['idtft'] = (ft.idtft, dict(Ff=c.one_sided, tt=[0, 1, 2]),
                    dict(fs=1))
    out['idtft_hermitian'] = (ft.idtft_hermitian,
                              dict(Ff=c.sym_resp, tt=[0, 1, 2]), dict(fs=1))
    out['impulse_response'] = (ir.impulse_response, dict(h=c.filt_zpk()),
                               dict(m=None, db=80))
    out['guess_ir_length'] = (ir.guess_ir_length, dict(h=c.filt_zpk()),
                              dict(db=80))
    out['gain by conv'] = (
        lg.quantization_noise_gain_by_conv,
        dict(NTF=c.ntf2(), H=c.filt_zpk()), dict(H_type='zpk', db=80))
    out['quantization_noise_gain'] = (
        N.quantization_noise_gain, dict(NTF=c.ntf2()),
        dict(w=None, bounds=(0, .5), avg=False))
    out['spread'] = (hp.spread_fir_uc_zeros,
                     dict(order=3, OSR=16, cf=c.spread_cf),
                     dict(cf_args=[], cf_kwargs={}))
    for b in ('scipy', 'scipy_blas', 'cblas', None):
        k = dict(u=c.signal(), arg2=c.ntf2())
        if b is not None:
            k['backend'] = b
        out['simulateDSM %s' % b] = (
            sim.simulateDSM, k,
            dict(nlev=2, x0=0))
    q0 = np.array([.6, .3, .1])
    out['from_q0'] = (w.ntf_fir_from_q0, dict(q0=q0, **S),
                      dict(H_inf=1.5, normalize='auto'))
    out['fir'] = (N.ntf_fir_weighting, dict(order=3, w=c.lp, **S),
                  dict(H_inf=1.5, normalize='auto'))
    out['hybrid'] = (N.ntf_hybrid_weighting, dict(order=3, w=c.lp, **S),
                     dict(H_inf=1.5, poles=[], normalize='auto'))
    out['minmax'] = (N.ntf_fir_minmax, dict(order=4, **S),
                     dict(osr=32, H_inf=1.5, f0=0, zf=False))
    return out


def default_run(R, name):
    f, given, table = defaults()[name]
    solver = name.startswith(SOLVER+('from_q0',))
    tol = 1e-5 if solver else 1e-7
    sub = sorted(table)
    ref = outcome(f, (), dict(given, **table))
    R.check(ref[0] == 'ok', 'explicit', call=name, got=show(ref))
    for n in range(len(sub)):
        for keep in itertools.combinations(sub, n):
            got = outcome(f, (), dict(given, **{k: table[k] for k in keep}))
            R.state(name, keep)
            R.step()
            R.check(agree(got, ref, tol), 'default', call=name,
                    given=keep, got=show(got), want=show(ref))
            R.trace()
    R.outcome(name, len(sub))
    R.sample({'call': name, 'defaults': {k: str(table[k]) for k in sub}})


FAMILIES = {
    'leaf': (lambda tier: [{'name': n} for n in names(tier)], leaf_run),
    'words': (lambda tier: [{'name': n} for n in names(tier)], word_run),
    'narrow': (lambda tier: [{'name': n} for n in sorted(narrow())],
               narrow_run),
    'defaults': (lambda tier: [{'name': n} for n in sorted(defaults())],
                 default_run),
    'two': (two_cases, two_run),
}
