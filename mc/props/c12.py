"""C12: minmax FIR design is optimal in the band under the Lee constraint."""
import itertools

import numpy as np

from ..refs import conj_closed, fir_resp2, minmax_bound, worst

BOUNDS = ('every combination of order, oversampling ratio, band center '
          '(single or multiple bands), gain limit, zero pre-assignment and '
          'modeler on the listed grids; on each, all the competitor FIRs are '
          'ruled out by the optimum of a relaxation, and for order 1 and 2 '
          'also by an exhaustive lattice of competitors.')
ASSUMPTIONS = ['solver accuracy: peak gain within 1e-4, in-band peak within '
               '2e-3 relative plus 2e-4 (scs: 1e-2)',
               'the solver may give up with an explicit error with the '
               'cvxpy modeler (CVXOPT often does there)']

MODELERS = {'old': dict(modeler='cvxpy_old'), 'cvxpy': dict(modeler='cvxpy'),
            'scs': dict(modeler='cvxpy', cvxpy_opts={'solver': 'scs'}),
            'picos': dict(modeler='picos')}


def bands_of(osr, f0):
    f0 = [f0] if np.isscalar(f0) else list(f0)
    osr = [osr]*len(f0) if np.isscalar(osr) else list(osr)
    return [(max(0., f-.5/o), min(.5, f+.5/o)) for f, o in zip(f0, osr)]


def verify(R, ntf, order, bands, lim, null=(), loose=False, **info):
    ok = R.check(isinstance(ntf, tuple) and len(ntf) == 3, 'zpk', got=ntf,
                 **info)
    if not ok:
        return None
    z, p, k = ntf
    info = dict(info, z=z, p=p, k=k)
    if not (R.check(np.ndim(z) == 1 and len(z) == order and np.ndim(p) == 1
                    and len(p) == order, 'order', **info) and
            R.check(np.all(np.asarray(p) == 0), 'poles', **info) and
            R.check(k == 1, 'monic', **info) and
            R.check(conj_closed(z, 1e-7), 'real', **info)):
        return None
    b = np.poly(z).real
    r2 = lambda f: fir_resp2(b, f)
    tops = [worst(r2, lo, hi, 1001) for lo, hi in bands]
    v = max(g for t in tops for _, g in t)**.5
    full = worst(r2, 0, .5, 1001)
    pk = max(g for _, g in full)**.5
    R.check(pk <= lim*(1+1e-4), 'peak gain', peak=pk, **info)
    for f in null:
        R.check(r2(np.array([f]))[0]**.5 < 1e-5, 'zero at center', f=f,
                gain=r2(np.array([f]))[0]**.5, **info)
    d = minmax_bound(order, bands, lim,
                     [f for t in tops+[full] for f, _ in t], null)
    if d is not None:
        R.check(v <= d*(1+(1e-2 if loose else 2e-3))+2e-4, 'not optimal',
                v=v, bound=d, **info)
    return b, v


def lattice(R, order, bands, lim, v, **info):
    """Competitors on a lattice of FIRs of order 1 and 2."""
    H = min(lim, 4.)
    if order == 1:
        x = np.linspace(-H-1, H+1, 2001)
        b = np.stack((np.ones_like(x), x), 1)
    else:
        x = np.linspace(-H-1, H+1, 121)
        b1, b2 = [a.ravel() for a in np.meshgrid(x, x)]
        b = np.stack((np.ones_like(b1), b1, b2), 1)

    def peak(lo, hi, n):
        e = np.exp(-2j*np.pi*np.outer(np.arange(order+1),
                                      np.linspace(lo, hi, n)))
        return np.abs(b @ e).max(axis=1)
    ok = peak(0, .5, 101) <= lim*(1-1e-3)
    inb = np.max([peak(lo, hi, 33) for lo, hi in bands], axis=0)
    R.bulk_states(int(ok.sum()))
    if ok.any():
        R.check(v <= inb[ok].min()*(1+5e-3)+2e-4, 'competitor', v=v,
                other=inb[ok].min(), **info)


def cases(tier):
    quick = tier == 'quick'
    for order in (1, 2, 3, 4, 5, 7) if quick else (1, 2, 3, 4, 5, 6, 7, 8,
                                                   10, 12, 16):
        for osr in (4, 16, 32) if quick else (2, 4, 8, 16, 32, 64):
            for f0 in (0, .01, .2, .25, .45, .5) if quick else (
                    0, .005, .01, .05, .1, .2, .25, 1/3, .4, .45, .5):
                yield {'order': order, 'osr': osr, 'f0': f0,
                       'Hs': [1.2, 2.] if quick else [1.1, 1.5, 2., 4.]}


def run(R, order, osr, f0, Hs):
    from cvxpy.error import SolverError
    from pydsm.NTFdesign import ntf_fir_minmax as F
    bands = bands_of(osr, f0)
    for H in Hs:
        vs = {}
        for m in MODELERS:
            if (m == 'old' and order > (5 if f0 == 0 else 4) or
                    m == 'scs' and (order > 3 or osr > 16) or
                    m == 'cvxpy' and order > 5):
                continue
            info = dict(H=H, m=m)
            R.step()
            R.state(H, m)
            try:
                ntf = F(order, osr, H, f0, show_progress=False, **MODELERS[m])
            except SolverError:
                R.outcome('gave up')
                R.check(m == 'cvxpy', 'solver', **info)
                continue
            r = verify(R, ntf, order, bands, H, loose=m == 'scs', **info)
            R.trace()
            if r is None:
                continue
            vs[m] = r[1]
            R.outcome(tuple(np.round(r[0], 3)))
            if order <= 2:
                lattice(R, order, bands, H, r[1], **info)
        R.check(max(vs.values())-min(vs.values()) <= 1e-2*min(vs.values()) +
                4e-4, 'modelers differ', H=H, vs=vs)
    R.sample({'order': order, 'osr': osr, 'f0': f0, 'in-band peak': vs})


def large_cases(tier):
    quick = tier == 'quick'
    for order in (10, 14, 20) if quick else (10, 14, 20, 26):
        for osr in (16,) if quick else (8, 32):
            for f0 in (0, .2, .5):
                yield {'order': order, 'osr': osr, 'f0': f0}


def large_run(R, order, osr, f0):
    """High orders."""
    from pydsm.NTFdesign import ntf_fir_minmax as F
    R.step()
    R.state(order)
    r = verify(R, F(order, osr, 1.5, f0, show_progress=False,
                    **MODELERS['picos']), order, bands_of(osr, f0), 1.5)
    R.trace()
    if r is not None:
        R.outcome(tuple(np.round(r[0], 3)))


def zf_cases(tier):
    quick = tier == 'quick'
    for order in (2, 4, 6, 8) if quick else (2, 3, 4, 5, 6, 7, 8, 10, 12):
        for osr in (8, 32) if quick else (4, 8, 16, 32, 64):
            for f0 in (0, .15, .25, .4, .5):
                yield {'order': order, 'osr': osr, 'f0': f0,
                       'Hs': [1.5, 2.5] if quick else [1.3, 1.5, 2., 2.5,
                                                       4.]}


def zf_run(R, order, osr, f0, Hs):
    """Zero pre-assigned at band center."""
    from cvxpy.error import SolverError
    from pydsm.NTFdesign import ntf_fir_minmax as F
    f0s = [f0] if np.isscalar(f0) else list(f0)
    bands = bands_of(osr, f0)
    free = order-sum(1 if f in (0, .5) else 2 for f in f0s)
    for H in Hs:
        # only when clearly feasible
        d = minmax_bound(order, bands, H*.97, [], f0s)
        R.state(H, d is None)
        if d is None or free < 1:
            R.outcome('infeasible')
            continue
        for m in ('old', 'cvxpy', 'picos'):
            if m == 'old' and order > (6 if f0s == [0] else 4):
                continue
            R.step()
            try:
                ntf = F(order, osr, H, f0, True, show_progress=False,
                        **MODELERS[m])
            except SolverError:
                R.outcome('gave up')
                R.check(m == 'cvxpy', 'solver', H=H, m=m)
                continue
            r = verify(R, ntf, order, bands, H, f0s, H=H, m=m)
            R.trace()
            if r is not None:
                R.outcome(tuple(np.round(r[0], 3)))
    R.sample({'order': order, 'osr': osr, 'f0': f0})


def zfmulti_cases(tier):
    quick = tier == 'quick'
    for order in (3, 4, 6) if quick else (2, 3, 4, 5, 6, 8, 10):
        for f0 in ([0, .5], [0, .25], [.25, 0], [.1, .3], [0, .2, .5], [.5],
                   [.35]):
            for osr in ([16] if quick else [8, 16, 32]):
                yield {'order': order, 'osr': osr, 'f0': f0,
                       'Hs': [1.6, 4.] if quick else [1.6, 2.5, 4., 8.]}


def multi_cases(tier):
    f0s = [[0, .25], [.1, .3], [0, .5], [.05, .2, .4], [.3], [.25, 0]]
    osrs = [16, [8, 32], [32, 8], [16, 16, 8], [10]]
    for order in (2, 4) if tier == 'quick' else (2, 3, 4, 6, 8):
        for f0 in f0s:
            for osr in osrs:
                yield {'order': order, 'f0': f0, 'osr': osr}


def multi_run(R, order, f0, osr):
    from cvxpy.error import SolverError
    from pydsm.NTFdesign import ntf_fir_minmax as F
    if not np.isscalar(osr) and len(osr) != len(f0):
        for m in MODELERS:
            R.step()
            R.state(m)
            R.raises(ValueError, lambda: F(order, osr, 1.5, f0,
                                           show_progress=False,
                                           **MODELERS[m]),
                     'bad bands', 'Incorrect multiband', m=m)
        R.outcome('error')
        R.trace()
        return
    bands = bands_of(osr, f0)
    for m in ('old', 'cvxpy', 'picos'):
        if m == 'old' and order > 3:
            continue
        for form in (list, tuple, np.array):
            if form is not list and m != 'picos':
                continue
            R.step()
            R.state(m, form.__name__)
            try:
                o = osr if np.isscalar(osr) else form(osr)
                ntf = F(order, o, 1.6, form(f0), show_progress=False,
                        **MODELERS[m])
            except SolverError:
                R.outcome('gave up')
                R.check(m == 'cvxpy', 'solver', m=m)
                continue
            r = verify(R, ntf, order, bands, 1.6, m=m, form=form.__name__)
            R.trace()
            if r is not None:
                R.outcome(tuple(np.round(r[0], 3)))
    R.sample({'order': order, 'osr': osr, 'f0': f0})


def misc_cases(tier):
    yield {'deep': tier != 'quick'}


def misc_run(R, deep):
    from cvxpy.error import SolverError
    from pydsm.NTFdesign import ntf_fir_minmax as F
    for m in ('cvxpy_new', '', None, 'scs'):
        R.step()
        R.state(m)
        R.raises(ValueError, lambda: F(2, modeler=m), 'bad modeler',
                 'Unsupported modeling backend')
    for m in MODELERS:
        for bad in ('normalise', 'opt', 'solver', 'fix_pos', 'quad_opts'):
            R.step()
            R.state(m, bad)
            R.raises(TypeError, lambda: F(2, **dict(MODELERS[m],
                                                    **{bad: 1})),
                     'bad option', bad)
    kw = dict(show_progress=False)
    # without the Lee constraint, for every modeler
    for m, order, f0 in itertools.product(('old', 'picos'),
                                          (1, 2, 3), (0, .2)):
        bands = bands_of(8, f0)
        R.step()
        R.state(m, order, f0)
        r = F(order, 8, np.inf, f0, **dict(MODELERS[m], **kw))
        verify(R, r, order, bands, np.inf, m=m, f0=f0,
               order_=order)
    # defaults: 32, 32, 1.5, 0, no preassignment
    for r, args in ((F(4, **kw), (4, 32, 1.5)),
                    (F(4, 16, **kw), (4, 16, 1.5)),
                    (F(4, H_inf=2., **kw), (4, 32, 2.)),
                    (F(order=5, osr=8, modeler='picos', **kw), (5, 8, 1.5))):
        R.step()
        verify(R, r, args[0], bands_of(args[1], 0), args[2], args=args)
    # default order (the design itself is expensive: stop the solver early)
    try:
        r = F(modeler='cvxpy', cvxpy_opts={'solver': 'scs'},
              scs_opts={'max_iters': 20}, **kw)
        R.check(len(r[0]) == 32 and len(r[1]) == 32, 'default order', r=r)
    except SolverError:
        pass
    R.trace()
    R.outcome(1)
    R.sample({'ntf': r})
    if not deep:
        return
    r = F(modeler='picos', **kw)
    b = np.poly(r[0]).real
    R.check(len(b) == 33 and np.all(np.asarray(r[1]) == 0),
            'default order', n=len(b))
    pk = max(g for _, g in worst(lambda f: fir_resp2(b, f), 0, .5, 4001))**.5
    inb = max(g for _, g in worst(lambda f: fir_resp2(b, f), 0, .5/32,
                                  501))**.5
    d = minmax_bound(32, bands_of(32, 0), 1.5, [])
    R.check(pk <= 1.5*(1+1e-3) and (d is None or inb <= d*1.3+1e-3),
            'default design', peak=pk, v=inb, bound=d)


FAMILIES = {'grid': (cases, run), 'large': (large_cases, large_run),
            'zf': (zf_cases, zf_run),
            'zfmulti': (zfmulti_cases, zf_run),
            'multi': (multi_cases, multi_run), 'misc': (misc_cases, misc_run)}
