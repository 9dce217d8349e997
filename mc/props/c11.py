"""C11: hybrid NTF design keeps the given poles and is optimal."""
import itertools

import numpy as np
from scipy.linalg import toeplitz

from ..refs import (conj_closed, dual_bound, fir_resp2, match, quad,
                    worst)
from .c10 import BREAKS, WEIGHTS, wfun, zb

BOUNDS = ('every conjugate-closed multiset of poles from a small alphabet up '
          'to the order, in several orderings, times every weighting, gain '
          'limit and modeler on the listed grids; on each, every competitor '
          'with the same poles is ruled out by a certified lower bound; '
          'every excess of poles.')
ASSUMPTIONS = ['solver accuracy: the peak gain is taken with 1e-4 and the '
               'noise with 2e-3 relative tolerance (scs, run with eps '
               '1e-9: 2e-3 both)', 'weightings without null bands: with them the '
               'programs with poles are too ill-conditioned for CVXOPT, '
               'which gives up with an error (tolerated for up to one call in '
               'five)',
               'poles of modulus up to 0.9']

MODELERS = {'old': dict(modeler='cvxpy_old'), 'cvxpy': dict(modeler='cvxpy'),
            'scs': dict(modeler='cvxpy', cvxpy_opts={'solver': 'scs'},
                        scs_opts={'eps': 1e-9, 'max_iters': 100000,
                                  'acceleration_lookback': 0}),
            'picos': dict(modeler='picos')}
ATOMS = ([0.5], [-.4], [.9], [zb(.1, .7), zb(-.1, .7)],
         [zb(.2, .85), zb(-.2, .85)], [zb(.4, .5), zb(-.4, .5)])


def polesets(n):
    """Multisets of atoms with exactly n poles."""
    def rec(i, left):
        if left == 0:
            yield []
        elif i < len(ATOMS):
            if len(ATOMS[i]) <= left:
                for r in rec(i, left-len(ATOMS[i])):
                    yield [i]+r
            for r in rec(i+1, left):
                yield r
    return list(rec(0, n))


def own_q0(w, aden, P, breaks):
    """2 int w/|A|^2 cos(2 pi k f), k = 0..P"""
    e = np.unique(np.r_[0., breaks, .1, .2, .4, .5])
    out = np.zeros(P+1)
    for k in range(P+1):
        out[k] = 2*sum(quad(lambda f: w(f)/fir_resp2(aden, f) *
                            np.cos(2*np.pi*k*f), a, b, 4)
                       for a, b in zip(e[:-1], e[1:]))
    return out


def verify(R, ntf, poles, q0, order, lim, tolp=1e-4, toln=2e-3, **info):
    ok = R.check(isinstance(ntf, tuple) and len(ntf) == 3, 'zpk', got=ntf,
                 **info)
    if not ok:
        return None
    z, p, k = ntf
    info = dict(info, z=z, p=p, k=k)
    want = list(poles)+[0.]*(order-len(poles))
    if not (R.check(np.ndim(z) == 1 and len(z) == order and np.ndim(p) == 1
                    and len(p) == order, 'order', **info) and
            R.check(match(p, want, 0), 'poles', want=want, **info) and
            R.check(k == 1, 'gain', **info) and
            R.check(conj_closed(z, 1e-7), 'real', **info)):
        return None
    b = np.poly(z).real
    a = np.poly(want).real
    v = float(b @ toeplitz(q0) @ b)
    pk = max(g for _, g in worst(
        lambda f: fir_resp2(b, f)/fir_resp2(a, f), 0, .5, 1001))
    R.check(pk**.5 <= lim*(1+tolp), 'peak gain', peak=pk**.5, **info)
    d = dual_bound(b, q0, lim*lim, aden=a)
    R.check(v <= d*(1+toln)+1e-6*q0[0], 'not optimal', noise=v, bound=d,
            **info)
    return b, v


def cases(tier):
    names = ('white', 'smooth', 'floor', 'lp', 'zeros') if tier == 'quick' \
        else tuple(sorted(set(WEIGHTS)-{'band', 'two bands'}))
    for order in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        for name in names:
            for n in range(0, order+1):
                S = polesets(n)
                if tier == 'quick' and order == 4:
                    S = S[::2]
                for i in range(0, len(S), 5):
                    yield {'order': order, 'name': name, 'sets': S[i:i+5],
                           'Hs': [1.2, 1.6] if tier == 'quick' else
                           [1.1, 1.2, 1.5, 2., 3.]}


def run(R, order, name, sets, Hs):
    from scipy.signal import zpk2tf
    from cvxpy.error import SolverError
    from pydsm.NTFdesign import ntf_fir_weighting, ntf_hybrid_weighting as F
    w = wfun(name)
    pts = BREAKS.get(name, [])
    form = WEIGHTS[name]
    kw = {'quad_opts': {'points': pts}} if pts else {}
    kw['show_progress'] = False
    calls, lost = 0, 0
    for s in sets:
        poles = [x for i in s for x in ATOMS[i]]
        q0 = own_q0(w, np.poly(poles).real if poles else np.ones(1), order,
                    pts)
        for H in Hs:
            vs = {}
            for m in MODELERS:
                info = dict(s=s, H=H, m=m)
                R.step()
                R.state(s, H, m)
                t = dict(tolp=2e-3) if m == 'scs' else {}
                if m == 'scs' and (len(s) > 2 or H < 1.2 or order > 4 or
                                   s.count(2) > 1):
                    continue
                calls += 1
                try:
                    ntf = F(order, form, H, poles, **dict(MODELERS[m], **kw))
                except SolverError:     # the solver honestly gives up
                    lost += 1
                    continue
                r = verify(R, ntf, poles, q0, order, H, **dict(info, **t))
                R.trace()
                if r is not None and m != 'scs':
                    vs[m] = r[1]
                    R.outcome(tuple(np.round(r[0], 4)))
            if vs:
                R.check(max(vs.values())-min(vs.values()) <=
                        1e-3*min(vs.values())+1e-6*q0[0], 'modelers differ',
                        s=s, H=H, vs=vs)
        H = 1.6
        # spellings
        for tag, a in (('array', np.array(poles[::-1])),
                       ('tuple', tuple(poles)),
                       ('row', np.array(poles).reshape(1, -1))):
            R.step()
            R.state(s, tag)
            r = F(order, form, H, a, modeler='cvxpy', **kw)
            verify(R, r, poles, q0, order, H, s=s, tag=tag)
        if not callable(form):
            r = F(order, tuple(zpk2tf(*form)), H, poles, modeler='cvxpy',
                  **kw)
            verify(R, r, poles, q0, order, H, s=s, tag='ba')
        for nrm in (None, 5.):
            r = F(order, form, H, poles, normalize=nrm, modeler='picos', **kw)
            R.step()
            R.state(s, nrm)
            verify(R, r, poles, q0, order, H, s=s, normalize=nrm)
        if not poles:
            for m in ('old', 'cvxpy', 'picos'):
                a = dict(MODELERS[m], **kw)
                r1, r2 = F(order, form, H, **a), ntf_fir_weighting(
                    order, form, H, **a)
                R.close(np.poly(r1[0]), np.poly(r2[0]), 'no poles', 1e-4,
                        1e-4, m=m)
        # too many poles
        for extra in range(order+1-len(poles), order+3-len(poles)):
            R.step()
            R.state(s, 'extra', extra)
            R.raises(ValueError, lambda: F(
                order, form, H, poles+[.1]*extra, **kw), 'too many poles',
                'Too many poles', s=s, extra=extra)
    R.check(lost <= max(1, .2*calls), 'solver failures', lost=lost,
            calls=calls)
    R.sample({'order': order, 'name': name, 'poles': [str(x) for x in poles],
              'noise': vs})


def large_cases(tier):
    for name in ('white', 'smooth', 'lp', 'zeros'):
        for order in (8, 14, 20) if tier == 'quick' else (8, 10, 14, 20, 25,
                                                          30):
            for s in ([0], [3], [0, 4], [3, 5], [1, 3, 4]):
                yield {'order': order, 'name': name, 's': s}


def large_run(R, order, name, s):
    """High orders, with many more zeros than poles."""
    from cvxpy.error import SolverError
    from pydsm.NTFdesign import ntf_hybrid_weighting as F
    w = wfun(name)
    pts = BREAKS.get(name, [])
    kw = {'quad_opts': {'points': pts}} if pts else {}
    poles = [x for i in s for x in ATOMS[i]]
    q0 = own_q0(w, np.poly(poles).real, order, pts)
    done = 0
    for m in ('cvxpy', 'picos'):
        R.step()
        R.state(m)
        try:
            ntf = F(order, WEIGHTS[name], 1.5, poles, show_progress=False,
                    **MODELERS[m], **kw)
        except SolverError:
            continue
        done += 1
        r = verify(R, ntf, poles, q0, order, 1.5, m=m)
        R.trace()
        if r is not None:
            R.outcome(tuple(np.round(r[0], 4)))
    R.check(done, 'solver failures')


def misc_cases(tier):
    yield {}


def misc_run(R):
    from pydsm.NTFdesign import ntf_hybrid_weighting as F
    w = WEIGHTS['smooth']
    for m in ('cvxpy_new', '', None, 'scs'):
        R.step()
        R.state(m)
        R.raises(ValueError, lambda: F(2, w, modeler=m), 'bad modeler',
                 'Unsupported modeling backend')
    for m in MODELERS:
        for bad in ('normalise', 'H', 'solver', 'pole'):
            R.step()
            R.state(m, bad)
            R.raises(TypeError, lambda: F(2, w, **dict(MODELERS[m],
                                                       **{bad: 1})),
                     'bad option', bad)
    q0 = own_q0(wfun('smooth'), np.ones(1), 2, [])
    # default gain limit and no poles
    verify(R, F(2, w, show_progress=False), [], q0, 2, 1.5)
    R.trace()
    R.outcome(1)
    R.sample({'q0': q0})


FAMILIES = {'grid': (cases, run), 'large': (large_cases, large_run),
            'misc': (misc_cases, misc_run)}
