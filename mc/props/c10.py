"""C10: FIR NTF design is optimal under the Lee constraint."""
import itertools

import numpy as np
from scipy.linalg import toeplitz

from ..refs import (conj_closed, dual_bound, fir_resp2, lp_min, quad, resp,
                    worst)

BOUNDS = ('every quadratic form that is the autocorrelation of a word over a '
          'small alphabet (up to the word length bound), every order, gain '
          'limit, normalization and modeler on the listed grids; on each, '
          'every competitor FIR is ruled out by a certified lower bound, and '
          'for order 1 and 2 also by an exhaustive lattice of competitors; '
          'the listed weightings in every form.')
ASSUMPTIONS = ['solver accuracy: the peak gain is taken with 1e-5 and the '
               'noise with 2e-3 relative tolerance']

MODELERS = {'old': dict(modeler='cvxpy_old'), 'cvxpy': dict(modeler='cvxpy'),
            'scs': dict(modeler='cvxpy', cvxpy_opts={'solver': 'scs'}),
            'picos': dict(modeler='picos')}


def verify(R, ntf, q0, order, lim, **info):
    """Structure, feasibility and optimality. Returns (b, noise) or None."""
    ok = R.check(isinstance(ntf, tuple) and len(ntf) == 3, 'zpk', got=ntf,
                 **info)
    if not ok:
        return None
    z, p, k = ntf
    info = dict(info, z=z, p=p, k=k)
    if not (R.check(np.ndim(z) == 1 and len(z) == order and np.ndim(p) == 1
                    and len(p) == order, 'order', **info) and
            R.check(np.all(np.asarray(p) == 0), 'poles', **info) and
            R.check(k == 1, 'monic', **info) and
            R.check(conj_closed(z, 1e-7), 'real', **info)):
        return None
    b = np.poly(z).real
    v = float(b @ toeplitz(q0) @ b)
    pk = max(g for _, g in worst(lambda f: fir_resp2(b, f), 0, .5, 1001))
    R.check(pk**.5 <= lim*(1+1e-5), 'peak gain', peak=pk**.5, **info)
    d = dual_bound(b, q0, lim*lim)
    R.check(v <= d*(1+2e-3)+1e-6*q0[0], 'not optimal', noise=v, bound=d,
            **info)
    return b, v


def words(n, alphabet):
    """Words up to reversal and sign, without null ends."""
    seen = set()
    for k in range(1, n+1):
        for h in itertools.product(alphabet, repeat=k):
            if h[0] == 0 or h[-1] == 0:
                continue
            m = tuple(-x for x in h)
            key = max(h, h[::-1], m, m[::-1])
            if key not in seen:
                seen.add(key)
                yield key


def acorr(h, P):
    h = np.array(h, float)
    q = np.zeros(P+1)
    for i in range(min(P+1, len(h))):
        q[i] = h[i:] @ h[:len(h)-i]
    return q


def q0_cases(tier):
    W = list(words(3, (-1, 0, 1, 2)))
    if tier != 'quick':
        W = list(words(5, (-1, 0, 1, 2)))
    for i in range(0, len(W), 4):
        for P in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8):
            yield {'words': [list(w) for w in W[i:i+4]], 'P': P,
                   'Hs': [1.15, 1.5, 2.5]}


def lattice(R, q0, lim, P, v, **info):
    """Every competitor on a lattice of FIRs of order 1 or 2."""
    H = lim
    if P == 1:
        b = -q0[1]/q0[0]
        b = np.clip(b, -(H-1), H-1)
        want = q0[0]*(1+b*b)+2*q0[1]*b
        R.check(abs(v-want) <= 1e-4*q0[0], 'closed form', want=want, v=v,
                **info)
        return
    x = np.linspace(-H-1, H+1, 161)
    b1, b2 = [a.ravel() for a in np.meshgrid(x, x)]
    # peak of |1+b1 e^-jw+b2 e^-2jw|^2 = polynomial of degree 2 in cos w
    c2, c1 = 4*b2, 2*b1*(1+b2)
    c0 = 1+b1**2+b2**2-2*b2
    g = np.maximum(c2+c1+c0, c2-c1+c0)
    with np.errstate(all='ignore'):
        u = -c1/(2*c2)
    u = np.where(np.isfinite(u) & (np.abs(u) <= 1), u, 1.)
    g = np.maximum(g, c2*u*u+c1*u+c0)
    ok = g <= H*H
    n = q0[0]*(1+b1**2+b2**2)+2*q0[1]*b1*(1+b2)+2*q0[2]*b2
    R.bulk_states(int(ok.sum()))
    R.check(v <= n[ok].min()*(1+1e-3)+1e-6*q0[0], 'competitor', v=v,
            other=n[ok].min(), **info)


def q0_run(R, words, P, Hs):
    from pydsm.NTFdesign.weighting import ntf_fir_from_q0 as F
    for h, H in itertools.product(words, Hs):
        q0 = acorr(h, P)
        vs = {}
        for m in MODELERS:
            info = dict(h=h, H=H, m=m)
            R.step()
            R.state(h, H, m)
            r = verify(R, F(q0, H, show_progress=False, **MODELERS[m]), q0,
                       P, H, **info)
            R.trace()
            if r is None:
                continue
            vs[m] = r[1]
            R.outcome(tuple(np.round(r[0], 4)))
            if P <= 2:
                lattice(R, q0, H, P, r[1], **info)
        if vs:
            a, b = min(vs.values()), max(vs.values())
            R.check(b-a <= 1e-3*a+1e-6*q0[0], 'modelers differ', h=h, H=H,
                    vs=vs)
        # any normalization, and far from binding gain limit
        for nrm, scale in (('auto', 1e6), ('auto', 1e-6), (None, 1.),
                           (3., 1.), (100., .01)):
            R.step()
            R.state(h, H, nrm, scale)
            r = F(q0*scale, H, nrm, show_progress=False)
            verify(R, r, q0, P, H, h=h, H=H, normalize=nrm, scale=scale)
        r = verify(R, F(q0, 2.**P, show_progress=False), q0, P, 2.**P, h=h,
                   H='loose')
        R.check(r is None or abs(r[1]-lp_min(q0)) <= 1e-4*q0[0] or P > 4,
                'linear prediction', h=h)
    R.sample({'P': P, 'h': h, 'H': H, 'noise': vs})


def zb(f, r):
    return r*np.exp(2j*np.pi*f)


# name -> (weighting as zpk, or function)
WEIGHTS = {
    'white': lambda f: np.ones_like(f),
    'step': lambda f: (np.abs(f) < .1)*1.,
    'band': lambda f: (np.abs(f-.2) < .05)*1.,
    'two bands': lambda f: ((np.abs(f-.1) < .03) | (np.abs(f-.35) < .03))*1.,
    'floor': lambda f: np.maximum((f < .06)*1., 1e-3),
    'smooth': lambda f: (1+np.cos(2*np.pi*f))**2,
    'high': lambda f: np.sin(np.pi*f)**4,
    'lp': (np.array([-1., -1]), np.array([zb(.06, .8), zb(-.06, .8)]), .05),
    'bp': (np.array([1., -1]), np.array([zb(.25, .9), zb(-.25, .9)]), 3.),
    'hp': (np.array([1.]), np.array([-.7]), 1.),
    'zeros': (np.array([zb(.3, 1), zb(-.3, 1), .5]), np.zeros(3), 2.),
}
BREAKS = {'step': [.1], 'band': [.15, .25], 'two bands': [.07, .13, .32, .38],
          'floor': [.06]}


def wfun(name):
    w = WEIGHTS[name]
    if callable(w):
        return w
    return lambda f: np.abs(resp(w, f))**2


def own_q0(w, P, breaks=()):
    """q0 by piecewise Gauss quadrature: 2 int_0^.5 w cos(2 pi k f)."""
    e = [0.]+list(breaks)+[.5]
    return np.array([2*sum(quad(lambda f: w(f)*np.cos(2*np.pi*k*f), a, b)
                           for a, b in zip(e[:-1], e[1:]))
                     for k in range(P+1)])


def w_cases(tier):
    for name in WEIGHTS:
        for P in (1, 2, 3, 5, 8) if tier == 'quick' else (
                1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 32):
            yield {'name': name, 'P': P, 'Hs': [1.1, 1.5, 3.] if tier == 'quick' else
                   [1.05, 1.1, 1.25, 1.5, 2., 3., 4., 8.]}


def w_run(R, name, P, Hs):
    from scipy.signal import zpk2tf
    from pydsm.NTFdesign import ntf_fir_weighting as F
    w = wfun(name)
    pts = BREAKS.get(name, [])
    q0 = own_q0(w, P, pts)
    forms = {'function': w, 'scalar': lambda f: float(w(np.array([f]))[0])}
    if not callable(WEIGHTS[name]):
        forms['zpk'] = WEIGHTS[name]
        forms['ba'] = tuple(zpk2tf(*WEIGHTS[name]))
    kw = {'quad_opts': {'points': pts}} if pts else {}
    for H in Hs:
        vs = {}
        for (fn, form), m in itertools.product(forms.items(), MODELERS):
            if P > 8 and (m in ('old', 'scs')) and fn != 'zpk' and H != 1.5:
                continue
            if m == 'scs' and P > 12:
                continue
            if fn == 'scalar' and m != 'cvxpy':
                continue
            R.step()
            R.state(H, fn, m)
            a = dict(MODELERS[m], show_progress=False, **kw)
            r = verify(R, F(P, form, H, **a), q0, P, H, form=fn, H=H, m=m)
            R.trace()
            if r is not None:
                vs[fn+'/'+m] = r[1]
                R.outcome(tuple(np.round(r[0], 4)))
        a, b = min(vs.values()), max(vs.values())
        R.check(b-a <= 1e-3*a+1e-6*q0[0], 'forms differ', H=H, vs=vs)
    # defaults: H_inf 1.5, auto normalization
    r = F(P, forms.get('zpk', w), show_progress=False, **kw)
    verify(R, r, q0, P, 1.5, H='default')
    R.sample({'name': name, 'P': P, 'noise': vs})


def large_cases(tier):
    for name in WEIGHTS:
        for P in (12, 20, 32) if tier == 'quick' else (10, 12, 16, 20, 25, 32):
            yield {'name': name, 'P': P}


def large_run(R, name, P):
    """High orders, up to the usual ones."""
    from pydsm.NTFdesign import ntf_fir_weighting as F
    form = WEIGHTS[name]
    pts = BREAKS.get(name, [])
    q0 = own_q0(wfun(name), P, pts)
    kw = {'quad_opts': {'points': pts}} if pts else {}
    vs = {}
    for m in ('cvxpy', 'picos'):
        R.step()
        R.state(m)
        r = verify(R, F(P, form, 1.5, show_progress=False, **MODELERS[m],
                        **kw), q0, P, 1.5, m=m)
        R.trace()
        if r is not None:
            vs[m] = r[1]
            R.outcome(tuple(np.round(r[0], 4)))
    R.sample({'name': name, 'P': P, 'noise': vs})


def misc_cases(tier):
    yield {}


def misc_run(R):
    from pydsm.NTFdesign import ntf_fir_weighting as W
    from pydsm.NTFdesign.weighting import ntf_fir_from_q0 as Q, q0_weighting
    q0 = acorr((1, 2, 1), 3)
    fns = {'q0': lambda **k: Q(q0, **dict({'show_progress': False}, **k)),
           'w': lambda **k: W(3, WEIGHTS['smooth'],
                              **dict({'show_progress': False}, **k))}
    for n, f in fns.items():
        for m in ('cvxpy_new', 'CVXPY', '', None, 'scs'):
            R.step()
            R.state(n, m)
            R.raises(ValueError, lambda: f(modeler=m), 'bad modeler',
                     'Unsupported modeling backend', modeler=m)
        for m in MODELERS:
            for bad in ('normalise', 'quadopts', 'solver', 'H_Inf', 'tol'):
                R.step()
                R.state(n, m, bad)
                R.raises(TypeError, lambda: f(**dict(MODELERS[m],
                                                     **{bad: 1})),
                         'bad option', bad, option=bad, m=m)
    R.raises(TypeError, lambda: Q(q0, quad_opts={}, show_progress=False),
             'q0 has no quad_opts')
    R.raises(TypeError, lambda: q0_weighting(3, WEIGHTS['smooth'], foo=1),
             'q0_weighting option')
    # singular and slightly indefinite forms are fixed
    for P in (2, 3, 4, 6):
        for th in (.1, .25, .4):
            for noise in (0., 1e-9, -1e-9):
                q = np.cos(2*np.pi*th*np.arange(P+1))
                q[0] += noise
                for m in MODELERS:
                    if m == 'scs':
                        continue
                    r = Q(q, 1.5, show_progress=False, **MODELERS[m])
                    R.step()
                    R.state(P, th, noise, m)
                    q2 = np.cos(2*np.pi*th*np.arange(P+1))
                    z, p, k = r
                    b = np.poly(z).real
                    v = b @ toeplitz(q2) @ b
                    d = dual_bound(b, q2, 2.25)
                    R.check(len(z) == P and v <= d*(1+2e-3)+1e-4,
                            'line spectrum', v=v, bound=d, P=P, th=th, m=m)
                    R.check(max(g for _, g in worst(
                        lambda f: fir_resp2(b, f), 0, .5, 1001)) <=
                        2.25*(1+2e-5), 'line peak', m=m)
    for m in MODELERS:
        r = Q(q0, 1.5, show_progress=False, fix_pos=False, **MODELERS[m])
        verify(R, r, q0, 3, 1.5, m=m, fix_pos=False)
    R.trace()
    R.outcome(1)
    R.sample({'q0': q0, 'ntf': r})


FAMILIES = {'q0': (q0_cases, q0_run), 'weighting': (w_cases, w_run),
            'large': (large_cases, large_run),
            'misc': (misc_cases, misc_run)}
