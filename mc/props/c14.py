"""C14: psychoacoustic NTF designs follow their specification."""
import itertools
import warnings

import numpy as np

from .. import audioref
from ..refs import gain, match, quad, zpk_ok
from .c06 import poles_family
from .c09 import DUNN
from .c10 import MODELERS, verify

BOUNDS = ('every order 1..8, oversampling ratio and gain limit on the grids '
          'for Dunn\'s NTFs; every audio weighting (by name, by function, '
          'user function), order, oversampling ratio, gain limit, attenuation '
          'limit, audio band and modeler on the listed grids for the FIR '
          'designs, each against a certified bound over all the competitors.')
ASSUMPTIONS = ['same solver tolerances as C10; same gain tolerance as C06']


def dunn_cases(tier):
    for order in range(1, 9):
        yield {'order': order,
               'osrs': [4, 16, 50, 64, 300] if tier == 'quick' else
               [2, 3, 4, 8, 12.5, 16, 32, 50, 64, 100, 128, 256, 300, 512],
               'Hs': [1.2, 1.5, 1.9, 3., 6.] if tier == 'quick' else
               [1.2, 1.3, 1.5, 1.75, 1.9, 2.2, 3., 4., 6., 11., 40., 200.]}


def dunn_run(R, order, osrs, Hs):
    from pydsm.NTFdesign import ntf_dunn
    from pydsm.NTFdesign.psychoacoustic import (dunn_optzeros,
                                                dunn_optzeros_cplx)
    want = [x/22.05*s for x in DUNN[order] for s in ((1, -1) if x else (1,))]
    for osr in osrs:
        zc = np.exp(1j*np.pi/osr*np.array(want))
        got = dunn_optzeros_cplx(order, osr)
        R.check(match(got, zc, 1e-12), 'complex zeros', osr=osr, got=got)
        R.check(match(dunn_optzeros(order), want, 1e-12), 'normalized zeros')
        lim = gain(zc, np.zeros(order), -1)
        for H in Hs:
            info = dict(osr=osr, H=H)
            R.step()
            R.trace()
            R.state(osr, H)
            ntf = ntf_dunn(order, osr, H)
            if not zpk_ok(R, ntf, order, 'ntf', **info):
                return
            z, p, k = ntf
            R.outcome(tuple(np.round(p, 9)))
            R.check(match(z, zc, 1e-9), 'zeros', z=z, want=zc, **info)
            g = gain(z, p, -1)
            if H < lim*(1-3e-3):
                R.check(abs(g/H-1) < 3e-3, 'H_inf', g=g, **info)
            elif H > lim*(1+3e-3):
                R.check(np.all(p == 0), 'unattainable', p=p, **info)
            poles_family(R, p, order, 0, 'poles', **info)
            kw = ntf_dunn(H_inf=H, osr=osr, order=order)
            R.check(match(kw[1], p, 1e-12) and match(kw[0], z, 1e-12),
                    'keywords', **info)
            if order == 3 and H == 1.5:
                b = ntf_dunn(osr=osr)
                R.check(match(b[1], p, 1e-12), 'default order and H_inf',
                        **info)
            if osr == 64:
                b = ntf_dunn(order, H_inf=H)
                R.check(match(b[1], p, 1e-12), 'default osr', **info)
    R.sample({'order': order, 'osr': osr, 'H': H, 'z': z, 'p': p})


def beyond_run(R):
    from pydsm.NTFdesign import ntf_dunn
    for n in range(9, 20):
        R.state(n)
        R.raises(ValueError, lambda: ntf_dunn(n, 64, 1.5), 'order', n=n)


def user(f):
    """A user weighting with a corner, larger than one at places."""
    return (1-np.minimum(np.abs(f-4000.)/9000., 1.))*3


def weight(name, f):
    return user(f) if name == 'user' else audioref.power(name, f)


def fir_cases(tier):
    q = tier == 'quick'
    for name in ('a', 'b', 'c', 'd', 'f', 'user'):
        for osr in ((1.25, 4, 16, 64) if q else (1.1, 1.25, 2, 4, 8, 16, 32,
                                                  64, 128)):
            yield {'name': name, 'osr': osr,
                   'orders': [2, 5, 12] if q else
                   [1, 2, 3, 4, 5, 6, 8, 12, 16, 24],
                   'Hs': [1.25, 1.5] if q else [1.1, 1.3, 1.5, 2., 3.],
                   'attns': [120, 30] if q else [120, 80, 50, 30, 10],
                   'bands': [22.05e3, 8e3] if q else [22.05e3, 20e3, 8e3,
                                                      3e3, 48e3]}


def own_q0(name, osr, attn, band, P):
    """q0 by Gauss quadrature, split where the weighting changes."""
    ma = 10**(-attn/10)
    e = .5/osr

    def w(f):
        return np.maximum(weight(name, f*band*2*osr), ma)

    # pieces between the corners of the weighting
    g = np.linspace(0, e, 20001)
    s = weight(name, g*band*2*osr) > ma
    cuts = [0.]
    for i in np.flatnonzero(s[1:] != s[:-1]):
        lo, hi = g[i], g[i+1]
        for _ in range(50):
            m = (lo+hi)/2
            if (weight(name, m*band*2*osr) > ma) == s[i]:
                lo = m
            else:
                hi = m
        cuts.append(lo)
    if name == 'user':
        cuts += [x/(band*2*osr) for x in (4000., 13000.)
                 if x/(band*2*osr) < e]
    cuts = sorted(cuts)+[e]
    q0 = []
    for k in range(P+1):
        c = 0.
        for a, b in zip(cuts[:-1], cuts[1:]):
            c += quad(lambda f: w(f)*np.cos(2*np.pi*k*f), a, b, 12)
        c += quad(lambda f: ma*np.cos(2*np.pi*k*f), e, .5, 16)
        q0.append(2*c)
    return np.array(q0), cuts[1:]


def fir_run(R, name, osr, orders, Hs, attns, bands):
    from pydsm import audio_weightings
    from pydsm.NTFdesign import ntf_fir_audio_weighting as F
    fun = user if name == 'user' else getattr(audio_weightings,
                                              name+'_weighting')
    forms = [fun] if name == 'user' else [name, fun]
    for P, attn, bw in itertools.product(orders, attns, bands):
        q0, cuts = own_q0(name, osr, attn, bw, P)
        kw = dict(show_progress=False,
                  quad_opts=dict(points=list(cuts), limit=200))
        for H in Hs:
            base = None
            for m in MODELERS:
                if m != 'old' and (P, attn, bw) != (orders[1], attns[-1],
                                                    bands[0]):
                    continue
                for form in forms if m == 'old' else forms[:1]:
                    info = dict(P=P, attn=attn, bw=bw, H=H, m=m,
                                form=str(form)[:20])
                    R.step()
                    R.trace()
                    R.state(P, attn, bw, H, m, form == name)
                    r = F(P, osr, form, bw, attn, H, **dict(kw, **MODELERS[m]))
                    r = verify(R, r, q0, P, H, **info)
                    if r is None:
                        return
                    if base is None:
                        base = r[1]
                        R.outcome(tuple(np.round(r[0], 4)))
                    R.check(abs(r[1]-base) <= 1e-3*base+1e-6*q0[0],
                            'forms differ', v=r[1], base=base, **info)
            if (attn, bw) == (120, 22.05e3):
                b = F(order=P, osr=osr, audio_weighting=fun, H_inf=H, **kw)
                verify(R, b, q0, P, H, default='band and attenuation', P=P,
                       H=H)
                if name == 'f':
                    b = F(P, osr, H_inf=H, **kw)
                    verify(R, b, q0, P, H, default='weighting', P=P, H=H)
                if H == 1.5 and name == 'f':
                    verify(R, F(P, osr, **kw), q0, P, H, default='H_inf',
                           P=P)
    for nrm in (None, 7., 1e-3):
        verify(R, F(P, osr, fun, bw, attn, H, normalize=nrm, **kw), q0, P, H,
               normalize=nrm, P=P, attn=attn, bw=bw, H=H)
    # no quadrature option
    R.step()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = F(P, osr, fun, bw, attn, H, show_progress=False)
    verify(R, r, q0, P, H, default='quadrature', P=P, attn=attn, bw=bw, H=H)
    R.sample({'name': name, 'osr': osr, 'P': P, 'z': r[0]})


FAMILIES = {
    'dunn': (dunn_cases, dunn_run),
    'beyond': (lambda tier: [{}], beyond_run),
    'fir': (fir_cases, fir_run),
}
