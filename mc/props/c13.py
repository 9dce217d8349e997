"""C13: noise gain, quadratic forms and weightings are consistent."""
import itertools

import numpy as np
from scipy.linalg import toeplitz

from ..refs import quad, resp
from .c19 import spaced

BOUNDS = ('every NTF of the list times every weighting in every form, '
          'integration interval and average switch; every FIR word over a '
          'small alphabet up to the length bound for each weighting; every '
          'product of up to three weightings in every mix of forms.')
ASSUMPTIONS = ['filters of moderate selectivity (poles of modulus up to '
               '0.95)']


def zb(f, r):
    return r*np.exp(2j*np.pi*f)


def c2(f, r):
    return [zb(f, r), zb(-f, r)]


NTFS = {
    'unit': ([], [], 1.),
    'first': ([1.], [0.], 1.),
    'second': ([1., 1.], [0., 0.], 1.),
    'iir1': ([1.], [.5], 1.),
    'iir2': (c2(.01, 1.), c2(.06, .7), 1.),
    'bp': (c2(.25, 1.), c2(.25, .6), 1.),
    'iir3': ([1.]+c2(.02, 1.), [.6]+c2(.08, .8), 1.),
    'fir4': (c2(.05, 1.)+c2(.2, .7), [0.]*4, 1.),
    'gain': ([.3], [-.5], 2.5),
    'fir16': (list(spaced(16, .9, .3)), [0.]*16, 1.),
    'fir33': (list(spaced(33, .8, .3)), [0.]*33, 1.),
    'iir9': (list(spaced(9, 1., .5)), list(spaced(9, .6, .2)), 1.),
}
FILTERS = {
    'allpass': ([], [], 1.),
    'scaled': ([], [], .5),
    'lp': ([-1.], [.8], .1),
    'lp2': ([-1., -1.], c2(.05, .85), .02),
    'bp': ([1., -1.], c2(.2, .95), .05),
    'fir': (c2(.3, 1.)+[.5], [0.]*3, 2.),
    'hp': ([1.], [-.6], .2),
}
FUNCS = {
    'one': (lambda f: 1., []),
    'ramp': (lambda f: f, []),
    'cos': (lambda f: 1+np.cos(2*np.pi*f), []),
    'exp': (lambda f: np.exp(-10*f), []),
    'step': (lambda f: np.where(f < .1, 1., 0.)*1., [.1]),
    'two': (lambda f: np.where((f < .05) | ((f > .2) & (f < .3)), 2., .5),
            [.05, .2, .3]),
}
INTERVALS = ((0, .5), (0., .1), (.05, .25), (.2, .5), (.25, .2501), (0, .01),
             (.4, .5))


def ba(h):
    """Polynomials of a zpk, of equal length."""
    z, p, k = h
    return (k*np.atleast_1d(np.poly(z)).real, np.atleast_1d(np.poly(p)).real)


def integral(h, w, a, b, breaks=()):
    e = np.unique([a, b]+[x for x in breaks if a < x < b])
    return sum(quad(lambda f: np.abs(resp(h, f))**2*w(f), l, r, 24)
               for l, r in zip(e[:-1], e[1:]))


def weightings():
    for n, (w, pts) in FUNCS.items():
        yield n, w, pts, {'function': w}
    for n, h in FILTERS.items():
        yield (n, lambda f, h=h: np.abs(resp(h, f))**2, [],
               {'zpk': tuple(h), 'ba': ba(h),
                'array zpk': (np.array(h[0]), np.array(h[1]), h[2]),
                'list ba': tuple(list(x) for x in ba(h))})


def gain_cases(tier):
    for n in NTFS:
        yield {'name': n, 'deep': tier != 'quick'}


def gain_run(R, name, deep):
    from pydsm.NTFdesign import quantization_noise_gain as G
    h = NTFS[name]
    spell = {'zpk': tuple(h), 'ba': ba(h),
             'array': (np.array(h[0]), np.array(h[1]), h[2])}
    iv = INTERVALS
    if deep:
        g = np.linspace(0, .5, 9)
        iv = iv+tuple((a, b) for a in g for b in g if b > a)
    for wn, w, pts, forms in itertools.chain(
            [('none', lambda f: 1.+0*f, [], {'none': None})], weightings()):
        for (a, b), avg in itertools.product(iv, (False, True)):
            want = integral(h, w, a, b, pts)
            want = want/(b-a) if avg else 2*want
            for fn, form in forms.items():
                for hs, hh in spell.items():
                    if hs != 'zpk' and fn in ('array zpk', 'list ba'):
                        continue
                    kw = {}
                    inner = [p for p in pts if a < p < b]
                    if inner:
                        kw['quad_opts'] = {'points': inner}
                    got = G(hh, form, (a, b), avg, **kw)
                    R.step()
                    R.state(wn, a, b, avg, fn, hs)
                    R.check(np.ndim(got) == 0 and
                            abs(got-want) <= 1e-7*abs(want)+1e-12,
                            'noise gain', w=wn, form=fn, ntf=hs,
                            bounds=(a, b), avg=avg, got=got, want=want)
                R.outcome(wn, a, b, avg)
        R.trace()
    # defaults and keywords
    want = 2*integral(h, lambda f: 1.+0*f, 0, .5)
    tot = G(spell['zpk'])
    R.close(tot, want, 'default', 1e-7, 1e-12)
    R.close(G(NTF=spell['zpk'], w=None, bounds=(0, .5), avg=False), want,
            'keywords', 1e-7, 1e-12)
    R.close(G(spell['zpk'], avg=True), want, 'default avg', 1e-7, 1e-12)
    # additivity over adjacent intervals
    for m in (.1, .25, .33):
        R.close(G(spell['zpk'], bounds=(0, m))+G(spell['zpk'],
                                                 bounds=(m, .5)),
                tot, 'additive', 1e-7, 1e-12, m=m)
        R.step()
    R.sample({'ntf': name, 'gain': tot})


def words(n, alphabet=(-1, 0, 1, 2)):
    for k in range(n+1):
        for w in itertools.product(alphabet, repeat=k):
            yield (1,)+w


def q0_cases(tier):
    for wn, w, pts, forms in weightings():
        for P in (0, 1, 2, 3, 5, 8, 20, 33) if tier == 'quick' else (
                0, 1, 2, 3, 4, 5, 6, 8, 10, 16, 20, 33):
            yield {'name': wn, 'P': P, 'nb': 3 if tier == 'quick' else 5}


def q0_run(R, name, P, nb):
    from pydsm.NTFdesign import quantization_noise_gain as G
    from pydsm.NTFdesign.weighting import q0_weighting as Q
    for wn, w, pts, forms in weightings():
        if wn != name:
            continue
        e = [0.]+pts+[.5]
        want = np.array([2*sum(quad(lambda f: w(f)*np.cos(2*np.pi*k*f), a, b,
                                    24) for a, b in zip(e[:-1], e[1:]))
                         for k in range(P+1)])
        kw = {'quad_opts': {'points': pts}} if pts else {}
        for fn, form in forms.items():
            q = Q(P, form, **kw)
            R.step()
            R.state(fn)
            R.close(q, want, 'q0', 1e-7, 1e-9, form=fn)
        if P > nb:
            continue
        M = toeplitz(q)
        for b in words(min(P, nb)):
            b = np.array(b+(0,)*(P+1-len(b)), float)
            g = G((np.roots(b), np.zeros(P), 1.), form, **kw)
            R.step()
            R.state(tuple(b))
            R.check(abs(b @ M @ b-g) <= 1e-6*abs(g)+1e-8, 'quadratic form',
                    b=b, form=b @ M @ b, gain=g)
            R.trace()
            R.outcome(round(float(g), 6))
    R.sample({'name': name, 'P': P, 'q0': q})


def mult_cases(tier):
    names = list(FUNCS)[:4]+list(FILTERS)[1:6]
    for n in names:
        yield {'first': n, 'third': tier != 'quick'}


def at(w, f):
    return float(np.ravel(w(f))[0])


def mult_run(R, first, third):
    from pydsm.NTFdesign.weighting import mult_weightings as M
    table = {}
    for wn, w, pts, forms in weightings():
        for fn in ('function', 'zpk', 'ba'):
            if fn in forms:
                table[wn, fn] = (w, forms[fn])
    ff = np.array([0, .01, .0999, .1, .2, .25, .333, .5])
    mine = [k for k in table if k[0] == first]
    others = list(table)
    combos = [(a,) for a in mine]
    combos += [(a, b) for a in mine for b in others]
    combos += [(b, a) for a in mine for b in others]
    combos += [(a, b, c) for a in mine for b in others for c in
               (others if third else others[:12])]
    for c in combos:
        m = M(*[table[k][1] for k in c])
        want = np.prod([[at(table[k][0], f) for f in ff] for k in c],
                       axis=0)
        R.step()
        R.state(c)
        R.check(callable(m), 'callable', got=m)
        got = np.array([m(f) for f in ff])
        R.close(got, want, 'product', 1e-9, 1e-12, names=c)
        R.outcome(tuple(np.round(want, 6)))
    R.trace(len(combos))
    # arrays of frequencies, for weightings accepting them
    for k in (k for k in mine if k[1] != 'function'):
        for j in others:
            if j[1] == 'function' and j[0] == 'one':
                continue
            R.step()
            R.close(M(table[k][1], table[j][1])(ff),
                    [at(table[k][0], f)*at(table[j][0], f) for f in ff],
                    'array product', 1e-9, 1e-12, names=(k, j))
    R.sample({'combos': len(combos), 'first': first})


def legacy_cases(tier):
    for n in NTFS:
        yield {'name': n}


def legacy_run(R, name):
    """Impulse response based and H_type based variants."""
    from scipy.signal import lfilter
    from pydsm.NTFdesign import filter_based as FB, legacy as L
    from pydsm.NTFdesign.weighting import quantization_weighted_noise_gain
    h = NTFS[name]
    H3, H2 = tuple(h), ba(h)
    for wn, f in FILTERS.items():
        w = lambda x: np.abs(resp(f, x))**2
        want = 2*integral(h, w, 0, .5)
        B, A = ba(f)
        n = max(len(A), len(B))
        x = np.zeros(1200)
        x[0] = 1
        imp = lfilter(np.r_[np.zeros(len(A)-len(B)), B] if len(A) > len(B)
                      else B, A, x)
        # precise enough to see the effect of db
        exact = np.sum(np.convolve(imp, lfilter(H2[0], H2[1], x))**2)
        R.close(exact, want, 'harness', 1e-6, 1e-9)
        forms = {'zpk': tuple(f), 'ba': (B, A), 'imp': imp,
                 'mag': lambda x: np.abs(resp(f, x))[0]}
        for (t, F), hh in itertools.product(forms.items(), (H3, H2)):
            info = dict(w=wn, t=t, ntf=len(hh))
            R.step()
            R.state(wn, t, len(hh))
            if len(B) > 1 or len(A) == 1 or t in ('zpk', 'mag', 'imp', 'ba'):
                args = (hh, F, t)
                if t == 'imp':
                    args = (hh, F[:300], t)
                R.close(FB.quantization_noise_gain(*args), want, 'H_type',
                        1e-5, 1e-9, **info)
            if t != 'mag':
                for fun, tag in ((L.quantization_noise_gain_by_conv, 'conv'),
                                 (FB.quantization_noise_gain_by_conv,
                                  'conv alias')):
                    R.close(fun(hh, F, t), want, tag, 2e-3, 1e-9, **info)
                    R.close(fun(hh, F, H_type=t, db=140), want,
                            tag+' accurate', 1e-5, 1e-9, **info)
                    R.close(fun(hh, F, t, 280), exact, tag+' by db', 1e-10,
                            1e-12, **info)
            R.outcome(wn, t)
        R.trace()
        R.close(quantization_weighted_noise_gain(H3, tuple(f), (.1, .3)),
                2*integral(h, w, .1, .3), 'weighted alias', 1e-7, 1e-12)
        for P in (1, 4):
            q = np.array([2*quad(lambda x: w(x)*np.cos(2*np.pi*k*x), 0, .5,
                                 24) for k in range(P+1)])
            for t, F in forms.items():
                R.step()
                R.state(wn, t, 'q0', P)
                R.close(FB.q0_from_filter(P, F, t), q, 'q0_from_filter',
                        1e-6, 1e-8, w=wn, t=t, P=P)
            R.close(L.q0_from_filter_ir(P, imp), q, 'q0_from_filter_ir',
                    1e-6, 1e-8, w=wn, P=P)
            R.close(FB.q0_from_filter(P, forms['zpk']), q, 'default H_type',
                    1e-6, 1e-8)
    for t in ('tf', 'ZPK', '', None, 'ir'):
        R.step()
        R.state('bad', t)
        for fn, args in ((FB.quantization_noise_gain, (H3, H3, t)),
                         (FB.q0_from_filter, (2, H3, t)),
                         (L.quantization_noise_gain_by_conv, (H3, H3, t)),
                         (FB.synthesize_ntf_from_filter, (2, H3, t))):
            R.raises(ValueError, lambda: fn(*args), 'bad H_type',
                     'Incorrect filter type', t=t)
    R.sample({'name': name})


FAMILIES = {'gain': (gain_cases, gain_run), 'q0': (q0_cases, q0_run),
            'mult': (mult_cases, mult_run),
            'legacy': (legacy_cases, legacy_run)}
