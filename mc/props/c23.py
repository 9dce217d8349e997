"""C23: ISO 226 equal loudness contours match the tables and invert."""
import itertools
import math

import numpy as np

BOUNDS = ('every tabled frequency with every loudness level 0..90 phon (and '
          'sound pressure level) at a quarter phon step, with and without '
          'high frequency extension; every interpolation order 1..5; every '
          'sequence of up to three caller side changes of returned tables '
          'and reads of any table.')
ASSUMPTIONS = ['tables and formulas as in ISO 226:2003; 0.1 phon on the '
               'inversion, which in the standard is only approximate']

F = [20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500,
     630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000,
     10000, 12500]
ALPHA = [.532, .506, .480, .455, .432, .409, .387, .367, .349, .330, .315,
         .301, .288, .276, .267, .259, .253, .250, .246, .244, .243, .243,
         .243, .242, .242, .245, .254, .271, .301]
LU = [-31.6, -27.2, -23.0, -19.1, -15.9, -13.0, -10.3, -8.1, -6.2, -4.5,
      -3.1, -2.0, -1.1, -.4, 0., .3, .5, 0., -2.7, -4.1, -1.0, 1.7, 2.5,
      1.2, -2.1, -7.1, -11.2, -10.7, -3.1]
TF = [78.5, 68.7, 59.5, 51.1, 44.0, 37.5, 31.5, 26.5, 22.1, 17.9, 14.4,
      11.4, 8.6, 6.2, 4.4, 3.0, 2.2, 2.4, 3.5, 1.7, -1.3, -4.2, -6.0, -5.4,
      -1.5, 6.0, 12.6, 13.9, 12.3]
# Published contour at 40 phon
P40 = [99.85, 93.94, 88.17, 82.63, 77.78, 73.08, 68.48, 64.37, 60.59, 56.70,
       53.41, 50.40, 47.58, 44.98, 43.05, 41.34, 40.06, 40.01, 41.82, 42.51,
       39.23, 36.51, 35.61, 36.65, 40.01, 45.83, 51.80, 54.28, 51.49]


def l_p(n):
    out = []
    for a, u, t in zip(ALPHA, LU, TF):
        A = (4.47e-3*(10**(.025*n)-1.15) +
             (.4*10**((t+u)/10-9))**a)
        out.append(10/a*math.log10(A)-u+94)
    return out


def l_n(p):
    out = []
    for a, u, t, q in zip(ALPHA, LU, TF, p):
        B = ((.4*10**((q+u)/10-9))**a-(.4*10**((t+u)/10-9))**a+.005135)
        out.append(40*math.log10(B)+94)
    return out


def ext(v):
    return list(v)+[v[0]]


TABLES = {'tabled_f': F, 'tabled_alpha_f': ALPHA, 'tabled_L_U': LU,
          'tabled_T_f': TF}


def table_run(R):
    from pydsm import iso226
    for name, want in TABLES.items():
        f = getattr(iso226, name)
        e = list(want)+[20e3] if name == 'tabled_f' else ext(want)
        for got, w in ((f(), want), (f(False), want), (f(hfe=False), want),
                       (f(True), e), (f(hfe=True), e)):
            R.state(name, len(w))
            R.step()
            R.close(got, w, name, rtol=1e-12, atol=0)
        R.trace()
    R.check(np.all(np.abs(iso226.tabled_L_p(40)-P40) < .011), 'published',
            got=iso226.tabled_L_p(40), want=P40)
    R.check(np.all(np.abs(iso226.tabled_L_N(np.array(P40))-40) < .1),
            'published inverse')


def level_cases(tier):
    return [{'start': s} for s in range(0, 90, 5)]


def level_run(R, start):
    from pydsm import iso226
    prev = None
    for i in range(0, 21):
        n = start+i/4
        want = l_p(n)
        R.state(n)
        R.step()
        got = iso226.tabled_L_p(n)
        R.close(got, want, 'L_p', rtol=1e-9, n=n)
        R.close(iso226.tabled_L_p(n, True), ext(want), 'L_p extended',
                rtol=1e-9, n=n)
        R.close(iso226.tabled_L_p(L_N=n, hfe=False), want, 'L_p', rtol=1e-9)
        if prev is not None:
            R.check(np.all(got > prev), 'monotone', n=n)
        prev = got
        # inverse, array or scalar pressure
        back = iso226.tabled_L_N(got)
        R.close(back, l_n(want), 'L_N', rtol=1e-9, n=n)
        if n >= 5:
            R.check(np.max(np.abs(back-n)) < .1, 'inverse', n=n, back=back)
        R.close(iso226.tabled_L_N(got, True), ext(l_n(want)),
                'L_N extended', rtol=1e-9, n=n)
        for q in (n, n+30):
            if min(qq-t for qq, t in zip([q]*29, TF)) > 0:
                R.close(iso226.tabled_L_N(q), l_n([q]*29), 'L_N scalar',
                        rtol=1e-9, q=q)
        # intermediate tables
        A = [4.47e-3*(10**(.025*n)-1.15)+(.4*10**((t+u)/10-9))**a
             for a, u, t in zip(ALPHA, LU, TF)]
        B = [(.4*10**((q+u)/10-9))**a-(.4*10**((t+u)/10-9))**a+.005135
             for a, u, t, q in zip(ALPHA, LU, TF, want)]
        for fn, x, w, tag in ((iso226.tabled_A_f, n, A, 'A_f'),
                              (iso226.tabled_B_f, np.array(want), B, 'B_f')):
            R.close(fn(x), w, tag, rtol=1e-9, atol=1e-14, n=n)
            R.close(fn(x, False), w, tag, rtol=1e-9, atol=1e-14, n=n)
            R.close(fn(x, True), ext(w), tag+' extended', rtol=1e-9,
                    atol=1e-14, n=n)
        # contours
        for h in (False, True):
            f, s = iso226.iso226_spl_contour(n, h)
            R.close(f, F+[20e3] if h else F, 'contour frequencies', n=n)
            R.close(s, ext(want) if h else want, 'contour', rtol=1e-9, n=n)
            f, s = iso226.iso226_spl_contour(L_N=n, hfe=h)
            R.close(s, ext(want) if h else want, 'contour', rtol=1e-9, n=n)
        R.close(iso226.iso226_spl_contour(n)[1], want, 'contour default',
                rtol=1e-9)
        R.outcome(tuple(np.round(want[:3], 3)))
        R.trace()
    R.sample({'n': n, 'L_p': got[:4]})


def itpl_run(R, k, hfe):
    from scipy.interpolate import make_interp_spline
    from pydsm import iso226
    f = np.array(F+[20e3] if hfe else F, float)
    for n in (0, 10, 20, 37.5, 40, 60, 80, 90):
        want = np.array(ext(l_p(n)) if hfe else l_p(n))
        R.state(n)
        R.step()
        for it in (iso226.iso226_spl_itpl(n, hfe, k),
                   iso226.iso226_spl_itpl(L_N=n, hfe=hfe, k=k)):
            R.close(it(f), want, 'through the points', rtol=1e-7, n=n)
            for i, x in enumerate(f):
                R.check(abs(float(it(x))-want[i]) < 1e-6, 'scalar', x=x)
            x = np.concatenate([np.linspace(a, b, 6) for a, b in
                                zip(f[:-1], f[1:])])
            if k == 1:
                R.close(it(x), np.interp(x, f, want), 'linear', rtol=1e-9,
                        n=n)
            elif k % 2:
                R.close(it(x), make_interp_spline(f, want, k)(x), 'spline',
                        rtol=1e-5, n=n)
        if k == 3:
            R.close(iso226.iso226_spl_itpl(n, hfe)(x), it(x),
                    'default order', rtol=1e-12, n=n)
        if n == 40:
            R.close(iso226.iso226_spl_itpl(hfe=hfe, k=k)(x), it(x),
                    'default level', rtol=1e-12)
        R.trace()
    R.close(iso226.iso226_spl_contour(hfe=hfe)[1],
            ext(l_p(40)) if hfe else l_p(40), 'default contour', rtol=1e-9)


def range_run(R):
    from pydsm import iso226
    for n in (-1e-9, -1, -40, 90.0001, 91, 200, -np.inf, np.inf):
        for h in (False, True):
            R.state(n, h)
            R.step()
            R.raises(ValueError, lambda: iso226.iso226_spl_contour(n, h),
                     'contour range', n=n)
            R.raises(ValueError, lambda: iso226.iso226_spl_itpl(n, h),
                     'interpolant range', n=n)
    for n in (0, 90, 0., 90.):
        R.close(iso226.iso226_spl_contour(n)[1], l_p(n), 'limit', n=n)


def reads():
    from pydsm import iso226
    out = {}
    for name in TABLES:
        for h in (False, True):
            out[name, h] = (lambda f=getattr(iso226, name), h=h: f(h))
    out['L_p'] = lambda: iso226.tabled_L_p(30)
    out['L_N'] = lambda: iso226.tabled_L_N(85.)
    out['contour f'] = lambda: iso226.iso226_spl_contour(30)[0]
    out['contour spl'] = lambda: iso226.iso226_spl_contour(30)[1]
    out['contour ext'] = lambda: iso226.iso226_spl_contour(30, True)[0]
    out['itpl'] = lambda: iso226.iso226_spl_itpl(30)(np.array(F, float))
    return out


def history_cases(tier):
    n = 14
    return [{'first': i, 'depth': 2 if tier == 'quick' else 3}
            for i in range(n)]


def history_run(R, first, depth):
    """Callers scribble over what they get; later reads are unaffected."""
    ops = reads()
    keys = list(ops)
    if first >= len(keys):
        return
    clean = {k: np.array(ops[k]()) for k in keys}
    for rest in itertools.product(range(len(keys)), repeat=depth-1):
        word = (first,)+rest
        R.state(word)
        held = []
        for i in word:
            v = ops[keys[i]]()
            R.step()
            R.check(np.array_equal(v, clean[keys[i]]), 'history',
                    word=[str(keys[j]) for j in word], at=str(keys[i]))
            for h in held:
                R.check(not np.shares_memory(h, v), 'alias', word=word)
            try:
                v[...] = -7
                held.append(v)
            except ValueError:
                pass        # read-only is as good as a copy
        for k in keys:
            R.check(np.array_equal(ops[k](), clean[k]), 'after',
                    word=[str(keys[j]) for j in word], at=str(k))
        R.trace()


FAMILIES = {
    'tables': (lambda tier: [{}], table_run),
    'levels': (level_cases, level_run),
    'interpolation': (lambda tier: [{'k': k, 'hfe': h} for k in
                                    (1, 2, 3, 4, 5) for h in (False, True)],
                      itpl_run),
    'range': (lambda tier: [{}], range_run),
    'history': (history_cases, history_run),
}
