"""C20: transfer function evaluation and DELSIG helpers."""
import cmath
import itertools
import math

import numpy as np

from .c19 import P_ATOMS, Z_ATOMS, multisets, spaced

BOUNDS = ('every filter with singularities from the listed alphabets up to '
          'the order bound, evaluated on every listed point, array shape and '
          'spelling; every decibel argument and load of the grids in every '
          'array shape; every matrix shape, pad size, value and side; every '
          'ABCD shape and number of inputs; every label step.')
ASSUMPTIONS = ['1e-9 relative floating point tolerance']

PTS = [1., -1., 1j, .6+.8j, 2.3, -.4-.3j, 0., .5+.25j, 1e3, -3+1e-3j]


def spellings(pts):
    """Arrays of evaluation points in several shapes."""
    a = np.array(pts)
    n = len(pts)//2*2
    yield list(pts), a
    yield a, a
    yield a[:n].reshape(2, -1), a[:n].reshape(2, -1)
    yield a[:n].reshape(-1, 1, 2), a[:n].reshape(-1, 1, 2)
    yield a[::2], a[::2]
    for p in pts:
        yield p, np.array(p)
    re = [complex(p).real for p in pts if complex(p).imag == 0]
    yield np.array(re), np.array(re)
    it = [int(p) for p in re if p == int(p)]+[-3, 7]
    yield it, np.array(it, dtype=float)
    yield np.array(it), np.array(it, dtype=float)
    yield np.array(it, dtype=np.int32)[:, None], \
        np.array(it, dtype=float)[:, None]
    for p in it:
        yield p, np.array(float(p))
        yield np.int64(p), np.array(float(p))


def poly_at(z, k, x):
    """Value of k prod(x-z) in plain Python."""
    v = complex(k)
    for r in z:
        v *= x-r
    return v


def each(f, a):
    return np.array([f(complex(v)) for v in a.ravel()]).reshape(a.shape)


def tf_cases(tier):
    for order in range(0, 5 if tier == 'quick' else 6):
        for z in multisets(Z_ATOMS, order):
            yield {'z': [[v.real, v.imag] for v in map(complex, z)]}


def tf_run(R, z):
    from pydsm.delsig import evalRPoly, evalTF, rmsGain
    z = [complex(*v) for v in z]
    for k in (1, -2.5, .125):
        for xs, a in spellings(PTS):
            R.step()
            want = each(lambda x: poly_at(z, k, x), a)
            for zz in (z, np.array(z), z+[np.inf], [np.inf]+z+[-np.inf]):
                R.close(evalRPoly(zz, xs, k), want, 'evalRPoly', z=zz, x=xs,
                        k=k)
            if k == 1:
                R.close(evalRPoly(z, xs), want, 'default gain', z=z, x=xs)
    for p in multisets(P_ATOMS, len(z)) if len(z) < 4 else multisets(
            P_ATOMS[1::2], len(z)):
        p = list(p)
        pts = [x for x in PTS if all(abs(x-v) > 1e-6 for v in p)]
        R.state(tuple(p))
        for k in (1., -.3):
            b, a = k*np.poly(z).real, np.poly(p).real
            b, a = np.atleast_1d(b), np.atleast_1d(a)
            H = (z, p, k), (np.array(z), np.array(p), k), (list(b), list(a)), \
                (b, 2*a)

            def ref(x):
                return poly_at(z, k, x)/poly_at(p, 1, x)
            for i, h in enumerate(H):
                for xs, arr in spellings(pts):
                    R.step()
                    want = each(ref, arr)/(2 if i == 3 else 1)
                    got = evalTF(h, xs)
                    if want.size == 1:
                        R.check(np.ndim(got) == 0, 'scalar', got=got)
                        want = want.reshape(())
                    R.close(got, want, 'evalTF', rtol=1e-8, h=h, x=xs)
                R.trace()
            for f1, f2, N in ((0, .5, 100), (0., .01, 7), (.2, .3, 33),
                              (.125, .125, 4)):
                f = [f1+(f2-f1)*i/(N-1) for i in range(N)]
                want = math.sqrt(sum(abs(ref(cmath.exp(2j*math.pi*v)))**2
                                     for v in f)/N)
                for h in H[:3]:
                    R.step()
                    R.close(rmsGain(h, f1, f2, N), want, 'rmsGain',
                            rtol=1e-7, h=h, f1=f1, f2=f2, N=N)
                    if N == 100:
                        R.close(rmsGain(h, f1, f2), want, 'rmsGain N',
                                rtol=1e-7, h=h)
        R.outcome(complex(np.round(ref(2.3), 6)))
    R.sample({'z': z, 'p': p, 'H(2.3)': str(ref(2.3))})


def large_cases(tier):
    return [{'n': n} for n in ((6, 8, 11, 16, 24, 32) if tier == 'quick' else
                               range(5, 33))]


def large_run(R, n):
    """High orders and many points."""
    from pydsm.delsig import evalRPoly, evalTF, rmsGain
    z = spaced(n, 1., .5)
    tol = 1e-9 if n < 16 else 1e-6  # conditioning of the polynomials
    for r, k in itertools.product((0., .4, .8), (1., -.3)):
        p = spaced(n, r, .2)
        R.state(r, k)

        def ref(x):
            return poly_at(z, k, x)/poly_at(p, 1, x)
        for m in (3, 64, 257, 1000):
            xs = np.exp(2j*np.pi*np.linspace(0, .5, m))
            want = each(ref, xs)
            num = each(lambda x: poly_at(z, k, x), xs)
            sc = np.max(np.abs(want))
            for h in ((z, p, k), (list(z), list(p), k),
                      (k*np.poly(z).real, np.poly(p).real)):
                R.step()
                R.close(evalTF(h, xs), want, 'high order', rtol=tol,
                        atol=tol*sc, n=n, r=r, m=m)
                g = math.sqrt(np.mean(np.abs(want)**2))
                R.close(rmsGain(h, 0, .5, m), g, 'high order rmsGain',
                        rtol=100*tol, n=n, r=r, m=m)
            R.close(evalRPoly(z, xs, k), num, 'high order evalRPoly',
                    rtol=1e-9, atol=1e-9*np.max(np.abs(num)), n=n, m=m)
        R.trace()
        R.outcome(complex(np.round(ref(2.3), 6)))


VALS = [1., 2., .5, 10., 1e-3, 1e6, -3., 1e-150, 0., 7, 100]


def db_run(R, name):
    from pydsm import delsig
    f, g = getattr(delsig, name), getattr(delsig, 'un'+name)
    Rs = (50., 1, 600., .25) if name == 'dbm' else (None,)
    c = 20 if name == 'dbv' else 10
    for r in Rs:
        kw = [{}] if r is None else [{'R': r}]
        if r == 50:
            kw.append({})

        def ref(v):
            v = abs(v)
            if v == 0:
                return -math.inf
            if name == 'dbm':
                return 20*math.log10(v)-10*math.log10(r)+30
            return c*math.log10(v)

        def unref(v):
            if v == -math.inf:
                return 0.
            if name == 'dbm':
                return 10**((v-30)/20+math.log10(r)/2)
            return 10**(v/c)
        for k in kw:
            for xs in [VALS, np.array(VALS), np.array(VALS).reshape(-1, 1),
                       np.array([[3, 5], [7, 100]]), [1, 2, 10],
                       np.array([1., 4]), np.array([]), (2., 0.)]+VALS:
                a = np.asarray(xs)
                keep = a.copy()
                R.state(r, str(xs), len(k))
                R.step()
                want = np.array([ref(v) for v in a.ravel()]).reshape(a.shape)
                got = f(xs, **k)
                R.check(np.shape(got) == a.shape and np.allclose(
                    got, want, rtol=1e-12, atol=1e-12), 'direct', x=xs,
                    got=got, want=want, **k)
                R.check(np.array_equal(np.asarray(xs), keep), 'changed')
                back = g(got, **k)
                R.check(np.shape(back) == a.shape and np.allclose(
                    back, np.abs(a), rtol=1e-9, atol=1e-160), 'inverse',
                    x=xs, back=back, **k)
                R.trace()
            for d in (-400., -60, -3, 0, 1, 3., 20, 30, 200.):
                R.state('un', r, d, len(k))
                R.step()
                R.close(g(d, **k), unref(d), 'un', rtol=1e-9, atol=0, d=d,
                        **k)
                R.close(f(g(d, **k), **k), float(d), 'back', d=d, **k)
                R.close(g([d, -d], **k), [unref(d), unref(-d)], 'un list',
                        rtol=1e-9, atol=0, d=d, **k)
                R.close(g(np.array([[d, 5]]), **k),
                        [[unref(d), unref(5)]], 'un array', rtol=1e-9,
                        atol=0, d=d, **k)
    R.sample({'name': name, 'x': VALS[:4],
              'db': [float(v) for v in np.atleast_1d(f(VALS[:4]))]})


def rms_run(R):
    from pydsm.delsig import rms
    for n in range(1, 6):
        for x in itertools.product((-1, 0, 2.5), repeat=n):
            R.state(x)
            R.step()
            m = sum(x)/n
            w0 = math.sqrt(sum(v*v for v in x)/n)
            w1 = math.sqrt(sum((v-m)**2 for v in x)/n)
            for xs in (list(x), np.array(x)):
                keep = list(x)
                R.close(rms(xs), w0, 'rms', x=x)
                R.close(rms(xs, False), w0, 'rms', x=x)
                R.close(rms(xs, no_dc=True), w1, 'no_dc', x=x)
                R.check(list(xs) == keep, 'changed')
            R.outcome(w0)


def pad_run(R, rows):
    from pydsm import delsig
    for cols in range(1, 6):
        for dt in (float, int, complex):
            x = (np.arange(rows*cols).reshape(rows, cols)+1).astype(dt)
            if dt is complex:
                x = x*(1+2j)
            keep = x.copy()
            for extra in range(4):
                for val in (0, 7, -.5, 2j):
                    for side in 'lrtb':
                        f = getattr(delsig, 'pad'+side)
                        R.state(cols, dt.__name__, extra, val, side)
                        R.step()
                        horiz = side in 'lr'
                        n = extra+(cols if horiz else rows)
                        sh = (rows, n) if horiz else (n, cols)
                        want = np.full(sh, val, complex)
                        want[(extra if side == 't' else 0):
                             (extra if side == 't' else 0)+rows,
                             (extra if side == 'l' else 0):
                             (extra if side == 'l' else 0)+cols] = x
                        R.close(f(x, n, val), want, 'pad'+side, x=x, n=n,
                                val=val)
                        if val == 0:
                            R.close(f(x, n), want, 'default', x=x, n=n)
                        v = x[0]
                        n = extra+cols
                        z = np.full(extra, val)
                        want = np.r_[z, v] if side in 'lt' else np.r_[v, z]
                        R.close(f(v, n, val), want, 'vector', x=v, n=n,
                                val=val, side=side)
                        R.check(np.array_equal(x, keep), 'changed')
                        R.trace()


def partition_run(R, n):
    from pydsm.delsig import partitionABCD
    for m in range(1, 5):
        for q in range(1, 5):
            M = np.arange((n+q)*(n+m)).reshape(n+q, n+m)*1.
            want = M[:n, :n], M[:n, n:], M[n:, :n], M[n:, n:]
            R.state(m, q)
            R.step()
            got = [partitionABCD(M, m), partitionABCD(M.tolist(), m),
                   partitionABCD(ABCD=M, m=m)]
            if min(m, q) == 1:
                got.append(partitionABCD(M))
            else:
                # the least number of inputs (or of outputs)
                k = n+min(m, q)-1
                R.check([p.shape for p in partitionABCD(M)] ==
                        [(k, k), (k, n+m-k), (n+q-k, k), (n+q-k, n+m-k)],
                        'guess', m=m, q=q)
            for g in got:
                R.check(len(g) == 4 and all(
                    a.ndim == 2 and a.shape == b.shape and np.all(a == b)
                    for a, b in zip(g, want)), 'blocks', m=m, q=q)
            R.trace()


def axis_run(R):
    from pydsm.delsig import axisLabels
    P = [0., 1e-7, -1e-7, .5, 1., 1234567., -2.5, 1e-5, 3]
    for n in range(0, len(P)+1):
        for pts in (P[:n], np.array(P[:n])):
            keep = np.array(P[:n])
            for start in range(0, 4):
                for step in range(1, 5):
                    R.state(n, start, step)
                    R.step()
                    want = ['%g' % (v if abs(v) >= 1e-6 else 0.)
                            for v in P[:n][start::step]]
                    R.check(list(axisLabels(pts, (start, step))) == want,
                            'labels', n=n, start=start, step=step)
                    R.check(list(axisLabels(pts, [start, step])) == want,
                            'labels', n=n, start=start, step=step)
                    if start == 0:
                        R.check(list(axisLabels(pts, step)) == want,
                                'labels', n=n, step=step)
                    R.check(np.array_equal(pts, keep), 'changed')
                    R.trace()
    for bad in (1.5, (1, 2, 3), (1., 2), None, 'a'):
        R.raises(TypeError, lambda: axisLabels(P, bad), 'bad incr', bad=bad)


def plot_run(R, order):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from pydsm.delsig import plotPZ
    cases = [(np.array(z), np.array(p))
             for z in multisets(Z_ATOMS, order)
             for p in multisets(P_ATOMS[1:], order)]
    # Far roots: the plot is no longer a plot of the unit circle
    cases += [(np.array(z), np.array(p)) for z in multisets(
        ([3.], [-4.], [0.5+3j, 0.5-3j], [0.25]), order)
        for p in multisets(([2.5], [-0.5], [-3+1j, -3-1j]), order)]
    for z, p in cases:
        forms = [(z, p, 1.)]
        if len(set(z)) == order and len(set(p)) == order:
            forms.append((np.poly(z).real, np.poly(p).real))
        for H in forms:
            for show, col in ((False, 'b'), (True, ['r', 'g']),
                              (None, None)):
                R.state(tuple(z), tuple(p), len(H), show)
                R.step()
                plt.close('all')
                fig = plt.figure()
                if show is None:
                    plotPZ(H)
                else:
                    plotPZ(H, color=col, markersize=4, showlist=show)
                check_plot(R, fig, z, p, show, col, len(H))
                plt.close('all')
                R.trace()


def check_plot(R, fig, z, p, show, col, form):
    """The picture holds the roots, the circle, the axes and the list"""
    from ..refs import match
    import matplotlib.colors as mc
    ax = fig.gca()
    xy = {'x': [], 'o': []}
    circle = axes = 0
    ext = 1.1*max([1]+[abs(v) for v in np.r_[z, p]])
    for ln in ax.lines:
        # Through the transform, so any way to draw the lines will do
        q = ax.transData.inverted().transform(
            ln.get_transform().transform(ln.get_xydata()))
        q = q[:, 0]+1j*q[:, 1]
        m = ln.get_marker()
        if m in xy:
            xy[m] += list(q)
            c = 'b' if col is None else (
                col if isinstance(col, str) else col[m == 'o'])
            R.check(mc.to_rgba(ln.get_color()) == mc.to_rgba(c) and
                    ln.get_markersize() == (4 if col else 5) and
                    ln.get_linestyle() == 'None', 'style', marker=m,
                    col=col, size=ln.get_markersize())
            continue
        R.check(ln.get_linestyle() != 'None', 'invisible line')
        if len(q) > 8:
            th = np.sort(np.angle(q) % (2*np.pi))
            gap = np.max(np.diff(np.r_[th, th[0]+2*np.pi]))
            R.check(np.allclose(abs(q), 1, atol=1e-6) and gap < 0.5,
                    'the curve is not the unit circle', z=z, p=p)
            R.check(np.max(abs(np.diff(q))) < 0.5 and
                    abs(q[0]-q[-1]) < 0.5, 'the circle is not drawn in '
                    'order')
            circle += 1
            continue
        # The axes: from one end of the (symmetric) plot to the other
        lo, hi = (np.min(q.imag), np.max(q.imag)) if np.allclose(
            q.real, 0) else (np.min(q.real), np.max(q.real))
        if np.allclose(q.real, 0, atol=1e-9):
            axes += 1
            top = max([1]+[abs(v.imag) for v in np.r_[z, p]])
            R.check(hi >= top and lo <= -top and
                    abs(lo+hi) < 0.02*(hi-lo),
                    'the imaginary axis does not span the plot', z=z, p=p,
                    lo=lo, hi=hi)
        else:
            R.check(np.allclose(q.imag, 0, atol=1e-9), 'stray line', q=q)
            axes += 1j
            v = np.r_[z, p].real
            R.check(hi >= max(1, max(v)) and lo <= min(-1, min(v)) and
                    max(hi, -lo) < 2*ext,
                    'the real axis does not span the plot', z=z, p=p,
                    lo=lo, hi=hi)
    R.check(circle == 1 and axes == 1+1j, 'circle and axes',
            circle=circle, axes=axes, z=z, p=p)
    R.check(match(xy['x'], p, 1e-6), 'poles', p=p, got=xy['x'])
    R.check(match(xy['o'], z, 1e-6), 'zeros', z=z, got=xy['o'])
    R.check(ax.get_aspect() in ('equal', 1), 'the circle is not round')
    R.check((ax.get_xlabel(), ax.get_ylabel()) == ('Real', 'Imag'),
            'labels of the axes')
    txt = [t.get_text() for t in ax.texts]
    want = []
    if show:
        want = [head for head in ('Poles:', 'Zeros:')]+[
            '$%+.4f$' % v.real if v.imag == 0 else
            r'$%+.4f\pm \mathrm{j}%.4f$' % (v.real, v.imag)
            for v in np.r_[z, p].astype(complex)
            if v.imag >= 0]
    if form == 3 or not show:
        R.check(sorted(txt) == sorted(want), 'list', txt=txt, want=want)
    if show:
        # The lists are apart, each under its title, no line on another
        pos = [t.get_position() for t in ax.texts]
        R.check(len(set(pos)) == len(pos), 'texts on top of each other',
                pos=pos, txt=txt)
        cols = {}
        for t, q in zip(txt, pos):
            cols.setdefault(q[0], []).append((-q[1], t))
        R.check(len(cols) == 2, 'the lists are not in two columns',
                pos=pos)
        for k, (x, roots) in enumerate(zip(sorted(cols), (p, z))):
            items = sorted(cols[x])
            R.check(items[0][1] == ('Poles:', 'Zeros:')[k] and
                    len(items) == 1+sum(np.imag(roots) >= 0),
                    'the lists are not under their titles', items=items)
            gaps = np.diff([v[0] for v in items])
            R.check(np.all(gaps > 0.05), 'texts too near', items=items)


FAMILIES = {
    'large': (large_cases, large_run),
    'tf': (tf_cases, tf_run),
    'db': (lambda tier: [{'name': n} for n in ('dbv', 'dbp', 'dbm')],
           lambda R, name: db_run(R, name)),
    'rms': (lambda tier: [{}], rms_run),
    'pad': (lambda tier: [{'rows': r} for r in range(1, 6)], pad_run),
    'partition': (lambda tier: [{'n': n} for n in range(0, 6)],
                  partition_run),
    'axis': (lambda tier: [{}], axis_run),
    'plot': (lambda tier: [{'order': n} for n in (
        (1, 2) if tier == 'quick' else (1, 2, 3))], plot_run),
}
