"""C08: clans returns NTFs with bounded l1 gain, optimal at the band edge."""
import itertools

import numpy as np

from ..refs import gain, match, zpk_ok

BOUNDS = ('every combination of order, oversampling ratio, quantizer steps, '
          'pole radius limit and zero option on the listed grids; on each, '
          'every NTF from a lattice of pole positions about the result '
          'is tried as a competitor.')
ASSUMPTIONS = ['nq >= 3 and osr >= 32: below, the constraints are not '
               'feasible or the local optimizer is known to get lost',
               'the constraint is taken with 1% tolerance, and optimality '
               'as not worse than any feasible competitor in the lattice '
               'about the result by more than 2% (order 1-2), 12% (order 3) '
               'or 30% (order 4-5), since the search is local and has a '
               'loose stopping rule; nor is it compared where the start, with '
               'all the poles in zero, is already feasible']


def cases(tier):
    for order in range(1, 6):
        for osr in (32, 64) if tier == 'quick' else (32, 48, 64, 100, 128):
            for opt in (0, 1, 2):
                if order == 5 and tier == 'quick' and opt == 2:
                    continue
                yield {'order': order, 'osr': osr, 'opt': opt,
                       'nqs': [3, 4, 5, 6] if tier == 'quick' else
                       [3, 4, 5, 6, 7, 8], 'rmaxs': [.9, .95]}


def l1(z, p, n=3000):
    from scipy.signal import lfilter
    x = np.zeros(n)
    x[0] = 1
    return float(np.sum(np.abs(lfilter(np.poly(z).real, np.poly(p).real,
                                       x))))


SC = (.9, .97, .99, 1, 1.01, 1.03, 1.1)


def around(p, rmax):
    """Denominators of a lattice of pole sets about p, within radius rmax,
    parametrized by natural frequency and damping in the s-plane."""
    p = np.asarray(p)/rmax
    p = np.concatenate((p[np.abs(p.imag) <= 1e-9],
                        sorted(p[np.abs(p.imag) > 1e-9],
                               key=lambda x: (x.real, abs(x.imag)))))
    odd = len(p) % 2
    s = (p-1)/(p+1)
    fac = []
    if odd:
        fac.append(np.array([[1, -rmax*(1+s[0].real*f)/(1-s[0].real*f)]
                             for f in SC]))
    for i in range(odd, len(p), 2):
        c = np.poly(s[i:i+2]).real
        L = []
        for f1, f2 in itertools.product(SC, SC):
            r = np.roots([1, c[1]*f1, c[2]*f2])
            L.append(np.poly(rmax*(1+r)/(1-r)).real)
        fac.append(np.array(L))
    d = fac[0]
    for nxt in fac[1:]:
        m = d.shape[1]+nxt.shape[1]-1
        new = np.zeros((d.shape[0], nxt.shape[0], m))
        for i in range(d.shape[1]):
            for j in range(nxt.shape[1]):
                new[:, :, i+j] += d[:, None, i]*nxt[None, :, j]
        d = new.reshape(-1, m)
    return d


# SLSQP stops short of the local optimum, the more the higher the order
SLACK = {1: 1.02, 2: 1.02, 3: 1.12, 4: 1.3, 5: 1.3}


def lattice(z, den, osr):
    """l1 gain (of 120 samples, a lower bound on it) and band edge gain."""
    num = np.poly(z).real
    order = len(num)-1
    hist = np.zeros((order, den.shape[0]))
    tot = np.zeros(den.shape[0])
    for k in range(120):
        h = np.full(den.shape[0], num[k] if k <= order else 0.)
        for i in range(order):
            h -= den[:, i+1]*hist[i]
        tot += np.abs(h)
        hist = np.vstack((h[None], hist[:-1]))
    # 120 samples may cut the tail of the slowest ones: bound it
    tail = np.abs(hist).sum(axis=0)*60
    e = np.exp(1j*np.pi/osr)
    g = np.abs(np.polyval(num, e))/np.abs(den @ e**np.arange(order, -1, -1))
    return tot+tail, g


def grid_run(R, order, osr, opt, nqs, rmaxs):
    from pydsm.delsig import clans, synthesizeNTF
    from pydsm.NTFdesign import ntf_clans
    e = np.exp(1j*np.pi/osr)
    for rmax in rmaxs:
        for nq in nqs:
            info = dict(nq=nq, rmax=rmax)
            ntf = clans(order, osr, nq, rmax, opt)
            R.step()
            R.state(nq, rmax)
            if not zpk_ok(R, ntf, order, 'ntf', rmax=rmax, tol=1e-7, nq=nq):
                return
            z, p, k = ntf
            R.outcome(tuple(np.round(p, 5)))
            ref = synthesizeNTF(order, osr, opt, 1+nq, 0)
            R.check(match(z, ref[0], 1e-9), 'zeros', z=z, want=ref[0],
                    **info)
            h = l1(z, p)
            R.check(h <= (1+nq)*1.01, 'l1 norm', l1=h, p=p, **info)
            g = gain(z, p, e)
            den = around(p, rmax)
            L, G = lattice(z, den, osr)
            R.bulk_states(len(den))
            ok = L <= 1+nq
            # the search does not leave the start where all poles are null
            if ok.any() and 1+nq < 2**order:
                i = np.flatnonzero(ok)[np.argmin(G[ok])]
                R.check(g <= G[i]*SLACK[order], 'competitor', g=g,
                        other=G[i], den=den[i], p=p, **info)
            # the start of the search, when it satisfies the constraints
            if np.all(np.abs(ref[1]) <= rmax) and \
                    l1(*ref[:2]) <= 1+nq < 2**order:
                R.check(g <= gain(ref[0], ref[1], e)*1.001, 'start', g=g,
                        start=ref, **info)
            R.step(len(den))
            R.trace()
            r = ntf_clans(order=order, osr=osr, nq=nq, rmax=rmax, opt=opt)
            R.check(match(r[0], z, 1e-12) and match(r[1], p, 1e-12),
                    'ntf_clans', got=r, **info)
    R.sample({'order': order, 'osr': osr, 'opt': opt, 'nq': nq, 'p': p,
              'l1': h})


def misc_cases(tier):
    yield {}


def misc_run(R):
    from pydsm.delsig import clans
    b = clans(4, 64, 5, .95, 0)
    for r in (clans(), clans(4), clans(order=4, osr=64., nq=5.),
              clans(4, opt=0), clans(show_progress=False),
              clans(slsqp_opts={'maxiter': 100}),
              clans(slsqp_opts={}), clans(rmax=.95)):
        R.step()
        R.check(match(r[0], b[0], 1e-12) and match(r[1], b[1], 1e-12),
                'defaults', got=r, want=b)
    c = clans(slsqp_opts={'maxiter': 1})
    R.check(not match(c[1], b[1], 1e-6), 'maxiter honoured')
    R.raises(TypeError, lambda: clans(4, maxiter=5), 'unknown option')
    R.state('defaults')
    R.outcome(1)
    R.trace()
    R.sample({'ntf': b})



def radius_cases(tier):
    for order in range(1, 6):
        for rmax in (.3, .5, .6, .7, .8, .85, .99):
            yield {'order': order, 'rmax': rmax,
                   'osrs': [32, 64] if tier == 'quick' else [32, 48, 64, 128],
                   'nqs': [3, 4, 5, 6] if tier == 'quick' else
                   [3, 4, 5, 6, 7, 8, 9, 12, 16, 20]}


def disc(order, rmax):
    """Denominators of a lattice of pole sets spanning the disc."""
    odd = order % 2
    rr = [r*rmax for r in (.3, .6, .8, .9, 1)]
    pairs = [np.poly([r*np.exp(1j*t), r*np.exp(-1j*t)]).real
             for r in rr for t in (0, .03, .06, .12, .25, .5, 1.)]
    pairs += [np.poly([a, b]).real for a, b in
              itertools.combinations(rr+[0], 2)]
    fac = [np.array([[1, -r] for r in rr+[0]])] if odd else []
    out = []
    for c in [(i,) for i in range(len(fac[0]))] if odd else [()]:
        for q in itertools.combinations_with_replacement(
                range(len(pairs)), order//2):
            d = fac[0][c[0]] if odd else np.ones(1)
            for i in q:
                d = np.convolve(d, pairs[i])
            out.append(d)
    return np.array(out)


def radius_run(R, order, rmax, osrs, nqs):
    """Small or large radii, where the start of the search is not legal."""
    from pydsm.delsig import clans, synthesizeNTF
    den = disc(order, rmax)
    R.bulk_states(len(den))
    for osr in osrs:
        e = np.exp(1j*np.pi/osr)
        for opt in (0, 1, 2):
            for nq in nqs:
                info = dict(osr=osr, opt=opt, nq=nq)
                ntf = clans(order, osr, nq, rmax, opt)
                R.step()
                R.state(osr, opt, nq)
                if not zpk_ok(R, ntf, order, 'ntf', rmax=rmax, tol=1e-7,
                              nq=nq):
                    continue
                z, p, k = ntf
                R.outcome(tuple(np.round(p, 5)))
                ref = synthesizeNTF(order, osr, opt, 1+nq, 0)
                R.check(match(z, ref[0], 1e-9), 'zeros', z=z, want=ref[0],
                        **info)
                h = l1(z, p)
                L, G = lattice(z, den, osr)
                ok = L <= 1+nq
                if ok.any():
                    # feasible
                    R.check(h <= (1+nq)*1.01, 'l1 norm', l1=h, p=p,
                            other=den[np.argmin(L)], **info)
                    i = np.flatnonzero(ok)[np.argmin(G[ok])]
                    g = gain(z, p, e)
                    # the search is local
                    R.check(g <= G[i]*max(SLACK[order],
                                          1 if order < 3 else 3),
                            'competitor', g=g,
                            other=G[i], den=den[i], p=p, **info)
                R.trace()


FAMILIES = {'grid': (cases, grid_run), 'misc': (misc_cases, misc_run),
            'radius': (radius_cases, radius_run)}
