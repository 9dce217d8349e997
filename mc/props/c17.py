"""C17: discrete-time Fourier transforms."""
import itertools

import numpy as np

BOUNDS = ('every word over a small real or complex alphabet up to the length '
          'bound (and every unit impulse up to length 12), for every time '
          'offset, sampling frequency and frequency on the listed grids; '
          'every requested time within and outside the support; six patterns '
          'for every length up to 40 and around powers of two up to 256 '
          '(thorough: 1024).')
ASSUMPTIONS = ['quad accuracy 1e-8', 'frequencies are passed one at a time']

ALPHA = (0., 1., -2., .5+1j)


def word_cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n+1):
        for first in ALPHA:
            yield {'k': k, 'first': [first.real, first.imag]}


def ref(x, f, fs, t0):
    return sum(v*np.exp(-2j*np.pi*f*(n+t0)/fs) for n, v in enumerate(x))


FREQ = (0, .1, -.25, .5, .37, 1, -1.2)


def word_run(R, k, first):
    from pydsm.ft import dtft, dtft_hermitian, fft_centered, idtft, \
        idtft_hermitian
    first = complex(*first)
    if first.imag == 0:
        first = first.real
    for rest in itertools.product(ALPHA, repeat=k-1):
        x = (first,)+rest
        R.state(x)
        real = all(np.imag(v) == 0 for v in x)
        for xs in (list(x), np.array(x)):
            keep = np.array(x)
            for fs, t0 in ((1, 0), (2., 0), (44100, 3), (1, -2), (.5, 1.5)):
                X = dtft(xs, fs, t0)
                R.step()
                for f in FREQ:
                    R.close(X(f*fs), ref(x, f*fs, fs, t0), 'dtft', x=x,
                            f=f, fs=fs, t0=t0)
            R.close(dtft(xs)(.3), ref(x, .3, 1, 0), 'defaults', x=x)
            R.close(dtft(xs, t0=2)(.3), ref(x, .3, 1, 2), 'default fs', x=x)
            # Hermitian: x real at time 0, conjugated at negative times;
            # the transform of a real even sequence
            if real:
                H = dtft_hermitian(xs)
                full = list(x[:0:-1])+list(x)
                for fs in (1, 3.):
                    H = dtft_hermitian(xs, fs)
                    for f in FREQ:
                        h = H(f*fs)
                        R.check(np.isrealobj(h), 'hermitian real', x=x)
                        R.close(h, ref(full, f, 1, 1-len(x)).real,
                                'dtft_hermitian', x=x, f=f, fs=fs)
            ff, X = fft_centered(xs)
            for fs in (1, 10, .5):
                ff, X = fft_centered(xs, fs)
                N = len(x)
                R.check(len(ff) == N and len(X) == N, 'fft length', x=x)
                R.close(ff, np.arange(-(N//2), (N+1)//2)*fs/N,
                        'fft frequencies', x=x, fs=fs)
                R.close(X, [ref(x, f, fs, 0) for f in ff], 'fft values', x=x,
                        fs=fs)
            R.check(np.array_equal(np.array(xs), keep), 'argument changed')
        R.outcome(np.round(complex(dtft(x)(.1)), 6))
        R.trace()
        if k > 3:
            continue
        # inversion
        for fs, t0 in ((1, 0), (8., 2)):
            X = dtft(x, fs, t0)
            tt = np.arange(t0-2, t0+k+2)
            want = np.r_[0, 0, np.array(x), 0, 0]
            R.step()
            R.close(idtft(X, tt, fs), want, 'idtft', atol=1e-8, x=x, fs=fs)
            for t, w in zip(tt, want):
                R.close(idtft(X, int(t), fs), w, 'idtft scalar', atol=1e-8,
                        x=x, fs=fs, t=t)
            R.close(idtft(X, list(tt), fs=fs), want, 'idtft list',
                    atol=1e-8, x=x, fs=fs)
            if real:
                X = dtft_hermitian(x, fs)
                tt = np.arange(0, k+2)
                want = np.r_[np.array(x), 0, 0]
                got = idtft_hermitian(X, tt, fs)
                R.check(np.isrealobj(got), 'idtft_hermitian real')
                R.close(got, want, 'idtft_hermitian', atol=1e-8, x=x, fs=fs)
                R.close(idtft_hermitian(X, 1, fs), want[1],
                        'idtft_hermitian scalar', atol=1e-8, x=x, fs=fs)
                R.close(idtft_hermitian(X, list(tt), fs=fs), want,
                        'idtft_hermitian list', atol=1e-8, x=x, fs=fs)
                R.close(idtft(X, -tt, fs), want, 'idtft of even', atol=1e-8,
                        x=x, fs=fs)
    R.sample({'x': [str(v) for v in x], 'X(.1)': str(dtft(x)(.1))})


def impulse_run(R, n):
    """By linearity impulses at every place decide the transforms."""
    from pydsm.ft import dtft, dtft_hermitian, idtft, idtft_hermitian
    for i in range(n):
        x = np.zeros(n)
        x[i] = 1
        for fs, t0 in ((1, 0), (5., -3), (2, .25)):
            X = dtft(x, fs, t0)
            for f in np.linspace(-1, 1, 33)*fs:
                R.close(X(f), np.exp(-2j*np.pi*f/fs*(i+t0)), 'dtft', i=i,
                        fs=fs, t0=t0, f=f)
            R.state(i, fs, t0)
            R.step()
        R.close(idtft(dtft(x), np.arange(n)), x+0j, 'idtft', atol=1e-8, i=i)
        R.close(idtft(dtft(1j*x), np.arange(n)), 1j*x, 'idtft', atol=1e-8,
                i=i)
        X = dtft_hermitian(x, 7.)
        R.close(idtft_hermitian(X, np.arange(n), 7.), x, 'idtft_hermitian',
                atol=1e-8, i=i)
        for f in np.linspace(0, .5, 17):
            R.close(X(7*f), (2. if i else 1.)*np.cos(2*np.pi*f*i),
                    'dtft_hermitian', i=i, f=f)
        R.trace()


# band limited functions with corners, given as functions of frequency
def inv_run(R, fs):
    from pydsm.ft import idtft, idtft_hermitian
    t = np.arange(8)
    for c in (.05, .1, .2, .35, .45):
        box = np.where(t == 0, 2*c, np.sin(2*np.pi*c*t)/np.pi /
                       np.where(t, t, 1))
        fun = lambda f: 1.*(abs(f) < c*fs)
        half = lambda f: 1.*(0 <= f < c*fs)
        o = {'points': [c], 'limit': 200}
        R.state(c)
        R.step()
        R.close(idtft_hermitian(fun, t, fs, quad_opts=o), box, 'box',
                atol=1e-8, c=c)
        R.close(idtft(fun, t, fs, quad_opts=dict(o, points=[-c, c])),
                box+0j, 'complex box', atol=1e-8, c=c)
        want = np.where(t == 0, c, (np.exp(2j*np.pi*c*t)-1)/2j/np.pi /
                        np.where(t, t, 1))
        R.close(idtft(half, t, fs, quad_opts=dict(o, points=[0., c])), want,
                'half box', atol=1e-8, c=c)
        # values at negative frequencies are not used
        skew = lambda f: fun(f) if f >= 0 else 1e3
        R.close(idtft_hermitian(skew, t, fs, quad_opts=o), box, 'skew',
                atol=1e-8, c=c)
        R.trace()


def long_cases(tier):
    lengths = list(range(13, 41)) + [64, 100, 127, 128, 129, 255, 256, 257]
    if tier != 'quick':
        lengths += list(range(41, 127)) + [511, 512, 513, 1000, 1024, 1025]
    return [{'n': n} for n in lengths]


def long_run(R, n):
    from pydsm.ft import dtft, dtft_hermitian, fft_centered, idtft, \
        idtft_hermitian
    k = np.arange(n)
    for name, x in (('real', np.cos(k**2*.7)), ('complex',
                                                np.exp(1j*k**2*.3)),
                    ('integer', (k*k) % 7-3), ('flat', np.ones(n)),
                    ('alternate', (-1)**k), ('last', 1.*(k == n-1))):
        R.state(n, name)
        for fs in (1, 48e3):
            ff, X = fft_centered(x, fs)
            f0 = np.arange(-(n//2), (n+1)//2)*fs/n
            R.close(ff, f0, 'long/frequencies', x=name, fs=fs)
            R.close(X, np.exp(-2j*np.pi*np.outer(f0/fs, k)) @ x,
                    'long/values', rtol=1e-8, atol=1e-9*n, x=name, fs=fs)
            for t0 in (0, -n, 3):
                D = dtft(x, fs, t0)
                for f in FREQ:
                    R.close(D(f*fs), ref(x, f*fs, fs, t0), 'long/dtft',
                            atol=1e-9*n, x=name, f=f, fs=fs, t0=t0)
            R.step()
            if name != 'complex':
                D = dtft_hermitian(x, fs)
                for f in FREQ:
                    w = x[0]+2*np.sum(x[1:]*np.cos(2*np.pi*f*k[1:]))
                    R.close(D(f*fs), w, 'long/hermitian', atol=1e-9*n,
                            x=name, f=f, fs=fs)
        if n <= 24:
            o = {'limit': 400}
            tt = np.arange(-2, n+2)
            R.close(idtft(dtft(x), tt, quad_opts=o),
                    np.r_[0, 0, x, 0, 0], 'long/idtft', atol=1e-7, x=name)
            if name != 'complex':
                R.close(idtft_hermitian(dtft_hermitian(x, 8.), tt[2:], 8.,
                                        quad_opts=o),
                        np.r_[x, 0, 0], 'long/idtft_hermitian', atol=1e-7,
                        x=name)
        R.trace()
    R.outcome(n)


FAMILIES = {
    'long': (long_cases, long_run),
    'words': (word_cases, word_run),
    'impulses': (lambda tier: [{'n': n} for n in range(1, 13)], impulse_run),
    'inverse': (lambda tier: [{'fs': f} for f in (1, 2., 48000., .1)],
                inv_run),
}
