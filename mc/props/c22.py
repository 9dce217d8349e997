"""C22: audio weightings and their filters are one and the same curve."""
import itertools
import math

import numpy as np

from .. import audioref

BOUNDS = ('every weighting with every combination of the normal and power '
          'switches (positional, keyword and default), at every frequency of '
          'a logarithmic grid from 1 mHz to 1 MHz plus the standard third '
          'octave frequencies, in every array shape; the curves are decided '
          'against singularities written independently, and A, B, C against '
          'the values tabled in IEC 61672.')
ASSUMPTIONS = ['1e-6 relative tolerance on the values, 2e-4 on the match '
               'between D and F functions and filters (rounded constants in '
               'the published formulas); 0.06 dB on the tabled values']

KINDS = 'abcdf'
# normalization of the formulas at 1 kHz (the others are computed)
GRID = [10**(i/40.) for i in range(-120, 241)]
THIRD = [1000*10**(n/10.) for n in range(-20, 14)]
FREQ = GRID+THIRD+[1000., 20., 440., 22050., 1., 2., 100.]


def curve_run(R, kind):
    from pydsm import audio_weightings as aw
    w = getattr(aw, kind+'_weighting')
    g = getattr(aw, kind+'_weighting_gain')
    # own amplitude without normalization
    ratio = None
    for f in FREQ:
        R.state(f)
        a = float(audioref.amplitude(kind, f))
        R.step()
        if not R.close(w(f, power=False), a, 'amplitude', rtol=1e-6,
                       atol=0, f=f):
            return
        R.close(w(f, True, False), a, 'amplitude', rtol=1e-6, atol=0, f=f)
        for p in (w(f), w(f, True), w(f, True, True), w(f, normal=True),
                  w(f, power=True), w(f=f)):
            R.close(p, a*a, 'power', rtol=1e-6, atol=0, f=f)
        raw = w(f, False, False)
        R.close(w(f, normal=False), raw*raw, 'raw power', rtol=1e-9, atol=0,
                f=f)
        R.close(w(f, normal=False, power=True), raw*raw, 'raw power',
                rtol=1e-9, atol=0, f=f)
        if ratio is None:
            ratio = raw/a
        R.close(raw/a, ratio, 'normalization is a gain', rtol=1e-6, atol=0,
                f=f)
        R.outcome(round(math.log10(a), 3))
        R.trace()
    # the documented normalization gain
    one = w(1000., True, False)
    R.close(one, 1., 'unit at 1 kHz', rtol=1e-6)
    R.close(w(1000.), 1., 'unit at 1 kHz', rtol=1e-6)
    raw = w(1000., False, kind == 'f')
    R.close(g*raw, 1., 'gain', rtol=1e-6)
    # arrays
    F = np.array(FREQ)
    for n, p in itertools.product((True, False), repeat=2):
        want = np.array([w(f, n, p) for f in FREQ])
        for sh in (F, F[:100].reshape(10, 10), F[:8].reshape(2, 2, 2),
                   F[::3]):
            keep = sh.copy()
            R.step()
            R.state('array', n, p, sh.shape)
            v = np.array([w(f, n, p) for f in sh.ravel()])
            R.close(w(sh, n, p), v.reshape(sh.shape), 'array', rtol=1e-12,
                    atol=0, n=n, p=p)
            R.check(np.array_equal(sh, keep), 'changed')
        R.close(w(F, n, p), want, 'array', rtol=1e-12, atol=0)
        z = w(0., n, p)
        R.close(z, 0., 'no DC', atol=0, n=n, p=p)
    R.sample({'kind': kind, 'f': 440., 'power': w(440.)})


def table_run(R, kind):
    from pydsm import audio_weightings as aw
    w = getattr(aw, kind+'_weighting')
    for f, db in audioref.NOMINAL[kind].items():
        e = 1000*10**(round(10*math.log10(f/1000.))/10.)
        R.state(f)
        R.step()
        R.check(abs(10*math.log10(w(e))-db) < .06, 'table', f=f, db=db,
                got=10*math.log10(w(e)))
        R.check(abs(20*math.log10(w(e, power=False))-db) < .06, 'table',
                f=f, db=db)
        R.trace()


def filter_run(R, kind):
    from ..refs import conj_closed
    from pydsm import audio_weightings as aw
    w = getattr(aw, kind+'_weighting')
    z, p, k = getattr(aw, kind+'_zpk')
    g = getattr(aw, kind+'_weighting_gain')
    R.check(conj_closed(z, 1e-6) and conj_closed(p, 1e-6), 'real', z=z, p=p)
    R.check(np.all(np.real(p) < 0), 'stable', p=p)
    R.check(np.all(np.real(z) <= 0), 'minimum phase', z=z)
    R.check(len(p) > len(z) or kind == 'd' and len(p) >= len(z), 'proper')
    for f in FREQ:
        R.state(f)
        R.step()
        s = 2j*math.pi*f
        la = (math.log(k)+sum(math.log(abs(s-v)) for v in z) -
              sum(math.log(abs(s-v)) for v in p))
        raw = w(f, False, False)
        R.check(abs(la-math.log(raw)) < 2e-4, 'filter and function', f=f,
                filter=la, function=math.log(raw))
        lg = math.log(g)/(2 if kind == 'f' else 1)
        R.check(abs(la+lg-math.log(audioref.amplitude(kind, f))) < 2e-4,
                'normalized filter', f=f)
        R.trace()


FAMILIES = {
    'curve': (lambda tier: [{'kind': k} for k in KINDS], curve_run),
    'table': (lambda tier: [{'kind': k} for k in 'abc'], table_run),
    'filter': (lambda tier: [{'kind': k} for k in KINDS], filter_run),
}
