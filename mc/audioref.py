"""Independent audio weightings, from their singularities in Hz."""
import numpy as np

# zeros at DC, other zeros, poles (Hz)
_P = {
    'a': (4, [], [20.6, 20.6, 107.7, 737.9, 12200., 12200.]),
    'b': (3, [], [20.6, 20.6, 158.5, 12200., 12200.]),
    'c': (2, [], [20.6, 20.6, 12200., 12200.]),
    # rounded constants of the formula in the documentation
    'd': (1, [519.8+876.2j, 519.8-876.2j],
          [282.7, 1160., 1712+2628j, 1712-2628j]),
    'f': (3, [580+1030j, 580-1030j]+[3180+8750j, 3180-8750j]*3,
          [180.]*3+[1630.]*2+[2510+3850j, 2510-3850j]*4 +
          [6620+14290j, 6620-14290j]*20),
}


def logamp(kind, f):
    """Log of the amplitude response, any normalization."""
    n, z, p = _P[kind]
    f = np.asarray(f, float)
    with np.errstate(divide='ignore'):
        r = n*np.log(np.abs(f))
    for x in z:
        r = r+np.log(np.abs(1j*f+x))
    for x in p:
        r = r-np.log(np.abs(1j*f+x))
    return r


def amplitude(kind, f):
    """Amplitude response, unit at 1 kHz."""
    return np.exp(logamp(kind, f)-logamp(kind, 1000.))


def power(kind, f):
    return amplitude(kind, f)**2


# Tabled values in dB (IEC 61672 / 60651, as published), at exact frequencies
# 1000*10**(n/10)
NOMINAL = {
    'a': {10: -70.4, 20: -50.5, 31.5: -39.4, 63: -26.2, 100: -19.1,
          200: -10.9, 500: -3.2, 1000: 0., 2000: 1.2, 2500: 1.3, 4000: 1.0,
          8000: -1.1, 10000: -2.5, 16000: -6.6, 20000: -9.3},
    'b': {20: -24.2, 31.5: -17.1, 63: -9.3, 100: -5.6, 200: -2.0,
          500: -.3, 1000: 0., 2000: -.1, 4000: -.7, 8000: -2.9,
          10000: -4.3, 16000: -8.4, 20000: -11.1},
    'c': {10: -14.3, 20: -6.2, 31.5: -3., 63: -.8, 100: -.3, 200: 0.,
          500: 0., 1000: 0., 2000: -.2, 4000: -.8, 8000: -3.0,
          10000: -4.4, 16000: -8.5, 20000: -11.2},
}
