"""C16: deprecated aliases warn and do what they stand for."""
import copy
import itertools
import warnings

import numpy as np

from .. import catalog
from ..catalog import loose, outcome, same

BOUNDS = ('every deprecated function with every product of the listed values '
          'of its arguments, each one given by position, by keyword or '
          'omitted, compared with the function it stands for (values and '
          'exceptions) and with the warnings that both emit; every call of '
          'the catalog of non-deprecated functions for the absence of such '
          'warnings; every word of up to three changes of defaults of the '
          'function that an alias stands for, followed by both calls.')
ASSUMPTIONS = ['messages of the warnings are not considered',
               'filter_based has its own interface: it is compared with the '
               'formulas in its documentation, through the functions that '
               'supersede it']

S = {'show_progress': False}
ABSENT = '<absent>'


def fz():
    return (np.array([-1.]), np.array([.5]), .25)


def fba():
    return (np.array([.25, .25]), np.array([1., -.5]))


def fimp():
    return np.array([1., .5, .25])


def fmag(f):
    return 1.2+np.cos(2*np.pi*f)


def ntf():
    return (np.exp([.05j, -.05j]), np.array([.5, .3]), 1.)


def ntf_ba():
    return (np.array([1., -1.9, 1.]), np.array([1., -.8, .2]))


def w1(f):
    return 1.1+np.cos(2*np.pi*f)


def w2(f):
    return 1. if f < .1 else .01


def aw(f):
    return 1/(1+(f/8e3)**2)


X = np.array([1., 2., .3])
C = [2., 1+1j, -3., 1-1j]

# name: (module, alias, module, target, arguments in order with their values,
#        the first one of each being required; options)
ALIASES = {
    'q0': ('NTFdesign.weighting', 'q0_from_noise_weighting',
           'NTFdesign.weighting', 'q0_weighting',
           [('P', [1, 3], None), ('w', [w1, w2, fz, fba], None)],
           [{}, {'quad_opts': {'epsabs': 1e-3, 'epsrel': 1e-3}},
            {'quad_opts': {'limit': 60}}, {'nonsense': 1}]),
    'from_q0': ('NTFdesign.weighting', 'synthesize_ntf_from_q0',
                'NTFdesign.weighting', 'ntf_fir_from_q0',
                [('q0', [np.array([.6, .3, .1]), np.array([.2, 0., .5])],
                  None),
                 ('H_inf', [1.3, 2.], 1.5),
                 ('normalize', [None, 'auto', 2.], 'auto')],
                [S, dict(S, fix_pos=False), dict(S, modeler='cvxpy'),
                 dict(S, modeler='picos'),
                 dict(S, cvxopt_opts={'maxiters': 5}),
                 dict(S, modeler='nonsense')]),
    'fir': ('NTFdesign.weighting', 'synthesize_ntf_from_noise_weighting',
            'NTFdesign.weighting', 'ntf_fir_weighting',
            [('order', [1, 2], None), ('noise_weighting', [w1, fz], None),
             ('H_inf', [1.3], 1.5), ('normalize', [None, 2.], 'auto')],
            [S, dict(S, modeler='cvxpy'), dict(S, modeler='picos'),
             dict(S, quad_opts={'epsabs': 1e-2, 'epsrel': 1e-2}),
             dict(S, nonsense=1)]),
    'minmax': ('NTFdesign.minmax', 'synthesize_ntf_minmax',
               'NTFdesign.minmax', 'ntf_fir_minmax',
               [('order', [2, 4], 32), ('osr', [4, 8], 32),
                ('H_inf', [1.3], 1.5), ('f0', [.2, [0., .25]], 0),
                ('zf', [True], False)],
               [S, dict(S, modeler='cvxpy'),
                dict(S, cvxopt_opts={'maxiters': 1})]),
    'gain': ('NTFdesign.weighting', 'quantization_weighted_noise_gain',
             'NTFdesign.merit_factors', 'quantization_noise_gain',
             [('NTF', [ntf, ntf_ba], None), ('w', [w1, fz, fba], None),
              ('bounds', [(0, .1), (.1, .4)], (0, .5))],
             [{}, {'quad_opts': {'epsrel': 1e-2, 'epsabs': 1e-2}},
              {'nonsense': 1}]),
    'db': ('utilities', 'db', 'relab', 'db',
           [('x', [2., X], None), ('signal_type', ['power', 'voltage'],
                                   'voltage'), ('R', [50, .5], 1)], [{}]),
    'cplxpair': ('utilities', 'cplxpair', 'relab', 'cplxpair',
                 [('x', [C, [1, 1+1e-9j], [1j, 2.],
                         [1+1j, 1.0001-1j]], None),
                  ('tol', [1e-3, 1e-12], 100*np.finfo(float).eps)], [{}]),
    'dunn': ('NTFdesign.psychoacoustic', 'synthesize_ntf_dunn',
             'NTFdesign.psychoacoustic', 'ntf_dunn',
             [('order', [2, 5, 9], 3), ('osr', [32], 64),
              ('H_inf', [1.8], 1.5)], [{}]),
    'audio': ('NTFdesign.psychoacoustic',
              'synthesize_ntf_from_audio_weighting',
              'NTFdesign.psychoacoustic', 'ntf_fir_audio_weighting',
              [('order', [1, 2], None), ('osr', [4], None),
               ('audio_weighting', ['a', aw], 'f'),
               ('audio_band', [10e3], 22.05e3), ('max_attn', [20], 120),
               ('H_inf', [1.3], 1.5), ('normalize', [None], 'auto')],
              [S, dict(S, modeler='picos')]),
    'schreier': ('NTFdesign.delsig', 'synthesizeNTF',
                 'delsig', 'synthesizeNTF',
                 [('order', [2, 4], 3), ('osr', [16], 64), ('opt', [1, 2], 0),
                  ('H_inf', [2.], 1.5), ('f0', [.2], 0.)],
                 [{}, {'use_optimizer': False}, {'nonsense': 1}]),
    'chebyshev': ('NTFdesign.delsig', 'synthesizeChebyshevNTF',
                  'delsig', 'synthesizeChebyshevNTF',
                  [('order', [2, 4], 3), ('osr', [16], 64),
                   ('opt', [1], 0), ('H_inf', [2.], 1.5),
                   ('f0', [.2], 0.)], [{}]),
    'clans': ('NTFdesign.delsig', 'clans', 'delsig', 'clans',
              [('order', [2, 3], 4), ('osr', [16], 64), ('nq', [4], 5),
               ('rmax', [.8], .95), ('opt', [1], 0)],
              [{}, {'slsqp_opts': {'maxiter': 2}}, {'nonsense': 1}]),
    'conv': ('NTFdesign.filter_based', 'quantization_noise_gain_by_conv',
             'NTFdesign.legacy', 'quantization_noise_gain_by_conv',
             [('NTF', [ntf, ntf_ba], None),
              ('H', [fz, fba, fimp], None),
              ('H_type', ['zpk', 'ba', 'imp', 'mag', 'nonsense'], 'zpk'),
              ('db', [20], 80)], [{}]),
}


SOLVED = ('fir', 'from_q0', 'minmax', 'audio')


def get(mod, name):
    import importlib
    return getattr(importlib.import_module('pydsm.'+mod), name)


def value(v):
    """Fresh value of an argument."""
    if v in (fz, fba, fimp, ntf, ntf_ba) if callable(v) else False:
        return v()
    return copy.deepcopy(v)


def recorded(f, *args, **kwargs):
    """Outcome of a call and the categories of the warnings it emits."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        out = outcome(f, args, kwargs)
    return out, [r.category.__name__ for r in rec]


def split(cats):
    d = [c for c in cats if c == 'PyDsmDeprecationWarning']
    return len(d), sorted(set(c for c in cats
                              if c != 'PyDsmDeprecationWarning'))


def words(args):
    """Values (or absence) for every argument, and the ways to pass them."""
    choices = [[(n, v) for v in vals]+([(n, ABSENT)] if dflt is not None
                                       else [])
               for n, vals, dflt in args]
    return itertools.product(*choices)


def ways(word):
    """All by position up to i, then by keyword."""
    given = [(n, v) for n, v in word]
    last = len(given)
    for i, (n, v) in enumerate(given):
        if isinstance(v, str) and v == ABSENT:
            last = i
            break
    return [last, 0, last//2] if last > 1 else [last, 0]


def alias_cases(tier):
    out = []
    for name in sorted(ALIASES):
        for i in range(len(ALIASES[name][5])):
            for first in range(len(ALIASES[name][4][0][1])+1):
                if first == len(ALIASES[name][4][0][1]) and \
                        ALIASES[name][4][0][2] is None:
                    continue
                out.append({'name': name, 'option': i, 'first': first})
    return out


def alias_run(R, name, option, first):
    am, an, tm, tn, args, options = ALIASES[name]
    alias, target = get(am, an), get(tm, tn)
    vals = args[0][1]
    eq = loose if name in SOLVED else same
    head = vals[first] if first < len(vals) else ABSENT
    for word in words(args):
        v0 = word[0][1]
        if v0 is not head:
            continue
        given = [(n, v) for n, v in word
                 if not (isinstance(v, str) and v == ABSENT)]
        # A design of order 32 takes long: all the defaults only, and one
        # iteration
        if name == 'minmax' and (head is ABSENT) != (option == 2):
            continue
        if name == 'minmax' and head is ABSENT and given:
            continue
        dflt = {n: d for n, _, d in args if d is not None}
        full = dict(dflt, **dict(given))
        tgt = {('w' if n == 'noise_weighting' else n): value(v)
               for n, v in full.items()}
        if name == 'audio' and full['audio_weighting'] == 'f':
            from pydsm.audio_weightings import f_weighting
            tgt['audio_weighting'] = f_weighting
        opts = options[option]
        want, ww = recorded(target, **dict(tgt, **copy.deepcopy(opts)))
        R.check(split(ww)[0] == 0, 'target warns', call=tn)
        R.outcome(name, want[0])
        ks = set(ways(word))
        if name in ('fir', 'from_q0', 'audio', 'minmax'):
            ks = {max(ks), 0} if len(given) < 4 else {max(ks)}
        for k in sorted(ks):
            if any(isinstance(v, str) and v == ABSENT for _, v in word[:k]):
                continue
            pos = [value(v) for _, v in word[:k]]
            kw = {n: value(v) for n, v in word[k:]
                  if not (isinstance(v, str) and v == ABSENT)}
            kw.update(copy.deepcopy(opts))
            R.state(k, [str(x) for x in word])
            R.step(2)
            info = dict(call=an, by_position=k,
                        args=[(n, getattr(v, '__name__', v))
                              for n, v in given], options=opts)
            got, gw = recorded(alias, *pos, **kw)
            if want[0] == 'exc' and got[0] == 'exc':
                R.check(got[1] == want[1], 'exception', got=got, want=want,
                        **info)
            else:
                R.check(eq(got, want), 'value', got=str(got),
                        want=str(want), **info)
            n, others = split(gw)
            R.check(n >= 1, 'no warning', **info)
            R.check(others == split(ww)[1], 'other warnings', got=others,
                    want=split(ww)[1], **info)
    R.trace()


# The filter based interface
def filters():
    return {'zpk': fz(), 'ba': fba(), 'imp': fimp(), 'mag': fmag}


def weighting_for(kind, H):
    if kind == 'mag':
        return lambda f: H(f)**2
    if kind == 'imp':
        return (H, np.array([1.]))
    return H


def filter_cases(tier):
    return [{'what': w, 'kind': k} for w in ('gain', 'q0', 'ntf')
            for k in ('zpk', 'ba', 'imp', 'mag', 'nonsense')]


def filter_run(R, what, kind):
    import pydsm.NTFdesign as N
    import pydsm.NTFdesign.filter_based as fb
    import pydsm.NTFdesign.weighting as w
    H = filters().get(kind, fz())
    W = weighting_for(kind, H)

    def judge(f, args, kwargs, want, **info):
        got, gw = recorded(f, *args, **kwargs)
        R.step()
        R.state(what, kind, [str(x) for x in args], sorted(kwargs))
        R.check(split(gw)[0] >= 1, 'no warning', **info)
        if kind == 'nonsense':
            R.check(got[:2] == ('exc', 'ValueError') and
                    'Incorrect filter type specification' in got[2],
                    'accepted', got=str(got), **info)
        else:
            R.check((loose if what == 'ntf' else same)(got, want), 'value',
                    got=str(got),
                    want=str(want), **info)

    def forms():
        """The type by position, by keyword or left out."""
        yield (kind,), {}
        yield (), {'H_type': kind}
        if kind == 'zpk':
            yield (), {}

    quads = ({}, {'quad_opts': {'epsabs': 1e-12}},
             {'quad_opts': {'limit': 80}})
    if what == 'gain':
        for F in (ntf(), ntf_ba()):
            for o in quads:
                want = ('ok',) if kind == 'nonsense' else outcome(
                    N.quantization_noise_gain, (F, W), o)
                for a, k in forms():
                    judge(fb.quantization_noise_gain, (F, H)+a,
                          dict(k, **o), want, options=str(o))
        for bad in ({'nonsense': 1}, {'bounds': (0, .1)}):
            R.raises(TypeError, lambda: fb.quantization_noise_gain(
                ntf(), fz(), **bad), 'unknown option', options=bad)
    elif what == 'q0':
        for P in (0, 1, 2, 3):
            for o in quads:
                want = ('ok',) if kind == 'nonsense' else outcome(
                    w.q0_weighting, (P, W), o)
                for a, k in forms():
                    judge(fb.q0_from_filter, (P, H)+a, dict(k, **o), want,
                          order=P, options=str(o))
    else:
        opts = [{}, {'cvxopt_opts': {'maxiters': 4}},
                {'quad_opts': {'epsabs': 1e-12}}]
        for order, H_inf, norm, o in itertools.product(
                (1, 3), (ABSENT, 1.3), (ABSENT, None, 3.), opts):
            o = dict(o, **S)
            extra = {}
            if H_inf is not ABSENT:
                extra['H_inf'] = H_inf
            if norm is not ABSENT:
                extra['normalize'] = norm
            if kind == 'nonsense':
                want = ('ok',)
            elif kind == 'imp':
                o2 = {k: v for k, v in o.items() if k != 'quad_opts'}
                want = outcome(w.ntf_fir_from_q0,
                               (w.q0_weighting(order, W),),
                               dict(extra, **o2))
            else:
                want = outcome(N.ntf_fir_weighting, (order, W),
                               dict(extra, **o))
            for a, k in forms():
                judge(fb.synthesize_ntf_from_filter, (order, H)+a,
                      dict(dict(k, **extra), **o), want,
                      order=order, H_inf=H_inf, normalize=norm,
                      options=str(o))
                if a and H_inf is not ABSENT and norm is not ABSENT:
                    judge(fb.synthesize_ntf_from_filter,
                          (order, H)+a+(H_inf, norm), dict(o), want,
                          order=order, form='positional')
    R.trace()


# Nobody else warns
def quiet_cases(tier):
    return [{'chunk': i} for i in range(12)]


def quiet_run(R, chunk):
    import matplotlib
    matplotlib.use('Agg')
    cat = catalog.calls()
    for name in sorted(cat)[chunk::12]:
        f, b, _ = cat[name]
        args, kwargs = b()
        for i in range(2):
            out, cats = recorded(f, *args, **kwargs)
            R.state(name)
            R.step()
            R.check(split(cats)[0] == 0, 'deprecation warning', call=name)
    import sys
    if 'matplotlib.pyplot' in sys.modules:
        sys.modules['matplotlib.pyplot'].close('all')
    R.trace()


# Aliases see the defaults of what they stand for
CHANGES = {
    'q0': [('quad_opts', {'epsabs': 1.}), ('quad_opts', {'limit': 1}),
           ('quad_opts', {'epsrel': .5})],
    'gain': [('quad_opts', {'epsabs': 1.}), ('quad_opts', {'limit': 1})],
    'from_q0': [('show_progress', False), ('fix_pos', False),
                ('modeler', 'picos'), ('cvxopt_opts', {'maxiters': 3})],
    'fir': [('show_progress', False), ('modeler', 'cvxpy'),
            ('cvxopt_opts', {'maxiters': 3}), ('quad_opts', {'epsabs': 1.})],
    'minmax': [('show_progress', False), ('modeler', 'picos'),
               ('cvxopt_opts', {'maxiters': 3})],
    'audio': [('show_progress', False), ('modeler', 'picos'),
              ('cvxopt_opts', {'maxiters': 3})],
    'clans': [('slsqp_opts', {'maxiter': 1}), ('slsqp_opts', {'ftol': .5})],
    'schreier': [('use_optimizer', False)],
}
ARGS = {'q0': (2, w2), 'gain': (ntf(), w2),
        'from_q0': (np.array([.2, 0., .5]),), 'fir': (2, w1),
        'minmax': (2, 8), 'audio': (2, 4), 'clans': (3,),
        'schreier': (3, 32, 3)}


def history_cases(tier):
    return [{'name': n, 'depth': 3 if tier == 'quick' else 4}
            for n in sorted(CHANGES)]


def history_run(R, name, depth):
    am, an, tm, tn = ALIASES[name][:4]
    alias, target = get(am, an), get(tm, tn)
    eq = loose if name in SOLVED else same
    d = target.default_options
    keep = copy.deepcopy(d)

    def restore():
        d.clear()
        d.update(copy.deepcopy(keep))

    try:
        for n in range(depth+1):
            for word in itertools.permutations(range(len(CHANGES[name])), n):
                restore()
                for i in word:
                    k, v = CHANGES[name][i]
                    if isinstance(v, dict):
                        d[k].update(v)
                    else:
                        d[k] = v
                want, _ = recorded(target, *ARGS[name])
                got, gw = recorded(alias, *ARGS[name])
                R.state(word)
                R.step(n+2)
                R.trace()
                R.check(eq(got, want), 'defaults',
                        changes=[CHANGES[name][i] for i in word],
                        got=str(got), want=str(want))
                # Every call warns, not only the first one
                R.check(split(gw)[0] >= 1, 'no warning', call=an)
    finally:
        restore()


FAMILIES = {
    'alias': (alias_cases, alias_run),
    'filter': (filter_cases, filter_run),
    'quiet': (quiet_cases, quiet_run),
    'history': (history_cases, history_run),
}
