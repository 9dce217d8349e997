"""C15: options obey the call value, then default_options, at any history."""
import copy
import itertools
import sys
import warnings

import numpy as np
import scipy.integrate
import scipy.optimize

BOUNDS = ('over all the 16 functions with options: every change of a default '
          '(in place, nested or by replacement of the whole dictionary) '
          'followed by calls to every function with every option variant; '
          'every word of changes and calls up to the depth bound within each '
          'function, and every ordered pair of changes on two functions '
          'followed by calls of both; the effective options are recorded at '
          'the boundary to scipy, CVXOPT and SCS and compared with a model '
          'of the option rules, together with all the defaults and the '
          'dictionaries passed by the caller.')
ASSUMPTIONS = ['options are observed where they reach third party code; '
               'feastol is not considered with picos, which has other '
               'feasibility tolerances; the installed CVXPY always picks '
               'the chol KKT solver, so override_kktsolver has no effect '
               'to observe']


class Stop(BaseException):
    """Leave the call once the options are known."""


LOG = None


def _quad(*a, **k):
    if LOG is not None:
        LOG.append(('quad', {x: k.get(x) for x in QUAD}))
    return _real_quad(*a, **k)


def _minimize(*a, **k):
    if LOG is not None:
        o = dict(k.get('options') or {})
        LOG.append(('minimize', o))
        raise Stop()
    return _real_minimize(*a, **k)


def _conelp(*a, **k):
    from cvxopt import solvers
    if LOG is None:
        return _real_conelp(*a, **k)
    o = dict(k.get('options', solvers.options))
    fr, mod = sys._getframe(1), 'old'
    while fr is not None:
        name = fr.f_globals.get('__name__', '')
        for m in ('cvxpy', 'picos'):
            if name == m or name.startswith(m+'.'):
                mod = m
                break
        fr = fr.f_back
    nan = False
    for x in itertools.chain(a, k.values()):
        if hasattr(x, 'typecode'):
            # nan is the only number different from itself
            v = np.array(x.V if hasattr(x, 'V') else x)
            nan = nan or not np.all(np.isfinite(v.astype(complex)))
    LOG.append(('conelp', dict(
        {x: o.get(x) for x in ('maxiters', 'abstol', 'reltol', 'feastol',
                               'show_progress')},
        modeler=mod, nan=nan)))
    raise Stop()


def _scs(*a, **k):
    if LOG is None:
        return _real_scs(*a, **k)
    LOG.append(('scs', {x: k.get(x) for x in (
        'max_iters', 'eps_abs', 'eps_rel', 'alpha', 'normalize',
        'use_indirect', 'acceleration_lookback', 'verbose')}))
    raise Stop()


# scipy is patched, together with the names that pydsm imported from it
_real_quad = scipy.integrate.quad
_real_minimize = scipy.optimize.minimize
scipy.integrate.quad = _quad
scipy.optimize.minimize = _minimize
_real_conelp = _real_scs = None


def hooks():
    """The solvers are looked up at call time by all the modelers."""
    global _real_conelp, _real_scs
    for mod in list(sys.modules.values()):
        if getattr(mod, '__name__', '').startswith('pydsm'):
            for k, v in list(vars(mod).items()):
                if v is _real_quad:
                    setattr(mod, k, _quad)
                elif v is _real_minimize:
                    setattr(mod, k, _minimize)
    if _real_conelp is None:
        import cvxopt.solvers
        import scs
        _real_conelp, _real_scs = cvxopt.solvers.conelp, scs.solve
        cvxopt.solvers.conelp, scs.solve = _conelp, _scs


QUAD = ('epsabs', 'epsrel', 'limit', 'points')


def W(f):
    """Gives an indefinite quadratic form, so that fix_pos matters."""
    return .2+np.cos(4*np.pi*f)


def aw(f):
    """The same for audio weightings: smooth and positive, instead."""
    return 1/(1+(f/1e4)**2)


Q0 = np.array([.2, 0., .5])
F1 = (np.array([.5]), np.array([.2]), 1.)


def boundaries():
    import pydsm.delsig as d
    import pydsm.ft as ft
    import pydsm.NTFdesign as N
    import pydsm.NTFdesign.filter_based as fb
    import pydsm.NTFdesign.helpers as hp
    import pydsm.NTFdesign.weighting as w
    from pydsm.NTFdesign import psychoacoustic as ps
    return {
        'idtft': (ft.idtft, lambda f, **o: f(W, 1, **o)),
        'idtft_hermitian': (ft.idtft_hermitian, lambda f, **o: f(W, 1, **o)),
        'noise_gain': (N.quantization_noise_gain,
                       lambda f, **o: f(F1, W, **o)),
        'q0_weighting': (w.q0_weighting, lambda f, **o: f(1, W, **o)),
        'from_q0': (w.ntf_fir_from_q0, lambda f, **o: f(Q0, 1.5, **o)),
        'fir': (N.ntf_fir_weighting, lambda f, **o: f(2, W, **o)),
        'hybrid': (N.ntf_hybrid_weighting, lambda f, **o: f(2, W, **o)),
        'audio': (N.ntf_fir_audio_weighting,
                  lambda f, **o: f(2, 2, aw, **o)),
        'minmax': (N.ntf_fir_minmax, lambda f, **o: f(2, 4, **o)),
        'fb_gain': (fb.quantization_noise_gain,
                    lambda f, **o: f(F1, F1, **o)),
        'fb_q0': (fb.q0_from_filter, lambda f, **o: f(1, F1, **o)),
        'fb_ntf': (fb.synthesize_ntf_from_filter,
                   lambda f, **o: f(2, F1, **o)),
        'spread': (hp.spread_fir_uc_zeros,
                   lambda f, **o: f(2, 8, lambda h: 1., **o)),
        'simulate': (d.simulateDSM,
                     lambda f, **o: f([0., .5], F1[:2]+(1.,), **o)),
        'schreier': (d.synthesizeNTF,
                     lambda f, **o: f(4, 16, 3, 1.5, **o)),
        'clans': (d.clans, lambda f, **o: f(4, 32, 5, **o)),
    }


HASQUAD = ('idtft', 'idtft_hermitian', 'noise_gain', 'q0_weighting', 'fir',
           'hybrid', 'audio', 'fb_gain', 'fb_q0', 'fb_ntf')
SOLVER = ('from_q0', 'fir', 'hybrid', 'audio', 'minmax')
NAMES = ('idtft', 'idtft_hermitian', 'noise_gain', 'q0_weighting', 'from_q0',
         'fir', 'hybrid', 'audio', 'minmax', 'fb_gain', 'fb_q0', 'fb_ntf',
         'spread', 'simulate', 'schreier', 'clans')


def variants(name):
    """Option dictionaries, valid both as call options and as changes of the
    defaults."""
    out = []
    if name in HASQUAD:
        out += [{'quad_opts': {'epsrel': 1e-5}},
                {'quad_opts': {'limit': 77, 'points': [.125]}}]
    if name in SOLVER:
        out += [{'show_progress': False},
                {'cvxopt_opts': {'maxiters': 37}},
                {'modeler': 'cvxpy'},
                {'modeler': 'picos', 'cvxopt_opts': {'abstol': 3e-6}},
                {'modeler': 'cvxpy', 'cvxpy_opts': {'solver': 'scs'}},
                {'modeler': 'cvxpy',
                 'cvxpy_opts': {'override_kktsolver': False}},
                {'modeler': 'cvxpy', 'cvxpy_opts': {
                    'override_kktsolver': True, 'solver': 'scs'},
                 'scs_opts': {'alpha': 1.25}},
                {'modeler': 'cvxpy_old', 'show_progress': False,
                 'cvxopt_opts': {'reltol': 2e-5, 'feastol': 4e-5}}]
        if name != 'minmax':
            out += [{'fix_pos': False}]
    if name == 'fb_ntf':
        out += [{'show_progress': False}, {'cvxopt_opts': {'maxiters': 37}}]
    if name == 'spread':
        out += [{'L_BFGS_B_opts': {'ftol': 1e-5}},
                {'L_BFGS_B_opts': {'maxcor': 4, 'eps': 1e-6}}]
    if name == 'simulate':
        out += [{'backend': b} for b in ('scipy', 'scipy_blas', 'bogus')]
    if name == 'schreier':
        out += [{'use_optimizer': False}, {'use_optimizer': True}]
    if name == 'clans':
        out += [{'show_progress': True}, {'slsqp_opts': {'ftol': 1e-3}},
                {'slsqp_opts': {'maxiter': 7, 'eps': 1e-6},
                 'show_progress': False}]
    return out


def compatible(name, defaults, call):
    """Are the options in the call meaningful with the rest? Otherwise the
    call may be refused."""
    e = effective(defaults, call)
    if name in SOLVER:
        scs = e['modeler'] == 'cvxpy' and e['cvxpy_opts']['solver'] == 'scs'
        if scs and 'cvxopt_opts' in call:
            return False
        if not scs and 'scs_opts' in call:
            return False
        if e['modeler'] != 'cvxpy' and 'cvxpy_opts' in call:
            return False
    return True


def effective(defaults, call):
    e = copy.deepcopy(defaults)
    for k, v in call.items():
        if isinstance(v, dict):
            e[k].update(v)
        else:
            e[k] = v
    return e


def change(defaults, var):
    """Model of the change of the defaults."""
    return effective(defaults, var)


def expected(name, defaults, call, ref):
    """What the third party code should see."""
    e = effective(defaults, call)
    out = {}
    if name in HASQUAD:
        out['quad'] = {k: e['quad_opts'].get(k) for k in QUAD}
    if name in SOLVER or name == 'fb_ntf':
        m = e['modeler'] if name in SOLVER else ref['modeler']
        m = 'old' if m == 'cvxpy_old' else m
        if m == 'cvxpy' and e['cvxpy_opts']['solver'] == 'scs':
            s = e['scs_opts']
            out['scs'] = dict(
                max_iters=s['max_iters'], eps_abs=s['eps'],
                eps_rel=s['eps'], alpha=s['alpha'],
                normalize=s['normalize'], use_indirect=s['use_indirect'],
                acceleration_lookback=s.get('acceleration_lookback'),
                verbose=e['show_progress'])
        else:
            c = dict(e['cvxopt_opts'])
            c.update(show_progress=e['show_progress'], modeler=m)
            if name in ('from_q0', 'fir', 'hybrid'):
                c['nan'] = not e['fix_pos']
            out['conelp'] = c
    if name == 'spread':
        out['minimize'] = e['L_BFGS_B_opts']
    if name == 'clans':
        out['minimize'] = dict(e['slsqp_opts'], disp=e['show_progress'])
    if name == 'simulate':
        out['result'] = 'RuntimeError' if e['backend'] == 'bogus' else 'ok'
    if name == 'schreier':
        out['result'] = 'optimized' if e['use_optimizer'] else 'tabled'
    return out


def invoke(name, fn, call, opts):
    """Perform a call, return what was seen at the boundary."""
    global LOG
    LOG = []
    res = None
    from cvxopt import solvers
    keep = dict(solvers.options)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            res = call(fn, **opts)
    except Stop:
        pass
    except RuntimeError as e:
        if name != 'simulate':
            raise
        res = type(e).__name__
    except (ValueError, ArithmeticError, np.linalg.LinAlgError) as e:
        # not a number in the problem data
        if name not in ('from_q0', 'fir', 'hybrid'):
            raise
        LOG.append(('conelp', {'nan': True}))
    finally:
        log, LOG = LOG, None
        solvers.options.clear()
        solvers.options.update(keep)
    seen = {}
    for k, v in log:
        if k == 'quad':
            seen.setdefault('quads', []).append(v)
        else:
            seen[k] = v
    if name == 'simulate':
        seen['result'] = 'RuntimeError' if res == 'RuntimeError' else 'ok'
    if name == 'schreier':
        # opt=3 without optimizer leaves the zeros where they are
        z = res[0]
        seen['result'] = 'tabled' if Z_TABLED is None or (
            np.allclose(np.sort_complex(z), Z_TABLED, atol=1e-12)) \
            else 'optimized'
    return seen


Z_TABLED = None


def agree(R, name, seen, want, **info):
    ok = True
    if 'quad' in want:
        # psychoacoustic weightings add nothing to the points
        q = seen.get('quads', [])
        ok &= R.check(q and all(x == want['quad'] for x in q), 'quadrature',
                      fn=name, seen=q[:2], want=want['quad'], **info)
    for k in ('minimize', 'result', 'scs'):
        if k in want or k in seen:
            s, w = seen.get(k), want.get(k)
            if k == 'minimize' and s is not None and w is not None:
                s = {x: s.get(x) for x in w}
            ok &= R.check(s == w, k, fn=name, seen=s, want=w, **info)
    if 'conelp' in want or 'conelp' in seen:
        s, w = seen.get('conelp'), want.get('conelp')
        if s is None or w is None:
            ok &= R.check(False, 'solver', fn=name, seen=s, want=w, **info)
        elif set(s) == {'nan'}:
            ok &= R.check(w.get('nan', False), 'fix_pos', fn=name, seen=s,
                          want=w, **info)
        else:
            for x in w:
                if x == 'feastol' and w['modeler'] == 'picos':
                    continue
                ok &= R.check(s[x] == w[x], 'solver option', fn=name,
                              option=x, seen=s, want=w, **info)
    return ok


class System:
    """The real functions next to the model of their defaults."""

    def __init__(self, R):
        global Z_TABLED
        self.R = R
        self.B = boundaries()
        hooks()
        self.start = {n: copy.deepcopy(f.default_options)
                      for n, (f, _) in self.B.items()}
        self.dicts = {n: f.default_options for n, (f, _) in self.B.items()}
        self.inner = {n: dict(f.default_options)
                      for n, (f, _) in self.B.items()}
        if Z_TABLED is None:
            from pydsm.delsig import synthesizeNTF
            Z_TABLED = np.sort_complex(
                synthesizeNTF(4, 16, 3, 1.5, use_optimizer=False)[0])
            z = synthesizeNTF(4, 16, 3, 1.5, use_optimizer=True)[0]
            R.need(not np.allclose(np.sort_complex(z), Z_TABLED),
                   'optimizer makes no difference')
        self.model = copy.deepcopy(self.start)

    def reset(self):
        # the very same objects, or sharing would go unnoticed
        for n, (f, _) in self.B.items():
            f.default_options = d = self.dicts[n]
            d.clear()
            for k, v in self.start[n].items():
                if isinstance(v, dict):
                    self.inner[n][k].clear()
                    self.inner[n][k].update(v)
                    d[k] = self.inner[n][k]
                else:
                    d[k] = v
        self.model = copy.deepcopy(self.start)

    def change(self, name, i, how):
        """Change the defaults of a function."""
        var = variants(name)[i]
        f = self.B[name][0]
        self.model[name] = change(self.model[name], var)
        if how == 'replace':
            f.default_options = copy.deepcopy(self.model[name])
        else:
            for k, v in var.items():
                if isinstance(v, dict):
                    if how == 'nested':
                        f.default_options[k].update(v)
                    else:
                        f.default_options[k] = dict(f.default_options[k],
                                                    **v)
                else:
                    f.default_options[k] = v
        self.R.step()

    def defaults_ok(self, **info):
        for n, (f, _) in self.B.items():
            self.R.check(f.default_options == self.model[n],
                         'defaults changed', fn=n, got=f.default_options,
                         want=self.model[n], **info)

    def call(self, name, i, **info):
        var = {} if i is None else variants(name)[i]
        if not compatible(name, self.model[name], var):
            return
        f, call = self.B[name]
        passed = copy.deepcopy(var)
        self.R.step()
        try:
            seen = invoke(name, f, call, passed)
        except Exception as e:
            self.R.fail('call failed', fn=name, opts=var, error=repr(e),
                        **info)
            return
        self.R.check(passed == var, 'caller options changed', fn=name,
                     opts=var, got=passed, **info)
        want = expected(name, self.model[name], var, self.model['from_q0'])
        agree(self.R, name, seen, want, opts=var, **info)
        self.R.outcome(name, repr(sorted(want.items())))


HOW = ('plain', 'nested', 'replace')


def cross_cases(tier):
    for n in NAMES:
        for i in range(len(variants(n))):
            yield {'name': n, 'i': i}


def affects(changed, called):
    """The deprecated fb_ntf has no options of its own for the modeler."""
    return not (called == 'fb_ntf' and changed == 'from_q0')


def cross_run(R, name, i):
    """A change of defaults, then calls to everything."""
    S = System(R)
    try:
        for how in HOW:
            S.reset()
            S.change(name, i, how)
            info = dict(changed=(name, i), how=how)
            R.state(name, i, how)
            S.defaults_ok(**info)
            for g in NAMES:
                if not affects(name, g):
                    continue
                vs = [None]+(list(range(len(variants(g))))
                             if g == name or how == 'nested' else [])
                for j in vs:
                    R.state(name, i, how, g, j)
                    S.call(g, j, **info)
            S.defaults_ok(after='calls', **info)
            R.trace()
    finally:
        S.reset()
    R.sample(dict(name=name, change=variants(name)[i]))


def word_cases(tier):
    for n in NAMES:
        k = len(variants(n))
        for a in range(k):
            yield {'name': n, 'first': a,
                   'depth': 3 if tier == 'quick' else 4}


def word_run(R, name, first, depth):
    """All the words of changes and calls within a function, starting by a
    change."""
    S = System(R)
    k = len(variants(name))
    acts = [('set', i) for i in range(k)]+[('call', None)]+[
        ('call', i) for i in range(k)]
    try:
        for rest in itertools.product(acts, repeat=depth-1):
            if rest[-1][0] == 'set':
                continue
            S.reset()
            word = (('set', first),)+rest
            R.state(word)
            for n, (op, i) in enumerate(word):
                if op == 'set':
                    S.change(name, i, 'nested' if n % 2 else 'plain')
                else:
                    S.call(name, i, word=word)
            S.defaults_ok(word=word)
            R.trace()
    finally:
        S.reset()


def pair_cases(tier):
    for a in NAMES:
        for b in NAMES:
            if a != b:
                yield {'a': a, 'b': b}


def pair_run(R, a, b):
    """Two functions changed, in any manner, and both called."""
    S = System(R)
    q = {'idtft', 'q0_weighting', 'noise_gain'}
    try:
        for i, j in itertools.product(range(len(variants(a))),
                                      range(len(variants(b)))):
            if a in SOLVER and b in SOLVER and i != j and j:
                continue
            S.reset()
            S.change(a, i, 'nested')
            S.change(b, j, 'plain')
            R.state(i, j)
            info = dict(changed=(a, i, b, j))
            for n, g in ((a, i), (b, j), (a, None), (b, None)):
                if affects(a, n) and affects(b, n):
                    S.call(n, None if g is None else 0, **info)
            S.defaults_ok(**info)
            R.trace()
    finally:
        S.reset()


def unknown_run(R, name):
    """Unknown options are refused, whatever else is passed."""
    S = System(R)
    f, call = S.B[name]
    for var in [{}]+variants(name):
        if not compatible(name, S.model[name], var):
            continue
        for bad in ('bogus', 'quad_opt', 'Modeler', 'epsrel'):
            o = dict(copy.deepcopy(var), **{bad: 1})
            keep = copy.deepcopy(o)
            R.state(repr(var), bad)
            R.step()

            def go():
                return invoke(name, f, call, o)
            R.raises(TypeError, go, 'unknown option', opts=o)
            R.check(o == keep, 'caller options changed', opts=o)
        R.trace()
    if name in SOLVER:
        for m in ('bogus', None, 'CVXPY'):
            R.raises(ValueError, lambda: call(f, modeler=m,
                                              show_progress=False),
                     'unknown modeler', m=m)
    S.defaults_ok()
    # two functions never share nested dictionaries
    for n, (g, _) in S.B.items():
        if n == name:
            continue
        R.check(g.default_options is not f.default_options, 'shared', n=n)
        for k, v in g.default_options.items():
            for k2, v2 in f.default_options.items():
                if isinstance(v, dict):
                    R.check(v is not v2, 'shared', n=n, k=k, k2=k2)


def digest_run(R, m):
    """digested_options itself, over all small option sets."""
    from pydsm.utilities import digested_options
    D = {'a': 1, 'b': 2, 'd': {'x': 1, 'y': 2}, 'e': {}}
    vals = {'a': (None, 5), 'b': (None, 0), 'd': (None, {}, {'x': 9},
                                                  {'z': 3, 'y': 0}),
            'e': (None, {'q': 1}), 'w': (None, 7)}
    names = list(vals)
    for c in itertools.product(*[range(len(vals[n])) for n in names]):
        opts = {n: copy.deepcopy(vals[n][i]) for n, i in zip(names, c)
                if i}
        for keys in ([], ['a'], ['b', 'a']):
            for mk in ([], ['d'], ['e', 'd']):
                for chk in (True, False):
                    o = copy.deepcopy(opts)
                    inner = o.get('d')
                    R.state(c, len(keys), len(mk), chk)
                    R.step()
                    left = {k: v for k, v in opts.items()
                            if k not in keys+mk}
                    want = {k: opts.get(k, D[k]) for k in keys}
                    want.update({k: dict(D[k], **opts.get(k, {}))
                                 for k in mk})
                    d = copy.deepcopy(D)
                    if chk and left:
                        R.raises(TypeError, lambda: digested_options(
                            o, d, keys, mk, chk), 'left over', opts=opts)
                        continue
                    got = digested_options(o, d, keys, mk, chk)
                    R.check(got == want, 'digested', opts=opts, got=got,
                            want=want)
                    R.check(o == left, 'removed', opts=opts, left=o)
                    R.check(d == D, 'defaults changed')
                    for k in mk:
                        got[k]['new'] = 1
                    R.check(d == D and inner == opts.get('d'), 'alias',
                            opts=opts)
                    R.trace()


FAMILIES = {
    'cross': (cross_cases, cross_run),
    'words': (word_cases, word_run),
    'pairs': (pair_cases, pair_run),
    'unknown': (lambda tier: [{'name': n} for n in NAMES], unknown_run),
    'digest': (lambda tier: [{'m': 0}], digest_run),
}
