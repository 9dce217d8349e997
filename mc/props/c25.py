"""C25: calls are pure; nothing leaks into arguments, globals, later calls."""
import copy
import functools
import inspect
import itertools
import os
import pickle

import numpy as np

from .. import catalog
from ..catalog import loose, outcome, same

BOUNDS = ('every public call of a catalog of over 170 (all the functions, '
          'most with several forms of the arguments, successful or not): '
          'arguments compared with a deep copy, repeated with the same, with '
          'read-only and with fresh arguments, under three floating point '
          'error policies, and after spoiling what was returned; every '
          'ordered pair of calls, each result compared with the one of the '
          'same call in a fresh process; every call and those that differ from '
          'it for one argument (or part of it, or omitted), in two orders; '
          'thorough: also every ordered triple '
          'of the inexpensive calls.')
ASSUMPTIONS = ['results are compared with 1e-9 relative tolerance (1e-5 '
               'when they come from a solver)',
               'what is returned may alias what is passed (views)']
CHUNKS = 48
_cat = None
_ref = {}


def cat():
    global _cat
    if _cat is None:
        import matplotlib
        matplotlib.use('Agg')
        _cat = catalog.calls()
    return _cat


def child(fn, *args):
    """Value of fn in a forked process, where pydsm has not been used yet."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(*args), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('died',)


def close_figures():
    import sys
    if 'matplotlib.pyplot' in sys.modules:
        sys.modules['matplotlib.pyplot'].close('all')


def call(name):
    f, b, _ = cat()[name]
    args, kwargs = b()
    return outcome(f, args, kwargs)


def agree(name, x, y):
    return (loose if cat()[name][2] == 2 else same)(x, y)


def fresh(name):
    if name not in _ref:
        _ref[name] = child(call, name)
    return _ref[name]


def arrays(x):
    """All the arrays in a nest."""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            for y in arrays(v):
                yield y
    elif isinstance(x, (list, tuple)):
        for v in x:
            for y in arrays(v):
                yield y


def lock(x):
    for y in arrays(x):
        y.setflags(write=False)


def identical(x, y):
    """Same structure, types and values."""
    if type(x) is not type(y):
        return False
    if isinstance(x, np.ndarray):
        return (x.shape == y.shape and x.dtype == y.dtype and
                x.strides == y.strides and
                x.tobytes() == y.tobytes())
    if isinstance(x, dict):
        return (list(x) == list(y) and
                all(identical(x[k], y[k]) for k in x))
    if isinstance(x, (list, tuple)):
        return (len(x) == len(y) and
                all(identical(i, j) for i, j in zip(x, y)))
    if callable(x):
        return x is y
    return repr(x) == repr(y)


def spoil(x):
    """Destroy what a caller owns."""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.append('spoiled')
    elif isinstance(x, np.ndarray) and x.dtype.kind in 'fciub':
        try:
            x[...] = 77
        except ValueError:
            pass


def public_state(own=False):
    """What the rest of a program can see of PyDSM, numpy and, for what does
    not go through other modelers, CVXOPT."""
    import pydsm.audio_weightings as aw
    import pydsm.utilities as ut
    st = {'geterr': np.geterr(), 'print': repr(np.get_printoptions()),
          'random': [str(i) for i in np.random.get_state()],
          'EPS': ut.EPS, 'cwd': os.getcwd()}
    if own:
        import cvxopt.solvers
        st['CVXOPT options'] = dict(cvxopt.solvers.options)
    for n in 'abcdf':
        st[n+'_zpk'] = copy.deepcopy(getattr(aw, n+'_zpk'))
    for name, (f, b, _) in cat().items():
        d = getattr(f, 'default_options', None)
        if d is not None:
            st['defaults of '+f.__name__] = copy.deepcopy(d)
    return st


def changes(before):
    after = public_state('CVXOPT options' in before)
    return sorted(k for k in before if not identical(before[k], after[k]))


def one(name):
    """Everything about the purity of one call; list of what is wrong."""
    bad = []
    f, b, cost = cat()[name]
    ref = call(name)
    close_figures()

    def judge(what, got, *more):
        if not agree(name, got, ref):
            bad.append((what, str(got)[:400], str(ref)[:400])+more)

    n = 0
    for mode in ('warn', 'ignore', 'raise'):
        args, kwargs = b()
        keep = copy.deepcopy((args, kwargs))
        old = np.seterr(all=mode)
        own = not name.endswith(('cvxpy', 'picos'))
        if own:
            # what another part of the program could have set
            import cvxopt.solvers
            cvxopt.solvers.options.clear()
            cvxopt.solvers.options.update(show_progress=False, maxiters=88)
        st = public_state(own)
        try:
            got = outcome(f, args, kwargs)
        finally:
            ch = changes(st)
            np.seterr(**old)
        close_figures()
        n += 1
        if mode != 'raise':
            judge('with numpy errors set to '+mode, got)
        if ch:
            bad.append(('global state changed', mode, ch))
        if not identical(keep, (args, kwargs)):
            bad.append(('arguments changed', mode, str(keep)[:400],
                        str((args, kwargs))[:400]))
    args, kwargs = b()
    for i in range(2):
        judge('same arguments again', outcome(f, args, kwargs), i)
        n += 1
    args, kwargs = b()
    lock((args, kwargs))
    judge('read-only arguments', outcome(f, args, kwargs))
    # Results belong to the caller
    args, kwargs = b()
    try:
        r = f(*args, **kwargs)
    except Exception:
        r = None
    spoil(r)
    judge('after results were spoiled', call(name))
    spoil(kwargs)
    spoil(args)
    judge('after arguments were spoiled', call(name))
    close_figures()
    return bad, n+5


def single_cases(tier):
    return [{'chunk': i} for i in range(CHUNKS)]


def single_run(R, chunk):
    names = sorted(cat())[chunk::CHUNKS]
    for name in names:
        r = child(one, name)
        R.need(r[0] != 'died', 'died', call=name)
        bad, n = r
        R.state(name)
        R.step(n)
        R.trace()
        R.check(not bad, 'purity', call=name, wrong=bad[:3])
        R.outcome(name, fresh(name)[0])


def history(words):
    """Runs calls one after the other; index and result of the wrong ones."""
    bad = []
    st = public_state()
    for i, (name, ref) in enumerate(words):
        got = call(name)
        if not agree(name, got, ref):
            bad.append((i, str(got)[:400], str(ref)[:400]))
            if len(bad) > 2:
                break
    close_figures()
    return bad, changes(st)


def run_history(R, words, **info):
    h = [(w, fresh(w)) for w in words]
    r = child(history, h)
    R.need(r[0] != 'died', 'died', **info)
    bad, ch = r
    R.check(not ch, 'global state changed', changed=ch, **info)
    for i, got, ref in bad:
        # Look for a minimal history
        for j in range(i):
            r = child(history, [h[j], h[i]])
            if r[0] == 'died' or r[0]:
                R.fail('call after call', first=words[j], then=words[i],
                       got=got, want=ref)
                break
        else:
            R.fail('call after history', calls=words[max(0, i-20):i],
                   then=words[i], got=got, want=ref)
    R.step(len(words))
    R.trace()


def pair_names(tier):
    names = sorted(cat())
    if tier == 'quick':
        # One form for each of the expensive functions with each modeler
        names = [n for n in names if n not in (
            'minmax bp', 'hybrid bad', 'audio a', 'from_q0 norm')]
    return names


def pair_cases(tier):
    return [{'chunk': i, 'tier': tier} for i in range(CHUNKS)]


def pair_run(R, chunk, tier):
    """All the pairs with the first call of one chunk, both ways."""
    names = pair_names(tier)
    for i in range(chunk, len(names), CHUNKS):
        f = names[i]
        words = [f]
        for g in names[i:]:
            words += [g, f]
            R.state(f, g)
            R.state(g, f)
        run_history(R, words, first=f)


def triple_cases(tier):
    if tier == 'quick':
        return [{'chunk': i, 'of': 8, 'stride': 9} for i in range(8)]
    return [{'chunk': i, 'of': 64, 'stride': 2} for i in range(64)]


def triple_run(R, chunk, of, stride):
    """All the words of three calls of a set of inexpensive ones."""
    names = [n for n in sorted(cat()) if cat()[n][2] == 0][::stride]
    for f in names[chunk::of]:
        for g in names:
            words = []
            for h in names:
                words += [f, g, h]
                R.state(f, g, h)
            run_history(R, words, first=f, second=g)


# Calls that differ for a single argument

def other_values(x):
    """(description, other value of the same kind)"""
    if x is None or isinstance(x, (str, dict)):
        return
    if isinstance(x, (bool, np.bool_)):
        yield 'not', not x
    elif isinstance(x, (int, np.integer)):
        yield 'next', x+1
        if x > 1:
            yield 'previous', x-1
        yield 'fraction', x+.5
    elif isinstance(x, (float, np.floating)):
        yield 'less', x*.9375
        yield 'close', x+1e-4*(abs(x) or 1)*(-1 if x > 0 else 1)
    elif isinstance(x, (complex, np.complexfloating)):
        yield 'less', x*.9375
    elif callable(x):
        yield 'half', functools.wraps(x)(lambda *a, **k: .5*x(*a, **k))
    elif isinstance(x, np.ndarray):
        if x.size and x.dtype.kind in 'fciu':
            for i in sorted({0, x.size//2, x.size-1}):
                y = x.copy()
                y.flat[i] = x.flat[i]+1 if x.dtype.kind in 'iu' else \
                    x.flat[i]*.9375 or .125
                yield 'item %d' % i, y
            if x.dtype.kind in 'fc':
                # Invisible when printed
                y = x.copy()
                y.flat[-1] *= 1-4e-9
                yield 'last digits', y
            if x.ndim == 1 and x.size > 1:
                yield 'shorter', x[:-1].copy()
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            for d, w in other_values(v):
                y = list(x)
                y[i] = w
                yield '%d %s' % (i, d), type(x)(y)
        if x and not isinstance(x[0], np.ndarray):
            yield 'shorter', x[:-1]


def around(name):
    """Where an argument may be changed: (key, index of the value)"""
    f, b, cost = cat()[name]
    args, kwargs = b()
    out = list(enumerate(args))+sorted(kwargs.items())
    out += [(k, v) for k, v in omitted(name).items()]
    return [(k, d) for k, v in out for d, _ in other_values(v)]


def omitted(name):
    """Parameters and options left to their default."""
    f, b, cost = cat()[name]
    args, kwargs = b()
    try:
        par = inspect.signature(f).parameters
    except (TypeError, ValueError):
        return {}
    out = {}
    for i, (k, p) in enumerate(par.items()):
        if i >= len(args) and k not in kwargs and p.default is not p.empty:
            out[k] = p.default
    if any(p.kind is p.VAR_KEYWORD for p in par.values()):
        for k, v in getattr(f, 'default_options', {}).items():
            if k not in kwargs and k not in out and k != 'show_progress':
                out[k] = v
    return out


def changed(name, key, how):
    f, b, cost = cat()[name]
    args, kwargs = b()
    args = list(args)
    box = args if isinstance(key, int) else kwargs
    old = omitted(name)[key] if box is kwargs and key not in kwargs \
        else box[key]
    box[key] = dict(other_values(old))[how]
    return outcome(f, tuple(args), kwargs)


def around_first(name, places):
    """The call, then each of the others followed by it."""
    ref = call(name)
    res, bad = [], []
    for k, d in places:
        res.append(changed(name, k, d))
        got = call(name)
        if not agree(name, got, ref):
            bad.append(((k, d), str(got)[:400]))
    close_figures()
    return ref, res, bad


def around_last(name, places):
    """The others in the opposite order, then the call."""
    res = [changed(name, k, d) for k, d in places[::-1]][::-1]
    ref = call(name)
    close_figures()
    return ref, res


def around_names(tier):
    names = sorted(cat())
    if tier == 'quick':
        names = [n for n in names if cat()[n][2] < 2 or
                 n.endswith(('cvxpy_old', 'poles', 'bp'))]
    return names


def around_cases(tier):
    return [{'name': n, 'part': p} for n in around_names(tier)
            for p in range(1 if cat()[n][2] < 2 else 3)]


def around_run(R, name, part):
    places = around(name)
    if cat()[name][2] == 2:
        places = places[part::3]
    ref = fresh(name)
    one, two = child(around_first, name, places), \
        child(around_last, name, places)
    R.need(one[0] != 'died' and two[0] != 'died', 'died', call=name)
    R.check(agree(name, one[0], ref) and not one[2],
            'call after another with one argument changed', call=name,
            wrong=one[2][:3])
    if cat()[name][2] < 2:
        alone = [child(changed, name, k, d) for k, d in places]
        for (k, d), x, y in zip(places, alone, one[1]):
            R.step(1)
            R.check(agree(name, x, y), 'differs from the call in a new process',
                    call=name, argument=k, change=d, got=str(y)[:300],
                    want=str(x)[:300])
    R.check(agree(name, two[0], ref), 'call after all those with one argument '
            'changed', call=name, got=str(two[0])[:300], want=str(ref)[:300])
    for (k, d), x, y in zip(places, one[1], two[1]):
        R.state(name, k, d)
        R.step(2)
        R.outcome(name, d, x[0])
        R.check(agree(name, x, y), 'depends on earlier calls', call=name,
                argument=k, change=d, got=str(x)[:300], want=str(y)[:300])
    R.trace(2)


FAMILIES = {
    'neighbours': (around_cases, around_run),
    'single': (single_cases, single_run),
    'pairs': (pair_cases, pair_run),
    'triples': (triple_cases, triple_run),
}
