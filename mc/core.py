"""Recording of one explored case: states, transitions, traces, violations."""
import hashlib
import json
import os
import signal
import sys
import traceback
import warnings

import numpy as np


class CaseTimeout(BaseException):
    pass


class StopCase(BaseException):
    """Raised after a violation that makes going on with the case pointless."""


def canon(x):
    """JSON-able, deterministic rendering of a value."""
    if isinstance(x, dict):
        return {str(k): canon(x[k]) for k in sorted(x, key=str)}
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return {'shape': list(x.shape), 'head': canon(x.ravel()[:16])}
        return canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return '%r' % complex(x)
    if x is None or isinstance(x, str):
        return x
    return repr(x)[:300]


def freeze(x):
    """Hashable version of a key."""
    if isinstance(x, (list, tuple)):
        return tuple(freeze(i) for i in x)
    if isinstance(x, np.ndarray):
        return freeze(x.tolist())
    if isinstance(x, dict):
        return tuple((k, freeze(x[k])) for k in sorted(x))
    return x


class Rec(object):
    MAXV = 12

    def __init__(self, prop, family, case):
        self.prop, self.family, self.case = prop, family, case
        self.states = set()
        self.nstates = 0
        self.steps = 0
        self.traces = 0
        self.checks = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []

    # -- accounting ------------------------------------------------------
    def state(self, *key):
        """Register a model state; True when it was not seen in this case."""
        key = freeze(key)
        if key in self.states:
            return False
        self.states.add(key)
        return True

    def bulk_states(self, n):
        """States known distinct by construction (enumerated vectors)."""
        self.nstates += int(n)

    def step(self, n=1):
        self.steps += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, *o):
        if len(self.outcomes) < 4096:
            self.outcomes.add(freeze(o))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(canon(s))

    # -- verdicts --------------------------------------------------------
    def fail(self, name, **info):
        if len(self.violations) < self.MAXV:
            key = '%s|%s|%s' % (self.family, name,
                                json.dumps(canon(self.case), sort_keys=True))
            self.violations.append({'key': key, 'name': name,
                                    'family': self.family,
                                    'case': canon(self.case),
                                    'info': canon(info)})

    def check(self, ok, name, **info):
        self.checks += 1
        if not bool(ok):
            self.fail(name, **info)
            return False
        return True

    def need(self, ok, name, **info):
        if not self.check(ok, name, **info):
            raise StopCase()

    def close(self, got, want, name, rtol=1e-9, atol=1e-9, **info):
        """got and want agree in shape and values."""
        self.checks += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            ok = (g.shape == w.shape and
                  np.issubdtype(g.dtype, np.number) and
                  bool(np.allclose(g, w, rtol=rtol, atol=atol,
                                   equal_nan=False)))
        except Exception as e:      # not even comparable
            ok = False
            info = dict(info, error=repr(e))
        if not ok:
            self.fail(name, got=got, want=want, **info)
        return ok

    def raises(self, excs, fn, name, match=None, **info):
        """fn() raises one of excs (with match within the message)."""
        self.checks += 1
        try:
            r = fn()
        except excs as e:
            if match is not None and match not in str(e):
                self.fail(name, error=repr(e), want=match, **info)
                return False
            return True
        except Exception as e:
            self.fail(name, error=repr(e), want=repr(excs), **info)
            return False
        self.fail(name, returned=r, want=repr(excs), **info)
        return False

    def result(self):
        return {'states': len(self.states) + self.nstates,
                'transitions': self.steps,
                'traces': self.traces, 'checks': self.checks,
                'outcomes': [hashlib.md5(repr(o).encode()).hexdigest()[:12]
                             for o in self.outcomes],
                'samples': self.samples, 'violations': self.violations}


def run_case(prop, family, fn, case, timeout):
    rec = Rec(prop, family, case)

    def onalarm(sig, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(timeout))
    errs = np.geterr()
    # the solvers are talkative
    sys.stdout.flush()
    sys.stderr.flush()
    out, err = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(rec, **case)
    except StopCase:
        pass
    except CaseTimeout:
        rec.fail('timeout', seconds=timeout)
    except MemoryError:
        rec.fail('memory', error='MemoryError')
    except Exception as e:
        rec.fail('exception', error=repr(e),
                 where=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        np.seterr(**errs)
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(out, 1)
        os.dup2(err, 2)
        for fd in (out, err, null):
            os.close(fd)
    return rec.result()
