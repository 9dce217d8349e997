"""C27: calls overlapping in time, in any interleaving, do not interfere."""
import sys
import threading

import numpy as np

from .. import catalog
from ..catalog import loose, outcome
from .c25 import child, changes, public_state

BOUNDS = ('every call of the catalog but plots (quick: a part of those that '
          'use a convex solver), suspended at each line of PyDSM it executes '
          '(but those of the expressions of cvxpy_tdr; first, second and '
          'last visit; 25 or 8 points evenly taken for the expensive calls '
          'in the quick tier): there, inside of it, itself and the same call '
          'with other arguments, after one or the other; all the inexpensive '
          'calls of the catalog too (quick: at up to 60 such points); and '
          'the schedules of two threads with two switches at such points '
          '(quick: 14 by 14 of them, evenly taken), for each call with '
          'itself and with calls of the same function with other arguments '
          '(thorough: of the same module).')
ASSUMPTIONS = ['threads are switched between lines of Python code; compiled '
               'code is atomic, as it runs with the interpreter lock',
               'results are compared with 1e-9 relative tolerance '
               '(1e-5 from solvers)']
CHUNKS = 40
STEP_TIMEOUT = 60
_cat = None
_ref = {}
_points = {}


def vary(x, top=True):
    """Other arguments of the same kind: floating point values shrunk."""
    if isinstance(x, np.ndarray):
        return x*.875 if x.dtype.kind in 'fc' else x.copy()
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (float, complex)):
        return x*.9375
    if isinstance(x, dict):
        return dict((k, vary(v, False) if k not in
                     ('quad_opts', 'slsqp_opts', 'L_BFGS_B_opts') else v)
                    for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x)(vary(v, False) for v in x)
    return x


def bump(x):
    """Other arguments of the same kind: integers increased."""
    if isinstance(x, np.ndarray) and x.dtype.kind == 'i':
        return x+1
    if isinstance(x, bool) or not isinstance(x, (int, tuple, list, dict)):
        return x
    if isinstance(x, int):
        return x+1
    if isinstance(x, (tuple, list)):
        return type(x)(bump(v) for v in x)
    return dict((k, bump(v)) for k, v in x.items())


def cat():
    """name -> (function, builder, cost), with the variants 'name ~'."""
    global _cat
    if _cat is None:
        _cat = {}
        for name, (f, b, cost) in catalog.calls(False).items():
            _cat[name] = (f, b, cost)
            base = outcome(f, *b())
            for tag, alter in ((' ~', vary), (' ~ 1', bump)):
                def b2(b=b, alter=alter):
                    return alter(tuple(b()[0])), alter(b()[1])
                try:
                    r = outcome(f, *b2())
                except Exception:
                    continue
                if r[0] == base[0] and not (loose if cost == 2 else
                                            catalog.same)(r, base):
                    _cat[name+tag] = (f, b2, cost)
    return _cat


def base_names():
    return sorted(n for n in cat() if ' ~' not in n)


QUICK = ('from_q0 cvxpy_old', 'fir cvxpy_old', 'hybrid cvxpy_old',
         'from_q0 cvxpy', 'from_q0 picos', 'hybrid bad')


def hosts(tier):
    return [n for n in base_names() if tier != 'quick' or
            cat()[n][2] < 2 or n in QUICK]


def variants(name):
    return [n for n in (name+' ~', name+' ~ 1') if n in cat()]


def same(name, x, y):
    return (loose if cat()[name][2] == 2 else catalog.same)(x, y)


def ref(name):
    if name not in _ref:
        f, b, _ = cat()[name]
        outcome(f, *b())
        _ref[name] = outcome(f, *b())
    return _ref[name]


def family_of(name):
    """What is called: the function, or for wrappers what they wrap."""
    f, b, _ = cat()[name]
    if f in (catalog.call_fun, catalog.call_mult, catalog.call_itpl):
        return f.__name__
    return f.__module__+'.'+f.__name__


def module_of(name):
    f = family_of(name)
    return f.rsplit('.', 1)[0] if '.' in f else f


class Tracer(object):
    """Counts the lines of PyDSM that are executed, and stops at some."""

    def __init__(self, stop=(), at=None, record=None):
        self.n = 0
        self.stop = stop
        self.at = at
        self.record = record

    def glob(self, frame, event, arg):
        name = frame.f_code.co_filename
        # the expression trees of the modeler are too fine a grain
        if event == 'call' and '/pydsm/' in name and \
                ('/cvxpy_tdr/' not in name or '/procedures/' in name and
                 frame.f_code.co_name == 'call_solver'):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            k = self.n
            self.n += 1
            if self.record is not None:
                self.record.append((frame.f_code, frame.f_lineno))
            if k in self.stop:
                self.at(k)
        return self.local

    def run(self, fn, *a):
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return fn(*a)
        finally:
            sys.settrace(old)


def points(name):
    """Events where the call is to be suspended: first, second and last
    visit of each line."""
    if name not in _points:
        f, b, _ = cat()[name]
        ref(name)
        rec = []
        args, kwargs = b()
        Tracer(record=rec).run(outcome, f, args, kwargs)
        seen = {}
        for k, w in enumerate(rec):
            v = seen.setdefault(w, [])
            if len(v) < 2:
                v.append(k)
            elif len(v) == 2:
                v.append(k)
            else:
                v[2] = k
        _points[name] = sorted(set(k for v in seen.values() for k in v))
    return _points[name]


def first_points(name, n):
    """At most n points, evenly taken."""
    p = points(name)
    if len(p) <= n:
        return p
    return [p[i*len(p)//n] for i in range(n)]


# -- one call inside another, at every point ---------------------------------
def inside_cases(tier):
    return [{'chunk': i, 'tier': tier} for i in range(CHUNKS)]


def inside(name, guests, stop):
    """Run name, executing all the guests at the points in stop."""
    f, b, _ = cat()[name]
    bad = []

    def at(k):
        for g in guests:
            gf, gb, _ = cat()[g]
            r = outcome(gf, *gb())
            if not same(g, r, ref(g)) and len(bad) < 3:
                bad.append(('guest', g, str(r)[:300], str(ref(g))[:300]))
    args, kwargs = b()
    t = Tracer(stop=set(stop), at=at)
    r = t.run(outcome, f, args, kwargs)
    if not same(name, r, ref(name)):
        bad.append(('host', name, str(r)[:300], str(ref(name))[:300]))
    return bad


def alone(name):
    f, b, _ = cat()[name]
    return outcome(f, *b())


def wrong_after(names):
    """Calls that give a wrong result now."""
    return [('afterwards', g, str(r)[:300], str(ref(g))[:300])
            for g, r in ((g, alone(g)) for g in names)
            if not same(g, r, ref(g))]


def inside_all(name, tier):
    """All the points, all the guests; what is wrong, with its causes."""
    mine = family_of(name)
    light = [g for g in sorted(cat()) if
             family_of(g) == mine and cat()[name][2] < 2 or
             cat()[g][2] == 0 and (tier != 'quick' or module_of(g) ==
                                   module_of(name) or g.endswith(' ~'))]
    heavy = cat()[name][2] > 0
    if heavy:
        light = [g for g in light if cat()[g][2] == 0 or g == name or
                 g in variants(name)]
    for g in light:
        ref(g)
    st = public_state()
    # what was run first must not matter: the host's partner goes first
    light.sort(key=lambda g: (g not in variants(name),
                              family_of(g) != mine, g))
    pts = points(name)
    if heavy and tier == 'quick':
        pts = first_points(name, 25 if cat()[name][2] == 1 else 8)
    out = []
    n = 0
    # after the partner, inside of itself; and inside of the partner
    for k, o in [(k, o) for k in pts for o in variants(name)]:
        for g, h, prime in ((name, name, o), (name, o, o), (name, o, name)):
            n += 1
            alone(prime)
            bad = inside(g, [h], [k]) or wrong_after((g, h))
            if bad:
                out.append((k, g, h, prime, bad))
        if len(out) > 2:
            break
    if cat()[name][2] == 2:
        light = [name]+variants(name)
    few = first_points(name, 60) if tier == 'quick' else pts
    for k in few if not out else ():
        n += 1
        bad = inside(name, light, [k])
        if bad:
            for g in light:
                one = inside(name, [g], [k])
                if one:
                    out.append((k, g, one))
                    break
            else:
                out.append((k, 'all', bad))
            if len(out) > 2:
                break
    return n, len(light), out, changes(st)


def inside_run(R, chunk, tier):
    for name in hosts(tier)[chunk::CHUNKS]:
        r = child(inside_all, name, tier)
        R.need(r[0] != 'died', 'died', call=name)
        n, m, bad, ch = r
        R.bulk_states(n*m)
        R.step(n*(m+1))
        R.trace(n)
        R.check(not bad, 'a call inside another', call=name, wrong=bad)
        R.check(not ch, 'global state changed', call=name, changed=ch)
        R.outcome(name, n > 0)
        R.sample({'call': name, 'points': n, 'guests': m})


# -- two threads --------------------------------------------------------------
class Stuck(Exception):
    pass


def overlap(a, b, k, j):
    """A runs to its point k, B to its point j (None: to the end), then A to
    the end, then B to the end.  Results of both, and wrong order if any."""
    go = [threading.Semaphore(0), threading.Semaphore(0)]
    main = threading.Semaphore(0)
    res = [None, None]
    done = [False, False]
    stops = [[k], [] if j is None else [j]]

    def body(i, name):
        f, bl, _ = cat()[name]
        args, kwargs = bl()
        go[i].acquire()

        def at(_):
            main.release()
            go[i].acquire()
        t = Tracer(stop=set(stops[i]), at=at)
        try:
            res[i] = t.run(outcome, f, args, kwargs)
        finally:
            done[i] = True
            main.release()
    ts = [threading.Thread(target=body, args=(i, n), daemon=True)
          for i, n in enumerate((a, b))]
    for t in ts:
        t.start()
    for i in (0, 1, 0, 1):
        if not done[i]:
            go[i].release()
            if not main.acquire(timeout=STEP_TIMEOUT):
                raise Stuck('deadlock: %s %s' % (a, b))
    for t in ts:
        t.join(STEP_TIMEOUT)
    return res


def partners(name, tier):
    mine = family_of(name)
    out = [g for g in sorted(cat()) if family_of(g) == mine and g != name]
    if tier == 'quick':
        # one other of the same function, and the same with other arguments
        out = (variants(name) or out[:1])+[name]
    else:
        out += [name]
        out += [g for g in base_names() if module_of(g) == module_of(name)
                and family_of(g) != mine and cat()[g][2] == 0]
    return out


def overlap_all(name, tier):
    n = 0
    out = []
    most = ((14, 60), (6, 12), (2, 6))[cat()[name][2]][tier != 'quick']
    st = public_state()
    for g in partners(name, tier):
        w = ref(name), ref(g)
        other = name if g != name else (variants(name)+[None])[0]
        pa, pb = first_points(name, most), first_points(g, most)
        if tier != 'quick' and family_of(g) != family_of(name):
            pa, pb = first_points(name, 15), first_points(g, 15)
        for k in pa:
            for j in list(pb)+[None]:
                n += 1
                if other in cat():
                    alone(other)
                try:
                    r = overlap(name, g, k, j)
                except Stuck as e:
                    out.append((g, k, j, str(e)))
                    return n, out, changes(st)
                for i in (0, 1):
                    if not same((name, g)[i], r[i], w[i]):
                        out.append((g, k, j, i, str(r[i])[:300],
                                    str(w[i])[:300]))
                bad = wrong_after(sorted(set((name, g)))) if j is None or \
                    tier != 'quick' else []
                if bad:
                    out.append((g, k, j, bad))
                if len(out) > 2:
                    return n, out, changes(st)
    return n, out, changes(st)


def threads_run(R, chunk, tier):
    for name in hosts(tier)[chunk::CHUNKS]:
        r = child(overlap_all, name, tier)
        R.need(r[0] != 'died', 'died', call=name)
        n, bad, ch = r
        R.bulk_states(n)
        R.step(4*n)
        R.trace(n)
        R.check(not bad, 'two threads', call=name, wrong=bad)
        R.check(not ch, 'global state changed', call=name, changed=ch)
        R.outcome(name, n)


FAMILIES = {'inside': (inside_cases, inside_run),
            'threads': (inside_cases, threads_run)}
