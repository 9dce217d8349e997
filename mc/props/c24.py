"""C24: the bundled modeling layer for convex programs (cvxpy_tdr)."""
import fractions
import itertools
import math

import numpy as np

BOUNDS = ('every scalar expression of depth two over two variables, two '
          'parameters and the listed constants; every pair of operand kinds, '
          'operation and small shape; every slice of the small shapes; every '
          'two variable linear program over the pool of constraints, sets of '
          'up to three, in every spelling; every function at every listed '
          'point, alone, in programs and composed; every history of '
          'parameter changes and solutions of the depth bound; every pattern '
          'of the small sparse arrays.')
ASSUMPTIONS = ['CVXOPT solves small well posed programs to 1e-5',
               'optimal values of the atoms are closed forms of NumPy/math']

VALS = [(1.5, -2., 3., -.5), (-1., 4., .25, 2.), (0., 1., 1., 0.)]


def _mk():
    import pydsm.cvxpy_tdr as c
    return c


# ---------------------------------------------------------------------------
# Scalar expressions
# ---------------------------------------------------------------------------
LEAVES = ['x', 'y', 'a', 'b', 0., 1., -1., 2.5, 3]


class M(object):
    """Model: value as a function of the assignment, and leaves."""

    def __init__(self, f, vs, ps, num=None):
        self.f, self.vs, self.ps, self.num = f, frozenset(vs), frozenset(ps), \
            num


def leaf_model(l):
    if isinstance(l, str):
        k = 'xyab'.index(l)
        return M(lambda e: e[k], [l] if k < 2 else [], [l] if k > 1 else [])
    return M(lambda e: float(l), [], [], float(l))


def op_model(op, p, q):
    if op == '*':
        if p.vs and q.vs:
            return None
        if 0. in (p.num, q.num):
            return leaf_model(0.)
        num = None if None in (p.num, q.num) else p.num*q.num
        return M(lambda e: p.f(e)*q.f(e), p.vs | q.vs, p.ps | q.ps, num)
    s = 1 if op == '+' else -1
    num = None if None in (p.num, q.num) else p.num+s*q.num
    return M(lambda e: p.f(e)+s*q.f(e), p.vs | q.vs, p.ps | q.ps, num)


def op_real(op, p, q):
    return p+q if op == '+' else p-q if op == '-' else p*q


class Expr(object):
    """Leaves shared by the expressions of one case."""

    def __init__(self, tags=None):
        c = _mk()
        self.x, self.y = c.variable(name='x'), c.variable(name='y')
        self.a = c.parameter(attribute='nonnegative', name='a')
        self.b = c.parameter(name='b')
        self.d = {'x': self.x, 'y': self.y, 'a': self.a, 'b': self.b}

    def leaf(self, l):
        return self.d[l] if isinstance(l, str) else l

    def build(self, t):
        """t: leaf | (op, t, t) | ('neg', t)"""
        if not isinstance(t, tuple):
            return self.leaf(t), leaf_model(t)
        if t[0] == 'neg':
            r, m = self.build(t[1])
            return (-r, op_model('*', leaf_model(-1.), m))
        r1, m1 = self.build(t[1])
        r2, m2 = self.build(t[2])
        m = None if None in (m1, m2) else op_model(t[0], m1, m2)
        if m is None:
            return (lambda: op_real(t[0], r1, r2)), None
        return op_real(t[0], r1, r2), m

    def assign(self, e):
        self.x.value, self.y.value, self.a.value, self.b.value = \
            e[0], e[1], abs(e[2]), e[3]
        return (e[0], e[1], abs(e[2]), e[3])


def value_of(r):
    return r if np.isscalar(r) else r.value


def names(objs, d):
    inv = dict((id(v), k) for k, v in d.items())
    return sorted(inv.get(id(o), '?') for o in objs)


def check_expr(R, E, t):
    r, m = E.build(t)
    if m is None:
        R.raises(TypeError, r, 'product of expressions with variables', t=t)
        return None
    R.step()
    for e in VALS:
        e = E.assign(e)
        R.close(value_of(r), m.f(e), 'value of an expression', t=t, e=e)
    text = str(r)
    try:
        w = eval(text, dict(zip('xyab', e)))
    except Exception as x:
        w = repr(x)
    R.check(not isinstance(w, str) and abs(w-m.f(e)) < 1e-9,
            'text of an expression', t=t, text=text, got=w, want=m.f(e))
    if not np.isscalar(r):
        R.check(names(r.variables, E.d) == sorted(m.vs),
                'variables of an expression', t=t,
                got=names(r.variables, E.d))
        R.check(names(r.parameters, E.d) == sorted(m.ps),
                'parameters of an expression', t=t,
                got=names(r.parameters, E.d))
        R.check(r.is_affine() and r.is_convex() and r.is_concave() and
                r.is_dcp() and r.T is r and tuple(r.shape) == (1, 1),
                'affine expression', t=t)
    else:
        R.check(not m.vs and not m.ps, 'expression became a number', t=t)
    return r, m


def expr1():
    for t in LEAVES:
        yield t
        yield ('neg', t)
    for op in '+-*':
        for p in LEAVES:
            for q in LEAVES:
                yield (op, p, q)


def bad(t):
    """The tree multiplies two expressions with variables."""
    if not isinstance(t, tuple):
        return False
    if any(bad(u) for u in t[1:]):
        return True
    return tree_model(t) is None


def tree_model(t):
    if not isinstance(t, tuple):
        return leaf_model(t)
    if t[0] == 'neg':
        m = tree_model(t[1])
        return m and op_model('*', leaf_model(-1.), m)
    m1, m2 = tree_model(t[1]), tree_model(t[2])
    return None if None in (m1, m2) else op_model(t[0], m1, m2)


def exprs_cases(tier):
    for op in '+-*n':
        for l in LEAVES:
            yield {'op': op, 'l': l}


def exprs_run(R, op, l):
    E = Expr()
    if op == 'n':
        check_expr(R, E, l)
        for t in expr1():
            if not bad(t):
                check_expr(R, E, ('neg', ('neg', t)))
                check_expr(R, E, ('+', t, t))
                check_expr(R, E, ('-', t, ('neg', t)))
        R.outcome('neg')
        return
    n = 0
    for t in expr1():
        if bad(t):
            check_expr(R, E, t)
            continue
        n += 1
        check_expr(R, E, (op, t, l))
        check_expr(R, E, (op, l, t))
    R.bulk_states(2*n)
    R.outcome(op)
    # deeper: both operands compound
    small = [t for t in expr1() if isinstance(t, tuple) and not bad(t) and
             (t[1] == l or t[-1] == l)]
    for t in small:
        for u in small[::3] if R.tier == 'quick' else small:
            check_expr(R, E, (op, t, u))
    R.trace(n)


# the same expressions through the solver
def solved_cases(tier):
    for l in LEAVES:
        for op in '+-*':
            yield {'op': op, 'l': l}


def solved_run(R, op, l):
    c = _mk()
    E = Expr()
    trees = [t for t in expr1() if not bad(t)]
    if R.tier == 'quick':
        trees = [t for t in trees
                 if not isinstance(t, tuple) or t[0] != op or t[1] == 'x']
    for n, t in enumerate(trees):
        for tt in ((op, t, l),) if R.tier == 'quick' else \
                ((op, t, l), (op, l, t)):
            if bad(tt):
                continue
            r, m = E.build(tt)
            e = E.assign(VALS[n % 2])
            # x and y are given by constraints, the objective follows
            E.x.value = E.y.value = np.nan
            cons = [c.eq(E.x, e[0]), c.geq(E.y, e[1]), c.leq(E.y, e[1])]
            for act, f in (('min', c.minimize), ('max', c.maximize)):
                p = c.program(f(r), cons)
                R.step()
                R.check(p.is_dcp(), 'affine objective accepted', t=tt)
                obj, ok = p.solve(quiet=True, return_status=True)
                R.check(ok, 'status', t=tt, act=act)
                R.close(obj, m.f(e), 'optimal value', rtol=1e-5, atol=1e-5,
                        t=tt, act=act, e=e)
                R.close([E.x.value, E.y.value], e[:2], 'optimal point',
                        rtol=1e-5, atol=1e-5, t=tt, act=act)
    R.bulk_states(len(trees))
    R.outcome(op)


# ---------------------------------------------------------------------------
# Arrays
# ---------------------------------------------------------------------------
KINDS = ['var', 'sym', 'low', 'upp', 'param', 'matrix', 'sparse', 'expr',
         'sparray', 'svar', 'sparam', 'number', 'stree']
SHAPES = [(1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)]
SQ = ('sym', 'low', 'upp')


def numbers(m, n, k):
    """A fixed array of distinct small numbers with some zeros."""
    v = np.array([[((i*5+j*3+k*7) % 11-5)/2. for j in range(n)]
                  for i in range(m)])
    return v


def make(kind, shape, k):
    """Object of the modeling layer and its values."""
    c = _mk()
    m, n = shape
    v = numbers(m, n, k)
    if kind in ('var', 'sym', 'low', 'upp'):
        st = {'var': None, 'sym': 'symmetric', 'low': 'lower_triangular',
              'upp': 'upper_triangular'}[kind]
        o = c.variable(m, n, st)
        if kind == 'sym':
            v = v+v.T
        elif kind == 'low':
            v = np.tril(v)
        elif kind == 'upp':
            v = np.triu(v)
        for i in range(m):
            for j in range(n):
                if not np.isscalar(o[i, j]):
                    o[i, j].value = v[i, j]
        return o, v
    if kind == 'param':
        o = c.parameter(m, n)
        o.value = c.matrix(v)
        return o, v
    if kind == 'matrix':
        return c.matrix(v), v
    if kind == 'sparse':
        v = v*((np.arange(m)[:, None]+np.arange(n)+k) % 2)
        return c.spmatrix(v), v
    if kind == 'sparray':
        x = c.variable()
        x.value = -1.5
        v = v*((np.arange(m)[:, None]+np.arange(n)+k) % 2)
        return x*c.spmatrix(v), -1.5*v
    if kind == 'expr':
        o = c.variable(m, n)
        for i in range(m):
            for j in range(n):
                o[i, j].value = v[i, j]
        return 2*o-c.ones((m, n)), 2*v-1
    s = v[0, 0]+.75
    if kind == 'number':
        return s, s
    if kind == 'sparam':
        o = c.parameter()
        o.value = s
        return o, s
    o = c.variable()
    o.value = s
    if kind == 'svar':
        return o, s
    return 3*o-1., 3*s-1.


HASVAR = ('var', 'sym', 'low', 'upp', 'expr', 'sparray', 'svar', 'stree')
SCALAR = ('svar', 'sparam', 'number', 'stree')
CONST = ('matrix', 'sparse', 'number')


def dense(o):
    if np.isscalar(o):
        return np.array([[o]], dtype=float)
    v = o.value if hasattr(o, 'value') else o
    if hasattr(v, 'toarray'):
        v = v.toarray()
    return np.atleast_2d(np.array(v, dtype=float))


def pairs_cases(tier):
    for k1 in KINDS:
        for k2 in KINDS:
            if k1 in CONST and k2 in CONST:
                continue        # NumPy and SciPy alone
            if k1 in SCALAR and k2 in SCALAR:
                continue        # see exprs
            yield {'k1': k1, 'k2': k2}


def supported(op, k1, k2):
    """Operand kinds for which the operation is defined."""
    ks = (k1, k2)
    if 'sparray' in ks:
        o = k2 if k1 == 'sparray' else k1
        # sparse object arrays combine with object arrays only
        return o in ('var', 'sym', 'low', 'upp', 'param', 'expr')
    if 'sparse' in ks and op != '*':
        o = k2 if k1 == 'sparse' else k1
        return o not in SCALAR
    return True


def pairs_run(R, k1, k2):
    shapes1 = SHAPES if k1 not in SCALAR else [(1, 1)]
    shapes2 = SHAPES if k2 not in SCALAR else [(1, 1)]
    for s1 in shapes1:
        if k1 in SQ and s1[0] != s1[1]:
            continue
        for s2 in shapes2:
            if k2 in SQ and s2[0] != s2[1]:
                continue
            o1, v1 = make(k1, s1, 1)
            o2, v2 = make(k2, s2, 2)
            before = (dense(o1), dense(o2))
            for op in '+-*':
                if not supported(op, k1, k2):
                    continue
                R.state(s1, s2, op)
                R.step()
                info = dict(op=op, s1=s1, s2=s2)
                scal = k1 in SCALAR or k2 in SCALAR
                fits = scal or (s1 == s2 if op != '*' else s1[1] == s2[0])
                if not fits:
                    R.raises(ValueError, lambda: op_real(op, o1, o2),
                             'shape mismatch', **info)
                    continue
                if op == '*' and k1 in HASVAR and k2 in HASVAR:
                    if np.any(nz_products(v1, v2, k1, k2)):
                        R.raises(TypeError, lambda: op_real(op, o1, o2),
                                 'product of variables', **info)
                    continue
                want = op_real(op, v1, v2) if scal or op != '*' else \
                    np.dot(v1, v2)
                got = op_real(op, o1, o2)
                want = np.atleast_2d(want)
                R.close(dense(got), want, 'array arithmetic', **info)
                R.check(np.isscalar(got) or
                        tuple(got.shape) == want.shape, 'shape', **info)
                if not np.isscalar(got) and hasattr(got, 'T'):
                    R.close(dense(got.T), want.T, 'transpose', **info)
            R.check(all(np.array_equal(p, q) for p, q in
                        zip(before, (dense(o1), dense(o2)))),
                    'operands unchanged', s1=s1, s2=s2)
    R.outcome(k1, k2)


def nz_products(v1, v2, k1, k2):
    """Whether any entry surely multiplies two variables (structural zeros
    are skipped)."""
    z1 = v1 if k1 in ('sparray',) else np.ones_like(np.atleast_2d(v1))
    z2 = v2 if k2 in ('sparray',) else np.ones_like(np.atleast_2d(v2))
    if k1 in SCALAR or k2 in SCALAR:
        return (np.atleast_2d(z1) != 0).any() and \
            (np.atleast_2d(z2) != 0).any()
    return np.dot(np.diag(np.ones(z1.shape[0])), (z1 != 0)*1.).dot(
        (z2 != 0)*1.) > 0


def slices_cases(tier):
    for kind in ('var', 'sym', 'low', 'upp', 'param', 'expr', 'sparray'):
        for s in SHAPES:
            if kind in SQ and s[0] != s[1]:
                continue
            yield {'kind': kind, 's': list(s)}


def keys(n):
    for i in range(n):
        yield i
        yield np.int64(i)
    for a in [None]+list(range(n)):
        for b in [None]+list(range(1, n+1)):
            for st in (None, 1, 2):
                k = slice(a, b, st)
                if len(range(*k.indices(n))):
                    yield k


def slices_run(R, kind, s):
    c = _mk()
    o, v = make(kind, tuple(s), 3)
    for k1 in keys(s[0]):
        for k2 in keys(s[1]):
            R.step()
            w = v[k1, k2]
            w = v[(slice(k1, k1+1) if np.isscalar(k1) else k1),
                  (slice(k2, k2+1) if np.isscalar(k2) else k2)]
            g = o[k1, k2]
            info = dict(k1=repr(k1), k2=repr(k2))
            R.close(dense(g), w, 'slice', **info)
            if w.shape == (1, 1):
                R.check(np.isscalar(g) or g.shape == (1, 1) and
                        not hasattr(g, 'data'), 'single entry', **info)
            R.state(str(k1), str(k2))
    for key in ((-1, 0), (0, -1), (s[0], 0), (0, s[1]),
                (slice(0, s[0]+1), 0), (0, slice(0, s[1]+1))):
        R.raises(ValueError, lambda: o[key], 'out of range', key=repr(key))
    for key in (0, 'a', (0,), (0, 0, 0), (0., 0), (0, 0.), (0, 'a'),
                slice(None)):
        R.raises(TypeError, lambda: o[key], 'invalid key', key=repr(key))
    if kind == 'expr':
        for key in ((-1, 0), (0, s[1])):
            R.raises(ValueError, lambda: o.__setitem__(key, 1.),
                     'assignment out of range', key=repr(key))
        for key in (0, (0, 0., 1), (slice(None), 0)):
            R.raises(TypeError, lambda: o.__setitem__(key, 1.),
                     'assignment with an invalid key', key=repr(key))
    R.close(dense(o.T), v.T, 'transpose')
    R.close(dense(o.T.T), v, 'twice transposed')
    if kind in ('var', 'sym', 'low', 'upp'):
        want = {'var': s[0]*s[1]}.get(kind, s[0]*(s[0]+1)//2)
        R.check(len(o.variables) == want, 'number of variables',
                got=len(o.variables))
        for i in range(s[0]):
            for j in range(s[1]):
                if kind == 'sym':
                    R.check(o[i, j] is o[j, i], 'symmetry', i=i, j=j)
                if kind == 'low' and j > i or kind == 'upp' and j < i:
                    R.check(np.isscalar(o[i, j]) and o[i, j] == 0,
                            'structural zero', i=i, j=j)
    if kind == 'sparray':
        return
    # neg, sum, diag, trace, reshape
    R.close(dense(-o), -v, 'negation')
    R.close(dense(c.sum(o)), [[v.sum()]], 'sum of entries')
    if s[0] == s[1]:
        R.close(dense(c.trace(o)), [[np.trace(v)]], 'trace')
        R.close(dense(c.diag(o)), np.diag(v)[:, None], 'diagonal')
    else:
        R.raises(ValueError, lambda: c.trace(o), 'trace of a rectangle')
        if 1 in s:
            R.close(dense(c.diag(o)), np.diag(v.ravel()), 'diagonal array')
        else:
            R.raises(ValueError, lambda: c.diag(o), 'diagonal of a rectangle')
    t = s[0]*s[1]
    for a in range(1, t+2):
        for b in range(1, t+2):
            if a*b == t:
                R.close(dense(c.reshape(o, (a, b))),
                        v.reshape((a, b), order='F'), 'reshape', a=a, b=b)
                R.close(np.array(c.reshape(c.matrix(v), (a, b))),
                        v.reshape((a, b), order='F'), 'reshape of a matrix',
                        a=a, b=b)
            else:
                R.raises(ValueError, lambda: c.reshape(o, (a, b)),
                         'reshape to another size', a=a, b=b)
    R.outcome(kind)


def stack_cases(tier):
    for k1 in ('var', 'sym', 'param', 'matrix', 'expr', 'svar', 'number',
               'stree', 'sparam', 'low'):
        yield {'k1': k1}


def stack_run(R, k1):
    c = _mk()
    for k2 in ('var', 'sym', 'param', 'matrix', 'expr', 'svar', 'number',
               'stree', 'sparam', 'upp'):
        for s1 in SHAPES if k1 not in SCALAR else [(1, 1)]:
            for s2 in SHAPES if k2 not in SCALAR else [(1, 1)]:
                if (k1 in SQ and s1[0] != s1[1] or
                        k2 in SQ and s2[0] != s2[1]):
                    continue
                o1, v1 = make(k1, s1, 4)
                o2, v2 = make(k2, s2, 5)
                v1, v2 = np.atleast_2d(v1), np.atleast_2d(v2)
                R.state(k2, s1, s2)
                for nm, f, g, ax in (('hstack', c.hstack, np.hstack, 0),
                                     ('vstack', c.vstack, np.vstack, 1)):
                    for seq in (tuple, list):
                        R.step()
                        info = dict(f=nm, k2=k2, s1=s1, s2=s2)
                        if v1.shape[ax] != v2.shape[ax]:
                            R.raises(ValueError, lambda: f(seq([o1, o2])),
                                     'stacking shapes that differ', **info)
                            continue
                        r = f(seq([o1, o2]))
                        R.close(dense(r), g([v1, v2]), 'stack', **info)
                        if k1 in CONST and k2 in CONST:
                            R.check(type(r) is type(c.matrix([[1.]])),
                                    'stack of constants', **info)
                        r = f(seq([o1, o2, o1]))
                        R.close(dense(r), g([v1, v2, v1]), 'stack of three',
                                **info)
                        R.close(dense(f(seq([o2]))), v2, 'stack of one',
                                **info)
    for f in (c.hstack, c.vstack):
        for b in (3., 'abc', None, np.ones(3), c.variable(2, 2)):
            R.raises(TypeError, lambda: f(b), 'not a sequence', b=repr(b))
        R.raises(TypeError, lambda: f([c.variable(), None]),
                 'not an object')
    R.outcome(k1)


def consts_cases(tier):
    yield {}


def consts_run(R):
    c = _mk()
    for n in range(1, 5):
        R.close(np.array(c.eye(n)), np.eye(n), 'eye', n=n)
        for m in range(1, 5):
            R.step()
            R.state(m, n)
            R.close(np.array(c.zeros((m, n))), np.zeros((m, n)), 'zeros')
            R.close(np.array(c.ones((m, n))), np.ones((m, n)), 'ones')
            v = numbers(m, n, 6)
            for mk in (np.array, np.matrix, lambda q: q.tolist(), c.matrix):
                x = c.matrix(mk(v))
                R.close(np.array(x), v, 'matrix')
                R.close(np.array(c.spmatrix(v).toarray()), v, 'spmatrix')
                R.check(x.dtype == np.float64, 'matrix of floats')
                R.close(np.array(x.T), v.T, 'matrix transposed')
                R.close(np.array(c.sum(x)), v.sum(), 'sum of a matrix')
            if m == n:
                a = v+3*n*np.eye(n)
                R.close(np.array(c.matrix(a).I), np.linalg.inv(a), 'inverse')
                R.close(np.array(c.diag(c.matrix(v))).ravel(), np.diag(v),
                        'diag of a matrix')
                R.close(c.trace(c.matrix(v)), np.trace(v), 'trace')
                s = v.dot(v.T)+np.eye(n)
                q = np.array(c.sqrtm(c.matrix(s)))
                R.close(q.dot(q), s, 'sqrtm')
            elif 1 in (m, n):
                R.close(np.array(c.diag(c.matrix(v))), np.diag(v.ravel()),
                        'diag of a vector')
    for st in ('symmetric', 'lower_triangular', 'upper_triangular'):
        for s in SHAPES:
            if s[0] != s[1]:
                R.raises(ValueError, lambda: c.variable(s[0], s[1], st),
                         'structure of a rectangle', s=s, st=st)
    R.raises(ValueError, lambda: c.variable(2, 2, 'diagonal'), 'structure')
    R.raises(ValueError, lambda: c.parameter(1, 1, 'positive'), 'attribute')
    R.raises(ValueError, lambda: c.parameter(2, 1, 'positive'), 'attribute')
    # lists, numbers and scalars
    x = c.variable()
    x.value = 2.
    for v in (x, 3., 2*x):
        for f in (c.sum, c.diag, c.trace):
            R.check(f(v) is v, 'scalar unchanged')
    R.close(value_of(c.sum([x, 1, 2*x])), 7., 'sum of a list')
    R.close(value_of(c.sum((x, 1, 2*x))), 7., 'sum of a tuple')
    for f in (c.sum, c.diag, c.trace):
        R.raises(TypeError, lambda: f(None), 'invalid argument')
    R.outcome('constants')


# ---------------------------------------------------------------------------
# Linear programs in two variables
# ---------------------------------------------------------------------------
# a x + b y <= c
POOL = [(1, 0, 2), (-1, 0, 1), (0, 1, 3), (0, -1, 0), (1, 1, 3), (-1, 2, 2),
        (2, -1, -3), (-1, -1, 4), (0, 1, -2), (3, 1, 5)]
OBJS = [(1, 0), (0, -1), (1, 2), (-2, 1)]


def lp_ref(cons, obj):
    """Exact minimum over the polyhedron (None: infeasible; -inf)."""
    F = fractions.Fraction

    def feas(p):
        return all(a*p[0]+b*p[1] <= c for a, b, c in cons)
    pts = []
    for (a, b, c), (d, e, f) in itertools.combinations(cons, 2):
        det = F(a*e-b*d)
        if det:
            p = (F(c*e-b*f)/det, F(a*f-c*d)/det)
            if feas(p):
                pts.append(p)
    # any feasible point: vertices, or points on the lines, or the plane
    cand = list(pts)
    for a, b, c in cons:
        p0 = (F(a*c, a*a+b*b), F(b*c, a*a+b*b))
        for t in range(-30, 31):
            p = (p0[0]-b*F(t, 2), p0[1]+a*F(t, 2))
            if feas(p):
                cand.append(p)
                break
    if not cons:
        cand.append((F(0), F(0)))
    if not cand:
        return None
    # recession directions
    dirs = [(1, 0), (-1, 0), (0, 1), (0, -1), (-obj[0], -obj[1])]
    for a, b, c in cons:
        dirs += [(-b, a), (b, -a)]
    for d in dirs:
        if all(a*d[0]+b*d[1] <= 0 for a, b, c in cons) and \
                obj[0]*d[0]+obj[1]*d[1] < 0:
            return -math.inf
    return min(obj[0]*p[0]+obj[1]*p[1] for p in cand)


def strictly_infeasible(cons):
    """Infeasible even after slightly loosening every constraint."""
    F = fractions.Fraction
    return lp_ref([(a, b, c+F(1, 10)) for a, b, c in cons], (0, 1)) is None


def lp_cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n+1):
        for cs in itertools.combinations(range(len(POOL)), k):
            if tier == 'quick' and k == 3 and sum(cs) % 3:
                continue
            yield {'cs': list(cs)}
    if tier == 'quick':
        # contradictory bounds on y, unbounded in x
        for i in range(len(POOL)):
            if i not in (2, 3, 8):
                yield {'cs': sorted([2, 3, 8, i])}


def spell(c, x, y, con, k, par):
    """Different ways to write a x + b y <= r."""
    a, b, r = con
    k = k % 6
    if k == 0:
        return [c.leq(a*x+b*y, r)]
    if k == 1:
        return [c.geq(r, b*y+x*a)]
    if k == 2:
        return [c.geq(-a*x-b*y, -r)]
    if k == 3:
        return [c.leq(a*x, r-b*y)]
    if k == 4:
        p = c.parameter()
        p.value = r
        par.append(p)
        return [c.less_equals(y*b+x*a-p, 0)]
    v = c.vstack((x, y))
    return [c.greater_equals(0, c.matrix([[a, b]])*v-r)]


def lp_run(R, cs):
    c = _mk()
    cons = [POOL[i] for i in cs]
    for n, obj in enumerate(OBJS):
        want = lp_ref(cons, obj)
        if want is None and not strictly_infeasible(cons):
            continue
        R.outcome('infeasible' if want is None else
                  'unbounded' if want == -math.inf else 'optimal')
        for variant in range(3 if R.tier == 'quick' else 6):
            x, y = c.variable(), c.variable()
            par = []
            L = []
            for i, q in enumerate(cons):
                L += spell(c, x, y, q, variant+i+n, par)
            if variant == 5:
                par = []
                L = c.matrix([[q[0], q[1]] for q in cons])*c.vstack((x, y))
                rhs = c.matrix([[q[2]] for q in cons])
                L = [c.leq(L, rhs)] if len(cons) > 1 else \
                    [c.leq(L, rhs[0, 0])]
            f = obj[0]*x+obj[1]*y
            if variant % 2:
                p = c.program(c.maximize(-f), L)
                sign = -1
            else:
                p = c.program(c.minimize(f), L)
                sign = 1
            R.step()
            R.state(n, variant)
            info = dict(obj=obj, variant=variant)
            R.check(p.is_dcp(), 'linear program accepted', **info)
            # (a variable whose coefficients are all null does not appear)
            there = set(id(v) for i, v in enumerate((x, y))
                        if obj[i] or any(q[i] for q in cons))
            R.check(len(p.variables) == len(there) and
                    set(map(id, p.variables)) == there and
                    set(map(id, p.parameters)) == set(map(id, par)),
                    'variables and parameters', **info)
            show = [str(q) for q in p.constraints]
            got, ok = p.solve(quiet=True, return_status=True)
            again = p.solve(quiet=True)
            R.check(show == [str(q) for q in p.constraints],
                    'program unchanged by solve', **info)
            if want is None:
                R.check(got == sign*math.inf, 'infeasible', got=got, **info)
                continue
            if want == -math.inf:
                R.check(got == -sign*math.inf, 'unbounded', got=got, **info)
                continue
            w = float(want)
            R.close(sign*got, w, 'optimal value', rtol=1e-5, atol=1e-5,
                    **info)
            R.close(again, got, 'second solution', rtol=1e-6, atol=1e-6,
                    **info)
            R.check(ok, 'status', **info)
            X = [v.value if id(v) in there else 0. for v in (x, y)]
            R.check(all(a*X[0]+b*X[1] <= r+1e-4 for a, b, r in cons),
                    'constraints hold at the solution', X=X, **info)
            R.close(obj[0]*X[0]+obj[1]*X[1], w, 'solution is optimal',
                    rtol=1e-4, atol=1e-4, **info)
            R.close(value_of(f), w, 'value of the objective', rtol=1e-4,
                    atol=1e-4, **info)


# ---------------------------------------------------------------------------
# Equations that are dependent, contradictory or leave variables free
# ---------------------------------------------------------------------------
# a x + b y = c
EQS = [(1, 0, 0), (1, 0, 1), (2, 0, 2), (1, 1, 1), (2, 2, 2), (-2, -2, -3),
       (1, -1, 0), (0, 2, 1), (0, 0, 0), (0, 0, 1)]
BOUNDS2 = [[], [(1, 0, 4)], [(-1, 0, 2), (0, -1, 3)],
           [(1, 0, 4), (-1, 0, 2), (0, 1, 5), (0, -1, 3)]]


def degenerate_cases(tier):
    n = 2 if tier == 'quick' else 3
    for k in range(0, n+1):
        for es in itertools.combinations_with_replacement(
                range(len(EQS)), k):
            yield {'es': list(es)}
    if tier == 'quick':
        for es in itertools.combinations_with_replacement(
                range(len(EQS)), 3):
            if sum(es) % 5 == 0:
                yield {'es': list(es)}


def degenerate_run(R, es):
    c = _mk()
    eqs = [EQS[i] for i in es]
    both = eqs+[(-a, -b, -r) for a, b, r in eqs]

    def equations(x, y, spelling):
        if spelling == 1 and eqs:
            v = c.matrix([[q[0], q[1]] for q in eqs])*c.vstack((x, y))
            w = c.matrix([[q[2]] for q in eqs])
            return [c.equals(v, w) if len(eqs) > 1 else
                    c.equals(v, w[0, 0])]
        return [c.equals(a*x+b*y, r) if i % 2 else
                c.equals(r-b*y, x*a) for i, (a, b, r) in enumerate(eqs)]

    def outcome(p, want, sign, info):
        R.step()
        R.check(p.is_dcp(), 'accepted', **info)
        got, ok = p.solve(quiet=True, return_status=True)
        R.check(ok, 'status of a degenerate program', got=got, **info)
        if want is None or want == -math.inf:
            R.check(got == (-sign if want else sign)*math.inf,
                    'infeasible or unbounded', got=got, want=want, **info)
            return False
        R.close(sign*got, float(want), 'value of a degenerate program',
                rtol=1e-4, atol=1e-4, **info)
        return True

    def holds(p, x, y, ineq, info):
        # (a variable whose coefficients are all null does not appear)
        there = set(map(id, p.variables))
        X = [v.value if id(v) in there else 0. for v in (x, y)]
        R.check(all(abs(a*X[0]+b*X[1]-r) < 1e-4 for a, b, r in eqs) and
                all(a*X[0]+b*X[1] <= r+1e-4 for a, b, r in ineq),
                'constraints hold', X=X, **info)

    for nb, ineq in enumerate(BOUNDS2):
        cons = both+ineq
        real = [q for q in cons if q[0] or q[1]]
        wrong = any(q[2] < 0 for q in cons if not (q[0] or q[1]))
        for n, obj in enumerate(OBJS+[(0, 0)]):
            want = None if wrong else lp_ref(real, obj)
            if want is None and not wrong and not strictly_infeasible(real):
                continue
            R.outcome('infeasible' if want is None else
                      'unbounded' if want == -math.inf else 'optimal')
            for spelling in range(3):
                info = dict(obj=obj, bounds=nb, spelling=spelling)
                R.state(nb, n, spelling)
                x, y = c.variable(), c.variable()
                L = equations(x, y, spelling)
                L += [c.leq(a*x+b*y, r) for a, b, r in ineq]
                f = obj[0]*x+obj[1]*y
                if spelling == 2:
                    # two variables more, only tied to each other
                    z, w = c.variable(), c.variable()
                    L += [c.geq(z, w), c.equals(x, x)]
                    f = f+z-w
                if spelling == 1:
                    p = c.program(c.maximize(-f), L)
                else:
                    p = c.program(c.minimize(f), L)
                if outcome(p, want, -1 if spelling == 1 else 1, info):
                    holds(p, x, y, ineq, info)
                R.trace()
    # The same equations under a nonlinear objective
    A = np.array([q[:2] for q in eqs], dtype=float).reshape(-1, 2)
    r = np.array([q[2] for q in eqs], dtype=float)
    X0 = np.array([2., -1.])
    dx = np.linalg.pinv(A).dot(r-A.dot(X0)) if eqs else np.zeros(2)
    fails = len(eqs) and np.max(abs(A.dot(X0+dx)-r)) > 1e-9
    for kind in range(4):
        x, y = c.variable(), c.variable()
        X = c.vstack((x-X0[0], y-X0[1]))
        f = [lambda: c.norm2(X), lambda: c.quad_form(X, c.eye(2)),
             lambda: c.power_abs(X[0, 0], 2)+c.power_abs(X[1, 0], 2),
             lambda: c.exp(c.norm2(X))][kind]()
        L = equations(x, y, kind % 2)
        d = np.sqrt(np.sum(dx**2))
        want = None if fails else [d, d**2, d**2, math.exp(d)][kind]
        info = dict(kind=kind)
        if kind == 3 and d == 0:
            continue
        p = c.program(c.minimize(f), L)
        if outcome(p, want, 1, info):
            holds(p, x, y, [], info)
        R.trace()


# ---------------------------------------------------------------------------
# Functions
# ---------------------------------------------------------------------------
def ncdf(v):
    return .5*math.erfc(-v/math.sqrt(2))


def hub(v, M):
    return v*v if abs(v) <= M else M*(2*abs(v)-M)


# name: (value, points, curvature, monotone, extra arguments)
# curvature +1 convex, -1 concave; monotone: convex/concave arguments allowed
ELEM = {
    'abs': [(lambda v: abs(v), [-2.5, -1, 0, .5, 3], 1, 0, ())],
    'square': [(lambda v: v*v, [-2.5, -1, 0, .5, 3], 1, 0, ())],
    'exp': [(math.exp, [-2.5, -1, 0, .5, 2], 1, 1, ())],
    'log': [(math.log, [.2, .5, 1, 3, 5.5], -1, 1, ())],
    'sqrt': [(math.sqrt, [.25, 1, 2.5, 9], -1, 1, ())],
    'log_norm_cdf': [(lambda v: math.log(ncdf(v)), [-2, -.5, 0, 1, 2], -1, 1,
                      ())],
    'huber': [(lambda v, M=M: hub(v, M), [-4, -1, -.3, 0, .5, 1, 2.5], 1, 0,
               (M,)) for M in (1, .5, 2.)],
    'power_abs': [(lambda v, p=p: abs(v)**p, [-2.5, -1, .5, 2], 1, 0, (p,))
                  for p in (1, 1.5, 2, 3)],
    'power_p': [(lambda v, p=p: float(v)**p, [.5, 1, 2.5], 1, 0, (p,))
                for p in (1, 1.5, 2, 3)],
    'power_pos': [(lambda v, p=p: max(v, 0)**p, [.5, 1, 2.5, -1], 1, 1, (p,))
                  for p in (1, 1.5, 2, 3)],
}
TOL = dict(rtol=2e-4, atol=2e-4)


def elem_cases(tier):
    for name in sorted(ELEM):
        for k in range(len(ELEM[name])):
            yield {'name': name, 'k': k}


def elem_run(R, name, k):
    c = _mk()
    f = getattr(c, name)
    ref, pts, curv, mono, extra = ELEM[name][k]
    opt = c.minimize if curv > 0 else c.maximize
    rel = c.leq if curv > 0 else c.geq
    for v in pts:
        R.step()
        R.state(v)
        R.close(f(v, *extra), ref(v), 'value at a number', v=v, **TOL)
        x = c.variable()
        e = f(x, *extra)
        R.check(names(e.variables, {'x': x}) == ['x'], 'variables', v=v)
        R.check(e.is_convex() == (curv > 0) and
                e.is_concave() == (curv < 0) and not e.is_affine(),
                'curvature', v=v)
        R.close(c.program(opt(e), [c.eq(x, v)]).solve(quiet=True), ref(v),
                'value in the objective', v=v, **TOL)
        R.close(x.value, v, 'solution', v=v, **TOL)
        R.close(e.value, ref(v), 'value of the expression', v=v, **TOL)
        # an affine argument and a coefficient
        x = c.variable()
        e = 2*f(.5*x+1, *extra)-1
        R.close(c.program(opt(e), [c.eq(x, 2*v-2)]).solve(quiet=True),
                2*ref(v)-1, 'affine argument', v=v, **TOL)
        # epigraph or hypograph in the constraints
        x, t = c.variable(), c.variable()
        R.close(c.program(opt(t), [rel(f(x, *extra), t),
                                   c.eq(x, v)]).solve(quiet=True),
                ref(v), 'value in a constraint', v=v, **TOL)
        # given by a parameter
        q = c.parameter()
        q.value = v
        x = c.variable()
        p = c.program(opt(f(x, *extra)), [c.eq(x, q)])
        R.close(p.solve(quiet=True), ref(v), 'parameter', v=v, **TOL)
        # wrong side
        x, t = c.variable(), c.variable()
        other = c.geq if curv > 0 else c.leq
        for bad_p in (c.program(c.minimize(x), [other(f(x, *extra), t)]),
                      c.program(c.minimize(x), [c.eq(f(x, *extra), t)]),
                      c.program((c.maximize if curv > 0 else c.minimize)(
                          f(x, *extra)), [c.leq(x, 1), c.geq(x, 1)]),
                      c.program(opt(-1*f(x, *extra)), [c.leq(x, 1)])):
            R.check(not bad_p.is_dcp(), 'nonconvex program', v=v)
            R.raises(ValueError, lambda: bad_p.solve(quiet=True),
                     'nonconvex program', match='DCP', v=v)
    # elementwise on matrices and arrays
    for shape in ((2, 2), (1, 2), (2, 1)):
        vals = np.array([pts[i % len(pts)] for i in
                         range(shape[0]*shape[1])]).reshape(shape)*1.
        want = np.array([[ref(v) for v in r] for r in vals])
        R.close(np.array(f(c.matrix(vals), *extra)), want,
                'elementwise on a matrix', **TOL)
        X = c.variable(*shape)
        e = f(X, *extra)
        R.check(tuple(e.shape) == shape, 'shape', shape=shape)
        R.close(c.program(opt(c.sum(e)), [c.eq(X, c.matrix(vals))]).solve(
            quiet=True), want.sum(), 'sum of elements', **TOL)
        R.close(dense(X), vals, 'solution', **TOL)
    # compositions
    inner = {'aff': (lambda z: 2*z+.5, lambda z: 2*z+.5, 0),
             'convex': (lambda z: c.square(z), lambda z: z*z, 1),
             'concave': (lambda z: c.sqrt(z), lambda z: math.sqrt(z), -1),
             'negconv': (lambda z: 3-c.square(z), lambda z: 3-z*z, -1),
             'negconc': (lambda z: 3-c.sqrt(z), lambda z: 3-math.sqrt(z), 1)}
    for nm, (g, gr, gc) in sorted(inner.items()):
        x = c.variable()
        e = f(g(x), *extra)
        ok = gc == 0 or (mono and gc == curv)
        R.step()
        R.check(e.is_dcp() == ok, 'composition rule', inner=nm)
        p = c.program(opt(e), [c.eq(x, 1.25)])
        R.check(p.is_dcp() == ok, 'composition rule in a program', inner=nm)
        if ok:
            R.close(p.solve(quiet=True), ref(gr(1.25)), 'composition',
                    inner=nm, **TOL)
        else:
            R.raises(ValueError, lambda: p.solve(quiet=True),
                     'nonconvex composition', match='DCP', inner=nm)
    for b in (None, 'abcd', np.ones(2)):
        if b is None or not np.isscalar(b):
            R.raises(TypeError, lambda: f(b, *extra), 'invalid argument',
                     b=repr(b))
    R.outcome(name)


# functions of vectors and matrices: (function, curvature, monotone)
def lse(v):
    return math.log(np.exp(v).sum())


VEC = {
    'max': (lambda v: v.max(), 1, 1), 'min': (lambda v: v.min(), -1, 1),
    'norm1': (lambda v: np.abs(v).sum(0).max(), 1, 0),
    'norm2': (lambda v: np.linalg.norm(v, 2), 1, 0),
    'norm_inf': (lambda v: np.abs(v).sum(1).max(), 1, 0),
    'nuclear_norm': (lambda v: np.linalg.svd(v)[1].sum(), 1, 0),
    'log_sum_exp': (lse, 1, 1),
    'geo_mean': (lambda v: float(np.prod(v))**(1./v.size), -1, 1),
    'lambda_max': (lambda v: np.linalg.eigvalsh(v)[-1], 1, 0),
    'lambda_min': (lambda v: np.linalg.eigvalsh(v)[0], -1, 0),
    'det_rootn': (lambda v: np.linalg.det(v)**(1./v.shape[0]), -1, 0),
}
COLS = [[[1.], [2.]], [[.5], [.5]], [[3.], [1.], [2.]],
        [[1.], [2.], [4.], [.5]], [[2.], [1.], [1.], [3.], [.5]]]
SIGNED = [[[-1.], [2.]], [[-3.], [-1.], [-2.]], [[0.], [0.], [2.]]]
ROWS = [[[1., -2.]], [[3., 1., -2.]]]
MATS = [[[1., 2.], [3., -4.]], [[1., -2., .5], [0., 1., 1.]],
        [[2., 1.], [0., 1.], [-1., 1.]]]
SYMS = [[[2., 1.], [1., 3.]], [[4., -1., 0.], [-1., 3., 1.], [0., 1., 2.]],
        [[1., 0.], [0., 1.]]]
INDEF = [[[1., 2.], [2., 1.]], [[-2., .5], [.5, -1.]]]


def vec_points(name):
    if name in ('max', 'min', 'norm1', 'norm_inf', 'nuclear_norm', 'norm2'):
        return COLS[:3]+SIGNED+ROWS+MATS
    if name == 'log_sum_exp':
        return COLS[:3]+SIGNED
    if name == 'geo_mean':
        return COLS
    if name == 'det_rootn':
        return SYMS
    return SYMS+INDEF


def vec_cases(tier):
    for name in sorted(VEC):
        for k in range(len(vec_points(name))):
            yield {'name': name, 'k': k}


def vec_run(R, name, k):
    c = _mk()
    f = getattr(c, name)
    ref, curv, mono = VEC[name]
    v = np.array(vec_points(name)[k])
    want = float(ref(v))
    opt = c.minimize if curv > 0 else c.maximize
    rel = c.leq if curv > 0 else c.geq
    sq = name in ('lambda_max', 'lambda_min', 'det_rootn')
    R.step()
    R.close(f(c.matrix(v)), want, 'value at a matrix', **TOL)
    for st in ([None, 'symmetric'] if sq else [None]):
        X = c.variable(v.shape[0], v.shape[1], st)
        e = f(X)
        R.check(e.is_convex() == (curv > 0) and
                e.is_concave() == (curv < 0), 'curvature')
        if sq and st is None:
            # an unstructured variable: symmetry is part of the function
            fix = [c.eq(X[i, j], v[i, j]) for i in range(v.shape[0])
                   for j in range(i+1)]
        elif sq:
            fix = [c.eq(X[i, j], v[i, j]) for i in range(v.shape[0])
                   for j in range(i+1)]
        else:
            fix = [c.eq(X, c.matrix(v))]
        R.close(c.program(opt(e), fix).solve(quiet=True), want,
                'value in the objective', st=st, **TOL)
        R.close(dense(X), v, 'solution', st=st, **TOL)
        X = c.variable(v.shape[0], v.shape[1], st)
        t = c.variable()
        if sq:
            fix = [c.eq(X[i, j], v[i, j]) for i in range(v.shape[0])
                   for j in range(i+1)]
        else:
            fix = [c.eq(X, c.matrix(v))]
        R.close(c.program(opt(3*t+1), [rel(f(X), t)]+fix).solve(quiet=True),
                3*want+1, 'value in a constraint', st=st, **TOL)
        p = c.program(c.minimize(t), [(c.geq if curv > 0 else c.leq)(
            f(X), t)]+fix)
        R.check(not p.is_dcp(), 'nonconvex constraint')
        R.raises(ValueError, lambda: p.solve(quiet=True),
                 'nonconvex constraint', match='DCP')
    # through a parameter
    if not sq:
        P = c.parameter(*v.shape)
        P.value = c.matrix(v)
        X = c.variable(*v.shape)
        R.close(c.program(opt(f(X)), [c.eq(X, P)]).solve(quiet=True), want,
                'parameter', **TOL)
        X = c.variable(*v.shape)
        R.close(c.program(opt(f(2*X-1)), [c.eq(2*X-1, P)]).solve(quiet=True),
                want, 'affine argument', **TOL)
    # scalar arguments
    if k == 0:
        for s in (.5, 2.):
            w = {'log_sum_exp': s, 'det_rootn': s, 'geo_mean': s}.get(
                name, s)
            R.close(f(s), w, 'value at a number', s=s, **TOL)
            x = c.variable()
            R.close(c.program(opt(f(x)), [c.eq(x, s)]).solve(quiet=True), w,
                    'scalar variable', s=s, **TOL)
        R.raises(TypeError, lambda: f(None), 'invalid argument')
        if sq:
            R.raises(ValueError, lambda: f(c.variable(2, 3)), 'shape')
            if name != 'det_rootn':
                R.check(f(c.matrix([[1, 2], [0, 1]])) == curv*math.inf,
                        'not symmetric')
        if name in ('geo_mean', 'log_sum_exp'):
            R.raises(ValueError, lambda: f(c.variable(1, 3)), 'shape')
        if name == 'geo_mean':
            R.check(f(c.matrix([[1.], [-1.]])) == -math.inf, 'out of domain')
    if name in ('max', 'min', 'log_sum_exp', 'geo_mean') and v.shape[1] == 1:
        X = c.variable(*v.shape)
        inner = [(c.square, 1, lambda z: z*z), (c.sqrt, -1, np.sqrt)]
        for g, gc, gr in inner:
            if gc < 0 and (v <= 0).any():
                continue
            p = c.program(opt(f(g(X))), [c.eq(X, c.matrix(v))])
            ok = gc == curv
            R.check(p.is_dcp() == ok, 'composition rule', gc=gc)
            if ok:
                R.close(p.solve(quiet=True), ref(gr(v)), 'composition',
                        gc=gc, **TOL)
    elif not sq and not mono:
        X = c.variable(*v.shape)
        R.check(not f(c.square(X)).is_dcp() and
                not f(c.sqrt(X)).is_dcp(), 'composition rule')
    R.outcome(name)


# two argument functions
def kl(x, y):
    return sum(a*math.log(a/b)-a+b for a, b in zip(x, y))


def two_cases(tier):
    for i in range(3):
        yield {'name': 'quad_form', 'k': i}
        yield {'name': 'quad_over_lin', 'k': i}
        yield {'name': 'kl_div', 'k': i}


def two_run(R, name, k):
    c = _mk()
    f = getattr(c, name)
    xs = [[2.], [1., -2.], [.5, 3., 1.]][k]
    n = len(xs)
    X = c.matrix([[v] for v in xs])

    def var():
        return c.variable(n, 1)

    def fixed(o, vals):
        return [c.eq(o, c.matrix([[v] for v in vals]) if n > 1 else vals[0])]
    if name == 'quad_form':
        for P in ([np.eye(n), np.diag(np.arange(n)+1.),
                   np.ones((n, n))+np.eye(n)] + [2.]):
            R.step()
            Pm = c.matrix(P) if not np.isscalar(P) else P
            want = float(np.dot(xs, np.dot(P, xs)) if not np.isscalar(P)
                         else P*np.dot(xs, xs))
            R.close(f(X if n > 1 else xs[0], Pm), want, 'value', **TOL)
            o = var()
            e = f(o, Pm)
            R.check(e.is_convex() and not e.is_concave(), 'curvature')
            R.close(c.program(c.minimize(e), fixed(o, xs)).solve(quiet=True),
                    want, 'value in a program', **TOL)
            R.check(not f(c.square(o), Pm).is_dcp(), 'composition')
        R.raises(ValueError, lambda: f(var(), c.matrix(-np.eye(n))),
                 'not semidefinite')
        R.raises(ValueError, lambda: f(var(), c.matrix(np.eye(n+1))),
                 'shape')
        if n > 1:
            R.raises(ValueError,
                     lambda: f(var(), c.matrix(np.triu(np.ones((n, n))))),
                     'not symmetric')
            R.raises(ValueError, lambda: f(var().T, c.eye(n)), 'row')
        R.raises(TypeError, lambda: f(None, c.eye(n)), 'type')
        R.raises(TypeError, lambda: f(var(), None), 'type')
        # a regression: minimum over a line
        if n > 1:
            o = var()
            P = np.ones((n, n))+np.eye(n)
            p = c.program(c.minimize(f(o, c.matrix(P))), [c.eq(c.sum(o), 2)])
            w = np.linalg.solve(P, np.ones(n))
            w = 2*w/w.sum()
            R.close(p.solve(quiet=True), float(w.dot(P).dot(w)), 'minimum',
                    **TOL)
            R.close(dense(o).ravel(), w, 'minimizer', rtol=1e-2, atol=1e-2)
    elif name == 'quad_over_lin':
        for y in (.5, 1, 3.):
            R.step()
            want = float(np.dot(xs, xs)/y)
            R.close(f(X if n > 1 else xs[0], y), want, 'value', **TOL)
            o, q = var(), c.variable()
            e = f(o, q)
            R.check(e.is_convex() and not e.is_concave(), 'curvature')
            R.close(c.program(c.minimize(e), fixed(o, xs)+[c.eq(q, y)]
                              ).solve(quiet=True), want,
                    'value in a program', **TOL)
            R.close(c.program(c.minimize(f(X if n > 1 else xs[0], q)),
                              [c.eq(q, y)]).solve(quiet=True), want,
                    'constant numerator', **TOL)
            R.close(c.program(c.minimize(f(o, y)), fixed(o, xs)).solve(
                quiet=True), want, 'constant denominator', **TOL)
            # decreasing in the denominator
            R.close(c.program(c.minimize(f(o, c.sqrt(q))),
                              fixed(o, xs)+[c.leq(q, y*y)]).solve(
                quiet=True), want, 'concave denominator', **TOL)
            R.check(not f(o, c.square(q)).is_dcp() and
                    not f(c.square(o), q).is_dcp(), 'composition')
        for y in (0, -1.):
            R.check(f(X if n > 1 else xs[0], y) == math.inf,
                    'out of the domain', y=y)
        R.raises(TypeError, lambda: f(X, None), 'type')
        R.raises(TypeError, lambda: f(None, 1), 'type')
    else:
        xs = [[2.], [1., .5], [.5, 3., 1.]][k]
        X = c.matrix([[v] for v in xs])
        for ys in ([1., .5, 3.][:n], [2., 2., 2.][:n], [.3, 1., .5][:n]):
            R.step()
            Y = c.matrix([[v] for v in ys])
            want = kl(xs, ys)
            R.close(f(X if n > 1 else xs[0], Y if n > 1 else ys[0]), want,
                    'value', **TOL)
            o, q = var(), var()
            e = f(o, q)
            R.check(e.is_convex() and not e.is_concave(), 'curvature')
            R.close(c.program(c.minimize(e), fixed(o, xs)+fixed(q, ys)
                              ).solve(quiet=True), want,
                    'value in a program', **TOL)
            o = var()
            R.close(c.program(c.minimize(f(o, Y if n > 1 else ys[0])),
                              fixed(o, xs)).solve(quiet=True), want,
                    'constant second argument', **TOL)
            q = var()
            R.close(c.program(c.minimize(f(X if n > 1 else xs[0], q)),
                              fixed(q, ys)).solve(quiet=True), want,
                    'constant first argument', **TOL)
            R.check(not f(c.square(o), q).is_dcp() and
                    not f(o, c.sqrt(q)).is_dcp(), 'composition')
        R.check(f(-1., 1.) == math.inf and f(1., 0.) == math.inf,
                'out of the domain')
        R.raises(ValueError, lambda: f(var(), c.variable(n+1, 1)),
                 'dimension mismatch')
        # the same variable in both arguments: (u-1) log u - s u
        for s in (0., .5, 2.):
            u = c.variable()
            p = c.program(c.minimize(f(c.vstack((u, 1)), c.vstack((1, u)))
                                     - s*u), [c.leq(u, 30)])
            lo, hi = 1e-9, 30.
            for _ in range(200):
                mid = (lo+hi)/2
                if math.log(mid)+(mid-1)/mid-s > 0:
                    hi = mid
                else:
                    lo = mid
            R.close(p.solve(quiet=True), (lo-1)*math.log(lo)-s*lo,
                    'variable in both arguments', s=s, **TOL)
            R.close(u.value, lo, 'minimizer', s=s, rtol=1e-2, atol=1e-2)
    R.outcome(name)


# ---------------------------------------------------------------------------
# Sets
# ---------------------------------------------------------------------------
def in_soc(v):
    return v[-1]-np.linalg.norm(v[:-1])


def in_geo(v):
    return min(min(v[:-1]), np.prod(np.maximum(v[:-1], 0)) **
               (1./(len(v)-1))-v[-1])


def in_exp(v):
    return min(v[1], v[2]-v[1]*math.exp(v[0]/v[1]) if v[1] > 0 else -1)


def in_pow(v, p):
    return min(v[0], v[1]-max(v[0], 0)**p)


def in_kl(v):
    n = (len(v)-1)//2
    if min(v[:-1]) <= 0:
        return -1.
    return v[-1]-kl(v[:n], v[n:2*n])


def in_cdf(v):
    return math.log(ncdf(v[0]))-v[1]


def sets_cases(tier):
    for s in ('second_order_cone', 'geo_mean_cone', 'exp_cone',
              'power_pos_epi', 'kl_div_epi', 'log_norm_cdf_hypo',
              'semidefinite_cone'):
        yield {'s': s}


def sets_run(R, s):
    c = _mk()
    S = getattr(c, s)
    if s == 'semidefinite_cone':
        pts = [[[2., a], [a, b]] for a in (-1.5, -.5, 0., 1., 2.)
               for b in (-1., .5, 1., 3.)]
        pts += [[[2., a, 0.], [a, 1., b], [0., b, 1.5]]
                for a in (-1.5, .5, 1.) for b in (-1., .5, 1.5)]
        for v in pts:
            v = np.array(v)
            m = np.linalg.eigvalsh(v)[0]
            if abs(m) < 1e-2:
                continue
            R.step()
            n = v.shape[0]
            X = c.variable(n, n, 'symmetric')
            fix = [c.eq(X[i, j], v[i, j]) for i in range(n)
                   for j in range(i+1)]
            t = c.variable()
            # the largest shift that stays in the cone is the smallest
            # eigenvalue
            p = c.program(c.maximize(t),
                          [c.belongs(X-t*c.eye(n), S)]+fix)
            R.close(p.solve(quiet=True), m, 'distance to the border', v=v,
                    **TOL)
            p = c.program(c.maximize(t), [c.belongs(X, S), c.leq(t, 3)]+fix)
            got = p.solve(quiet=True)
            R.check((got == -math.inf) == (m < 0) and
                    (m < 0 or abs(got-3) < 1e-4), 'membership', v=v, got=got)
            p = c.program(c.maximize(t),
                          [c.belongs(c.matrix(v)-t*c.eye(n), S)])
            R.close(p.solve(quiet=True), m, 'constant matrix', v=v, **TOL)
        R.raises(ValueError, lambda: c.belongs(c.variable(2, 3), S), 'shape')
        R.outcome(s)
        return
    table = {
        'second_order_cone': (in_soc, [2, 3, 4], {}),
        'geo_mean_cone': (in_geo, [2, 3, 4, 5], {}),
        'exp_cone': (in_exp, [3], {}),
        'power_pos_epi': (in_pow, [2], {}),
        'kl_div_epi': (in_kl, [3, 5], {}),
        'log_norm_cdf_hypo': (in_cdf, [2], {}),
    }
    fn, lens, _ = table[s]
    alph = [.5, 1., 2.5] if s != 'second_order_cone' else [-1., .5, 2.]
    if s in ('exp_cone', 'log_norm_cdf_hypo'):
        alph = [-1., .5, 1.5]
    for par in ((1.5, 2., 3.) if s == 'power_pos_epi' else (None,)):
        SS = S(par) if par else S
        g = (lambda v: fn(v, par)) if par else fn
        for L in lens:
            for v in itertools.product(alph, repeat=L):
                if L > 3 and sum(map(abs, v))*2 % 3 and R.tier == 'quick':
                    continue
                if s == 'exp_cone' and v[1] <= 0:
                    continue
                v = list(v)
                # the last coordinate is optimized given the others
                if s in ('second_order_cone', 'exp_cone', 'power_pos_epi',
                         'kl_div_epi'):
                    sense = 1           # smallest admissible
                else:
                    sense = -1
                base = list(v[:-1])
                want = last(s, base, par)
                R.step()
                R.state(par, L, v)
                for mode in range(3):
                    t = c.variable()
                    fix, el = [], []
                    for i, w in enumerate(base):
                        if mode == 0 or mode == 1 and i % 2:
                            z = c.variable()
                            fix.append(c.eq(z, w))
                            el.append(z)
                        elif mode == 1:
                            el.append(w)
                        else:
                            z = c.variable()
                            fix.append(c.eq(2*z+1, w))
                            el.append(2*z+1)
                    p = c.program((c.minimize if sense > 0 else c.maximize)(
                        t), [c.belongs(c.vstack(el+[t]), SS)]+fix)
                    got, ok = p.solve(quiet=True, return_status=True)
                    if s == 'exp_cone' and mode != 1 and not ok:
                        # CVXOPT gives up, and says so, when the perspective
                        # is taken with respect to a variable
                        R.outcome('no solution')
                        continue
                    R.close(got, want, 'border of the set',
                            v=base, mode=mode, par=par, **TOL)
                if R.tier == 'quick' and L > 3:
                    break
        for shp in ((1, 1), (1, 3), (2, 2)):
            if shp == (1, 1):
                R.raises(TypeError, lambda: c.belongs(c.variable(), SS),
                         'scalar')
            else:
                R.raises(ValueError, lambda: c.belongs(c.variable(*shp), SS),
                         'shape', shp=shp)
    R.outcome(s)


def last(s, b, p):
    """Extreme value of the last coordinate."""
    if s == 'second_order_cone':
        return float(np.linalg.norm(b))
    if s == 'geo_mean_cone':
        return float(np.prod(b))**(1./len(b))
    if s == 'exp_cone':
        return b[1]*math.exp(b[0]/b[1])
    if s == 'power_pos_epi':
        return b[0]**p
    if s == 'kl_div_epi':
        n = len(b)//2
        return kl(b[:n], b[n:])
    return math.log(ncdf(b[0]))


# ---------------------------------------------------------------------------
# Programs: parameters, histories, programs as functions, misuse
# ---------------------------------------------------------------------------
# minimize a x + y  s.t.  x + y >= b, x >= -1, y >= q (q >= 0), x <= 5, y <= 9
def prog_ref(a, b, q):
    cons = [(-1, -1, -b), (-1, 0, 1), (0, -1, -q), (1, 0, 5), (0, 1, 9)]
    F = fractions.Fraction
    cons = [tuple(F(v) for v in t) for t in cons]
    r = lp_ref(cons, (F(a), F(1)))
    return math.inf if r is None else float(r)


OPS = ['a=2', 'a=-1', 'a=0', 'b=3', 'b=20', 'q=1', 'q=4', 'q=-1', 'a=nan',
       'solve', 'formal']


def history_cases(tier):
    for h in itertools.product(range(len(OPS)), repeat=2):
        yield {'head': list(h)}


def history_run(R, head):
    c = _mk()
    depth = 2 if R.tier == 'quick' else 3
    for tail in itertools.product(range(len(OPS)), repeat=depth-1):
        x, y = c.variable(), c.variable()
        a, b = c.parameter(), c.parameter()
        q = c.parameter(attribute='nonnegative')
        a.value, b.value, q.value = 1., 2., .5
        val = {'a': 1., 'b': 2., 'q': .5}
        par = {'a': a, 'b': b, 'q': q}
        cons = [c.geq(x+y, b), c.geq(x, -1), c.geq(y, q), c.leq(x, 5),
                c.leq(y, 9)]
        p = c.program(c.minimize(a*x+y), cons)
        f = c.program(c.minimize(a*x+y), cons, [a, b, q])
        hist = [OPS[i] for i in list(head)+list(tail)]+['solve', 'formal']
        R.trace()
        for n, op in enumerate(hist):
            R.step()
            info = dict(hist=hist, n=n)
            R.state(tuple(sorted(val.items())), op)
            if op == 'formal':
                R.close(f(2., 1., 0), prog_ref(2, 1, 0),
                        'program as a function', rtol=1e-5, atol=1e-5,
                        **info)
            elif op == 'solve':
                if any(v != v for v in val.values()):
                    R.raises(ValueError, lambda: p.solve(quiet=True),
                             'undefined parameter', match='NaN', **info)
                    continue
                want = prog_ref(val['a'], val['b'], val['q'])
                got = p.solve(quiet=True)
                R.outcome(got == math.inf)
                if want == math.inf:
                    R.check(got == want, 'infeasible', got=got, **info)
                    continue
                R.close(got, want, 'optimal value after a history',
                        rtol=1e-5, atol=1e-5, val=val, **info)
                X, Y = x.value, y.value
                R.close(val['a']*X+Y, want, 'solution after a history',
                        rtol=1e-4, atol=1e-4, **info)
                R.check(X+Y >= val['b']-1e-4 and X >= -1.0001 and
                        Y >= val['q']-1e-4 and X <= 5.0001 and Y <= 9.0001,
                        'feasible', X=X, Y=Y, **info)
            else:
                nm, v = op.split('=')
                v = float(v)
                if nm == 'q' and v < 0:
                    R.raises(ValueError, lambda: setattr(q, 'value', v),
                             'value against the attribute', **info)
                else:
                    par[nm].value = v
                    val[nm] = v
                R.check(par[nm].value == val[nm] or v != v,
                        'value of a parameter', **info)
        R.check(len(p.constraints) == 5 and len(p.parameters) == 3 and
                len(p.variables) == 2, 'program unchanged')


def func_cases(tier):
    yield {}


def func_run(R):
    c = _mk()
    # programs as functions: partial minimization
    for bad_ in (0,):
        v = c.variable()
        t = c.variable()
        P = c.program(c.minimize(t), [c.leq(v-1, t), c.leq(-2*v, t)], [v])
        ref = lambda z: max(z-1, -2*z)
        for z in (-2., -.5, 0., 1/3., 1., 4.):
            R.step()
            R.close(P(z), ref(z), 'value of a program', z=z, **TOL)
            x = c.variable()
            R.close(c.program(c.minimize(P(x)+.5*x), [c.eq(x, z)]).solve(
                quiet=True), ref(z)+.5*z, 'program within a program', z=z,
                **TOL)
            R.close(c.program(c.minimize(P(2*x+1)), [c.eq(x, z)]).solve(
                quiet=True), ref(2*z+1), 'affine argument', z=z, **TOL)
            R.close(c.program(c.minimize(P(x)+P(-x)), [c.eq(x, z)]).solve(
                quiet=True), ref(z)+ref(-z), 'twice', z=z, **TOL)
        x = c.variable()
        R.close(c.program(c.minimize(P(x)), [c.leq(x, 10)]).solve(
            quiet=True), -2/3., 'minimum', **TOL)
        R.close(x.value, 1/3., 'minimizer', **TOL)
        R.check(P(x).is_convex() and not P(x).is_concave(), 'curvature')
        R.check(not c.program(c.maximize(P(x)), [c.leq(x, 1)]).is_dcp(),
                'nonconvex')
        R.raises(TypeError, lambda: P(), 'number of arguments')
        R.raises(TypeError, lambda: P(1, 2), 'number of arguments')
        R.raises(TypeError, lambda: P(None), 'argument type')
        R.raises(ValueError, lambda: P(c.variable(2, 1)), 'argument shape')
        R.raises(ValueError, lambda: P(float('nan')), 'NaN argument')
    # inner variables of a program are private to each of its uses
    for hist in itertools.product((-2., 0., 1., 4.), repeat=3):
        xs = [c.variable() for _ in hist]
        p = c.program(c.minimize(P(xs[0])+2*P(xs[1]-1)+c.max(c.vstack((
            P(xs[2]), P(xs[0]))))), [c.eq(x, z) for x, z in zip(xs, hist)])
        R.step()
        R.state('uses', hist)
        R.close(p.solve(quiet=True), ref(hist[0])+2*ref(hist[1]-1)+max(
            ref(hist[2]), ref(hist[0])), 'several uses', hist=hist, **TOL)
    # formals as arguments of their own program, also exchanged
    g, h, t = c.variable(), c.variable(), c.variable()
    D = c.program(c.minimize(t), [c.leq(2*g-h, t), c.leq(-h, t)], [g, h])
    for a, b in itertools.product((-2., 0., 1., 3.), repeat=2):
        for e, w in ((D(g, h), max(2*a-b, -b)), (D(h, g), max(2*b-a, -a)),
                     (D(g+1, g), max(a+2, -a)),
                     (D(h, 2*h+g), max(-a, -2*b-a)),
                     (D(g, t), max(2*a-1, -1))):
            R.step()
            R.close(c.program(c.minimize(e), [c.eq(g, a), c.eq(h, b),
                                              c.eq(t, 1)]).solve(quiet=True),
                    w, 'formals as arguments', a=a, b=b, e=str(e), **TOL)
    # vector formals and matrices
    V = c.variable(2, 1)
    t = c.variable()
    Q = c.program(c.minimize(t), [c.leq(c.sum(V), t), c.leq(-V[0, 0], t)],
                  [V])
    for z in itertools.product((-1., 0., 2.), repeat=2):
        R.step()
        w = max(sum(z), -z[0])
        R.close(Q(c.matrix([[z[0]], [z[1]]])), w, 'vector argument', z=z,
                **TOL)
        X = c.variable(2, 1)
        R.close(c.program(c.minimize(Q(X)), [c.eq(X, c.matrix(
            [[z[0]], [z[1]]]))]).solve(quiet=True), w, 'vector variable',
            z=z, **TOL)
        R.close(c.program(c.minimize(Q(c.vstack((X[1, 0], z[0])))), [
            c.eq(X, c.matrix([[0.], [z[1]]]))]).solve(quiet=True),
            max(sum(z), -z[1]), 'mixed argument', z=z, **TOL)
    R.raises(ValueError, lambda: Q(c.variable(1, 2)), 'argument shape')
    R.raises(ValueError, lambda: Q(1.), 'argument shape')
    # parameters as formals take no variables
    a, x = c.parameter(), c.variable()
    G = c.program(c.minimize(a*x), [c.geq(x, 2), c.leq(x, 3)], [a])
    for z in (-1., .5, 2.):
        R.close(G(z), min(2*z, 3*z), 'parameter argument', z=z, **TOL)
    R.raises(TypeError, lambda: G(c.variable()), 'variable for a parameter')
    # constant objectives and trivial constraints
    for act in (c.minimize, c.maximize):
        for v in (4, -2.5, 0):
            x = c.variable()
            R.close(c.program(act(v), [c.geq(x, 1)]).solve(quiet=True), v,
                    'constant objective', v=v, **TOL)
            b = c.parameter()
            b.value = v
            R.close(c.program(act(2*b+1), [c.geq(x, 1)]).solve(quiet=True),
                    2*v+1, 'objective of parameters', v=v, **TOL)
            sg = math.inf if act is c.minimize else -math.inf
            R.check(c.program(act(v), [c.geq(x, 1), c.leq(x, 0)]).solve(
                quiet=True) == sg, 'constant objective, infeasible')
            R.close(c.program(act(x+b), [c.leq(b, v), c.eq(x, 1), c.eq(
                b, v)]).solve(quiet=True), 1+v, 'constraint on parameters',
                **TOL)
            R.check(c.program(act(x), [c.leq(b, v-1), c.leq(x, 1), c.geq(
                x, 1)]).solve(quiet=True) == sg,
                'constraint on parameters, infeasible')
    # attributes of parameters and convexity
    x = c.variable()
    pos, neg, free = (c.parameter(attribute='nonnegative'),
                      c.parameter(attribute='nonpositive'), c.parameter())
    pos.value, neg.value, free.value = 2., -2., 1.
    sq, rt = c.square(x), c.sqrt(x)
    for e, cx, cc in ((pos*sq, 1, 0), (neg*sq, 0, 1), (free*sq, 0, 0),
                      (pos*rt, 0, 1), (neg*rt, 1, 0), (free*rt, 0, 0),
                      (free*x, 1, 1), (pos*sq+neg*rt, 1, 0),
                      (pos*sq+pos*rt, 0, 0), (sq-rt, 1, 0), (rt-sq, 0, 1),
                      (-sq, 0, 1), (3*sq-x, 1, 0), (-2.*rt+x, 1, 0),
                      ((pos+pos)*sq, 1, 0), ((pos*neg)*sq, 0, 1),
                      ((neg*neg)*sq, 1, 0), ((pos+neg)*sq, 0, 0),
                      ((pos-neg)*sq, 1, 0), (pos*(sq-rt), 1, 0),
                      (neg*(sq-rt), 0, 1), (neg*(x+1), 1, 1)):
        R.step()
        R.check((e.is_convex(), e.is_concave()) == (bool(cx), bool(cc)) and
                e.is_affine() == bool(cx and cc) and
                e.is_dcp() == bool(cx or cc), 'convexity rules', e=str(e))
        for op, ok in ((c.leq, cx), (c.geq, cc), (c.eq, cx and cc)):
            R.check(op(e, 1).is_dcp() == bool(ok) and
                    op(e, x).is_dcp() == bool(ok), 'constraint rules',
                    e=str(e))
            rev = {c.leq: c.geq, c.geq: c.leq, c.eq: c.eq}[op]
            R.check(rev(1, e).is_dcp() == bool(ok), 'constraint rules',
                    e=str(e))
        if cx or cc:
            w = value_at(e, x, 1.5)
            p = c.program((c.minimize if cx else c.maximize)(e),
                          [c.eq(x, 1.5)])
            R.close(p.solve(quiet=True), w, 'value', e=str(e), **TOL)
    for pr, v in ((pos, -1.), (neg, 1.)):
        old = pr.value
        R.raises(ValueError, lambda: setattr(pr, 'value', v), 'sign')
        R.check(pr.value == old, 'value kept')
        pr.value = 0.
    R.raises(TypeError, lambda: setattr(free, 'value', [1.]), 'not a number')
    P = c.parameter(2, 1, 'nonnegative')
    R.raises(ValueError, lambda: setattr(P, 'value', c.matrix([[1.], [-1.]])),
             'sign in an array')
    R.raises(TypeError, lambda: setattr(P, 'value', [[1.], [1.]]), 'type')
    R.raises(ValueError, lambda: setattr(P, 'value', c.eye(2)), 'shape')
    R.outcome('functions')


def value_at(e, x, v):
    x.value = v
    return e.value


def compare_cases(tier):
    yield {}


def compare_run(R):
    """Constraints between every pair of shapes, and misuse."""
    c = _mk()
    shapes = [(1, 1)]+SHAPES
    for s1 in shapes:
        for s2 in shapes:
            for k1, k2 in (('var', 'matrix'), ('matrix', 'var'),
                           ('var', 'var'), ('param', 'var'),
                           ('expr', 'param')):
                def mk(k, s, n):
                    if s == (1, 1):
                        return make({'var': 'svar', 'matrix': 'number',
                                     'param': 'sparam',
                                     'expr': 'stree'}[k], s, n)
                    return make(k, s, n)
                o1, v1 = mk(k1, s1, 1)
                o2, v2 = mk(k2, s2, 2)
                R.step()
                R.state(s1, s2, k1, k2)
                for op, sym in ((c.eq, '=='), (c.leq, '<='), (c.geq, '>='),
                                (c.equals, '=='), (c.less_equals, '<='),
                                (c.greater_equals, '>=')):
                    info = dict(s1=s1, s2=s2, k1=k1, k2=k2, sym=sym)
                    if (1, 1) not in (s1, s2) and s1 != s2:
                        R.raises(ValueError, lambda: op(o1, o2),
                                 'shapes of a constraint', **info)
                        continue
                    r = op(o1, o2)
                    if s1 == s2 == (1, 1):
                        r = [r]
                    w1 = np.broadcast_to(v1, np.broadcast_shapes(
                        np.shape(v1), np.shape(v2))) if True else None
                    w2 = np.broadcast_to(v2, w1.shape)
                    R.check(len(r) == w1.size, 'number of constraints',
                            got=len(r), **info)
                    R.check(all(q.type == sym for q in r), 'relation',
                            **info)
                    R.close([value_of(q.left) for q in r], w1.ravel(),
                            'left sides', **info)
                    R.close([value_of(q.right) for q in r], w2.ravel(),
                            'right sides', **info)
    for b in (None, 'abcd'[0:0] or None, [1], np.ones(2)):
        R.raises(TypeError, lambda: c.leq(b, c.variable()), 'operand',
                 b=repr(b))
    x = c.variable()
    for b in (None, [x], np.ones(2)):
        R.raises(TypeError, lambda: c.program(c.minimize(b)), 'objective',
                 b=repr(b))
    for b in (3, 'x', 2*x, c.matrix([[1.]])):
        R.raises(TypeError, lambda: c.program(c.minimize(x), [], [b]),
                 'formals', b=repr(b))
    R.raises(TypeError, lambda: c.belongs(c.variable(2, 1), None), 'set')
    R.raises(TypeError, lambda: c.belongs(3., c.exp_cone), 'element')
    # equality constraints and vectors through the solver
    for s in SHAPES:
        X = c.variable(*s)
        v = numbers(s[0], s[1], 8)
        for op, act in ((c.geq, c.minimize), (c.leq, c.maximize),
                        (c.eq, c.minimize), (c.eq, c.maximize)):
            for rhs in (c.matrix(v), None):
                if rhs is None:
                    rhs, w = c.parameter(*s), v
                    rhs.value = c.matrix(v)
                p = c.program(act(c.sum(X)), [op(X, rhs)])
                R.close(p.solve(quiet=True), v.sum(), 'array constraint',
                        s=s, **TOL)
                R.close(dense(X), v, 'array solution', s=s, **TOL)
        for op, act in ((c.geq, c.minimize), (c.leq, c.maximize)):
            R.close(c.program(act(c.sum(X)), [op(X, -1.5)]).solve(
                quiet=True), -1.5*v.size, 'array against a number', s=s,
                **TOL)
    # every kind of constant in a system of equations
    A = numbers(3, 3, 9)+4*np.eye(3)
    b = numbers(3, 1, 10)
    w = np.linalg.solve(A, b)
    for mk in (c.matrix, c.spmatrix):
        for tr in (False, True):
            X = c.variable(3, 1)
            lhs = mk(A)*X if not tr else (X.T*mk(A.T)).T
            p = c.program(c.minimize(c.sum(X)), [c.eq(lhs, c.matrix(b))])
            R.close(p.solve(quiet=True), w.sum(), 'linear system', **TOL)
            R.close(dense(X), w, 'solution of a linear system', **TOL)
            X = c.variable(3, 1)
            p = c.program(c.minimize(c.norm2(lhs0(c, mk, A, X)-c.matrix(b))),
                          [])
            R.check(p.is_dcp(), 'least squares accepted')
    # spmatrix on the right and on the left of a difference
    for m1 in (c.matrix, c.spmatrix):
        X = c.variable(3, 3)
        D = np.diag([1., 2., 3.])
        p = c.program(c.minimize(c.sum(X)), [c.geq(m1(D)-X, -c.ones((3, 3))),
                                             c.leq(m1(D)-X, c.ones((3, 3)))])
        R.close(p.solve(quiet=True), float((D-1).sum()), 'difference', **TOL)
        R.close(dense(X), D-1, 'difference', **TOL)
    R.outcome('comparisons')


def lhs0(c, mk, A, X):
    return mk(A)*X


# ---------------------------------------------------------------------------
# Solver options
# ---------------------------------------------------------------------------
def options_cases(tier):
    yield {}


def options_run(R):
    c = _mk()
    from cvxopt import solvers
    import sys
    seen = []
    saved = dict(solvers.options)
    where = [(m, n, getattr(solvers, f)) for f in ('conelp', 'cpl')
             for m in [solvers]+[m for k, m in list(sys.modules.items())
                                 if k.startswith('pydsm') and m]
             for n, v in list(vars(m).items())
             if v is getattr(solvers, f)]

    def spy(f):
        def g(*a, **k):
            seen.append(dict(k.get('options', solvers.options)))
            return f(*a, **k)
        return g
    import pydsm.cvxpy_tdr.defs as defs
    base = dict(defs.CONFIGURATION)
    for m, n, f in where:
        setattr(m, n, spy(f))
    try:
        grid = [{}, {'maxiters': 50}, {'abstol': 1e-9, 'reltol': 1e-8},
                {'feastol': 1e-8}, {'maxiters': 77, 'feastol': 1e-5}]
        for hist in itertools.product(range(len(grid)), repeat=2):
            for atom in (False, True):
                for q in (True, False):
                    for i in hist:
                        x = c.variable()
                        # the second program needs the nonlinear solver
                        obj = c.exp(x) if atom else 1*x
                        o = dict(base, **grid[i])
                        p = c.program(c.minimize(obj), [c.geq(x, 1)],
                                      options=dict(o) if grid[i] else None)
                        del seen[:]
                        R.step()
                        R.state(hist, atom, q, i)
                        v = p.solve(quiet=q)
                        R.close(v, math.e if atom else 1., 'value', **TOL)
                        # (other entry points of CVXOPT are not observed)
                        for k in o if seen else ():
                            R.check(seen[0].get(k) == o[k],
                                    'option at the solver', k=k,
                                    got=seen[0].get(k), want=o[k],
                                    hist=hist)
                        R.check(not seen or seen[0]['show_progress'] ==
                                (not q), 'verbosity', q=q)
                        R.check(p.options == o, 'options unchanged')
                        # by their effect: too few iterations
                        z = c.variable()
                        short = c.program(c.minimize(obj), [
                            c.geq(x+z, 3), c.leq(c.norm1(z), 1)],
                            options=dict(o, maxiters=1))
                        R.check(not short.solve(quiet=True,
                                                return_status=True)[1],
                                'iterations allowed', hist=hist)
                        if not grid[i]:
                            p.options['maxiters'] = 1
                        y, z = c.variable(), c.variable()
                        v, ok = c.program(
                            c.minimize(c.exp(y) if atom else y),
                            [c.geq(y+z, 3), c.leq(c.norm1(z), 1)]).solve(
                                True, True)
                        R.check(ok, 'options of another program')
                        p.options['maxiters'] = 33
                        R.check(defs.CONFIGURATION == base,
                                'default configuration unchanged')
    finally:
        for m, n, f in where:
            setattr(m, n, f)
        solvers.options.clear()
        solvers.options.update(saved)
    R.outcome('options')


# ---------------------------------------------------------------------------
# Sparse arrays and printed forms
# ---------------------------------------------------------------------------
def sparse_cases(tier):
    for m, n in ((1, 1), (1, 3), (2, 2), (3, 1), (2, 3)) + \
            (() if tier == 'quick' else ((3, 2), (3, 3))):
        for l in 'yab':
            yield {'m': m, 'n': n, 'l': l}


def sparse_run(R, m, n, l):
    """All the patterns of a sparse matrix times a scalar object."""
    c = _mk()
    E = Expr()
    E.assign(VALS[0])
    q = E.d[l]
    val = q.value
    for mask in itertools.product((0, 1), repeat=m*n):
        v = np.array(mask, dtype=float).reshape(m, n) * \
            (np.arange(m*n)*1.5-2).reshape(m, n)
        for a in (c.spmatrix(v)*q, q*c.spmatrix(v)):
            R.step()
            R.check(tuple(a.shape) == (m, n) and a.nnz == sum(mask),
                    'sparse shape and size', mask=mask)
            for b, w in ((a, v), (a.T, v.T), (a.T.T, v)):
                R.close(b.value.toarray(), w*val, 'sparse value', mask=mask)
                R.check(names(b.variables, E.d) ==
                        ([l] if l == 'y' and any(mask) else []) and
                        names(b.parameters, E.d) ==
                        ([l] if l != 'y' and any(mask) else []),
                        'leaves of a sparse array', mask=mask)
                got = {}
                for line in str(b).split('\n') if any(mask) else ():
                    k, t = line.strip().split('\t\t')
                    got[eval(k)] = eval(t, {l: val})
                R.check(set(got) == set(zip(*map(tuple, np.nonzero(w)))) and
                        all(abs(got[k]-w[k]*val) < 1e-9 for k in got),
                        'text of a sparse array', mask=mask, text=str(b))
        # write an entry over
        for i in range(m):
            for j in range(n):
                for new in (0., 2.5, E.x):
                    a = c.spmatrix(v)*q
                    a[i, j] = new
                    w = v*val
                    w[i, j] = new if np.isscalar(new) else new.value
                    R.close(a.value.toarray(), w, 'sparse assignment',
                            mask=mask, i=i, j=j)
                    R.check(a.nnz == np.count_nonzero(w), 'sparse size',
                            mask=mask, i=i, j=j)
        for k in ((0,), (-1, 0), (m, 0), (0, n), (0, -1)):
            a = c.spmatrix(v)*q
            if len(k) == 2:
                R.raises(ValueError, lambda: a[k], 'sparse index', k=k)
                R.raises(ValueError, lambda: a.__setitem__(k, 1.),
                         'sparse assignment index', k=k)
            else:
                R.raises(TypeError, lambda: a[k[0]], 'sparse key', k=k)
                R.raises(TypeError, lambda: a.__setitem__(k[0], 1.),
                         'sparse assignment key', k=k)
    R.bulk_states(2**(m*n))
    R.outcome(m, n, l)
    R.trace()


def text_cases(tier):
    for m in range(1, 4):
        for n in range(1, 4):
            yield {'m': m, 'n': n}


def text_run(R, m, n):
    """Arrays, constraints and programs print what they are."""
    import contextlib
    import io
    c = _mk()
    v = numbers(m, n, 5)
    x = c.variable(m, n, name='x')
    p = c.parameter(m, n, name='p')
    if m == n == 1:
        x.value, p.value = float(v[0, 0]), float(-2*v[0, 0])
    else:
        x.value, p.value = c.matrix(v), c.matrix(-2*v)

    class Ix(object):
        def __init__(self, a):
            self.a = a

        def __getitem__(self, k):
            return self.a[k]
    env = {'x': Ix(v), 'p': Ix(-2*v)}
    if m == n == 1:
        env = {'x': v[0, 0], 'p': -2*v[0, 0]}

    def text(a):
        t = str(a)
        if tuple(a.shape) == (1, 1) and '[[' not in t:
            return np.array([[eval(t, dict(env))]])
        out = []
        for r in t.split('\n'):
            r = r.strip().lstrip('[ ')
            while r.endswith((' ]', ']]')):
                r = r[:-1].rstrip()
            out.append([eval(e, dict(env)) for e in r.split('  ')])
        return np.array(out)
    for a, w in ((x, v), (p, -2*v), (x+1, v+1), (2*x, 2*v), (x-p, 3*v),
                 (-x, -v), (x.T, v.T), (3-x, 3-v)):
        R.step()
        R.state(repr(w))
        R.close(text(a), w, 'text of an array', text=str(a))
    # constraints print one per line
    for f, g in ((c.eq, '=='), (c.leq, '<='), (c.geq, '>=')):
        k = f(x, p)
        lines = [l for l in str(k).split('\n') if l.strip()]
        R.check(len(lines) == m*n, 'one line per constraint', text=str(k))
        got = []
        for l in lines:
            a, b = l.split(g)
            got.append((eval(a.strip(), dict(env)),
                        eval(b.strip(), dict(env))))
        R.check(sorted(got) == sorted(zip(v.ravel(), (-2*v).ravel())),
                'text of constraints', text=str(k))
    y = c.variable(name='y')
    for act, word in ((c.minimize, 'minimize'), (c.maximize, 'maximize')):
        pr = c.program(act(c.sum(x)+y), [c.eq(x, p), c.leq(y, 1)])
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            pr.show()
        t = [l.strip() for l in buf.getvalue().split('\n') if l.strip()]
        R.check(t[0].split(' ', 1)[0] == word and t[1] == 'subject to' and
                len(t) == 2+m*n+1, 'text of a program', text=t)
        R.close(eval(t[0].split(' ', 1)[1], dict(env, y=7.)), v.sum()+7,
                'text of an objective', text=t)
        R.check(t[-1] == 'y <= 1', 'text of a constraint', text=t)
    R.outcome(m, n)
    R.trace()


# ---------------------------------------------------------------------------
# Constant elements of the sets
# ---------------------------------------------------------------------------
SETNAMES = ('second_order_cone', 'geo_mean_cone', 'exp_cone',
            'power_pos_epi', 'kl_div_epi', 'log_norm_cdf_hypo',
            'semidefinite_cone')
HEADS = {'second_order_cone': [[3., -4.], [.5], [-1., 2., 2.]],
         'geo_mean_cone': [[4.], [4., 1.], [1., 8., 1.]],
         'exp_cone': [[-1., .5], [1., 2.], [0., 1.]],
         'power_pos_epi': [[.5], [2.]],
         'kl_div_epi': [[1., 2.], [1., 2., .5, 3.], [2., .25]],
         'log_norm_cdf_hypo': [[-1.], [.5]]}


def members_cases(tier):
    for s in SETNAMES:
        yield {'s': s}


def members_run(R, s):
    """A set of numbers only is a fact: true or false, never a condition."""
    c = _mk()
    S = getattr(c, s)
    if s == 'semidefinite_cone':
        cases = [(None, S, np.array(v), np.linalg.eigvalsh(np.array(v))[0])
                 for v in ([[2., 1.], [1., 2.]], [[2., 3.], [3., 2.]],
                           [[-1., 0.], [0., 2.]], [[1., .5], [.5, 1.]],
                           [[2., -1., 0.], [-1., 2., -1.], [0., -1., 2.]],
                           [[1., 2., 0.], [2., 1., 0.], [0., 0., 1.]],
                           [[3.]], [[-3.]])]
    else:
        cases = []
        for par in ((1.5, 2., 3.) if s == 'power_pos_epi' else (None,)):
            for h in HEADS[s]:
                border = last(s, h, par)
                up = -1 if s in ('geo_mean_cone', 'log_norm_cdf_hypo') else 1
                for d in (-2., -.25, .25, 2.):
                    v = np.array(h+[border+d])[:, None]
                    cases.append((par, S(par) if par else S, v, up*d))
    for par, SS, v, margin in cases:
        R.step()
        R.state(s, par, v.tolist(), margin)
        R.check(str(SS) == s, 'name of the set', got=str(SS))
        P = c.parameter(*v.shape) if v.shape != (1, 1) else None
        if P is not None:
            P.value = c.matrix(v)
        for form in ('matrix', 'shifted', 'parameter'):
            if form == 'matrix':
                el = c.matrix(v)
            elif P is None:
                continue
            elif form == 'shifted':
                el = 2.*P-P
            else:
                el = P
            x = c.variable()
            p = c.program(c.minimize(x), [c.belongs(el, SS), c.geq(x, 1.)])
            R.check(p.is_dcp(), 'a constant is convex', form=form)
            got, ok = p.solve(quiet=True, return_status=True)
            if margin > 0:
                R.check(ok and abs(got-1) < 1e-4, 'element of the set',
                        v=v, par=par, form=form, got=got, valid=ok)
                R.close(x.value, 1., 'solution', v=v, **TOL)
            else:
                R.check(got == math.inf or not ok, 'not an element', v=v,
                        par=par, form=form, got=got, valid=ok)
                if s in ('second_order_cone', 'geo_mean_cone',
                         'semidefinite_cone'):
                    R.check(got == math.inf, 'infeasible', v=v, got=got)
    R.outcome(s)


# ---------------------------------------------------------------------------
# Arguments which are not admitted
# ---------------------------------------------------------------------------
def args24(c):
    x = c.variable(name='x')
    x.value = 1.5
    X = c.variable(2, 2, name='X')
    return x, X, {
        'number': 2., 'scalar': x, 'affine': 2*x+1, 'square': X+1, 'X': X,
        'matrix': c.matrix([[2., 1.], [1., 3.]]),
        'col': c.vstack([x, 1., 2.]), 'ncol': c.matrix([1., 2., 3.]).T,
        'row': c.vstack([x, 1., 2.]).T, 'nrow': c.matrix([1., 2., 3.]),
        'list': [1., 2.], 'ndarray': np.ones((2, 2)), 'none': None,
        'sparse': c.spmatrix([[1., 0], [0, 4.]]),
        'sparse array': c.spmatrix([[1., 0], [0, 4.]])*x,
        'dict': {}, 'constraint': c.leq(x, 1)}


KIND = {'number': (1, 1), 'scalar': (1, 1), 'affine': (1, 1),
        'square': (2, 2), 'X': (2, 2), 'matrix': (2, 2), 'col': (3, 1),
        'ncol': (3, 1), 'row': (1, 3), 'nrow': (1, 3)}
BAD = ['list', 'ndarray', 'none', 'sparse', 'dict', 'constraint',
       'sparse array']
ONE = {'elementwise': ('abs', 'exp', 'log', 'sqrt', 'square', 'log_norm_cdf',
                       'huber'),
       'any': ('norm1', 'norm2', 'norm_inf', 'max', 'min', 'nuclear_norm'),
       'column': ('geo_mean', 'log_sum_exp'),
       'squared': ('lambda_max', 'lambda_min', 'det_rootn')}
BOTH = (TypeError, ValueError)
INDICES = [('x', 0), (0, 'x'), (.5, 0), (0, .5), (None, 0), (0, None),
           (slice(0., 1.), 0), (0, slice(0, 1.5)), (slice(0, 2, 1.), 0), 0,
           None, slice(0, 1), (0,), (0, 0, 0), [0, 0], '00']
OUTSIDE = [(0, 2), (2, 0), (-1, 0), (0, -1), (slice(0, 3), slice(0, 2)),
           (slice(0, 2), slice(0, 3)), (slice(2, 4), 0), (0, slice(2, 4)),
           (slice(-1, 1), 0), (slice(0, 2), 5), (5, slice(0, 2))]


def reject_cases(tier):
    for what in ('keys', 'arity', 'one', 'exponents', 'two', 'reshape',
                 'belongs', 'calls', 'parameters', 'stacks', 'affine',
                 'random', 'counters', 'products'):
        yield {'what': what}


def shape_of(o):
    if np.isscalar(o) or not hasattr(o, 'shape'):
        return (1, 1)
    return tuple(o.shape)


def reject_run(R, what):
    c = _mk()
    x, X, args = args24(c)
    if what == 'keys':
        objs = {'variable': X, 'parameter': c.parameter(2, 2),
                'array': X+1, 'scaled array': c.spmatrix(
                    [[1., 0.], [0., 4.]])*X, 'sparse array': c.spmatrix(
                        [[1., 0.], [0., 4.]])*x}
        for name, o in sorted(objs.items()):
            before = str(o)
            for k in INDICES:
                R.step()
                R.state(name, str(k))
                R.raises(TypeError, lambda: o[k], 'key', obj=name, key=k)
                if name.endswith('array') and not (
                        isinstance(k, tuple) and slice in map(type, k)):
                    def put():
                        o[k] = 1.
                    R.raises(TypeError, put, 'key of an assignment',
                             obj=name, key=k)
            for k in OUTSIDE:
                R.step()
                R.state(name, str(k))
                R.raises(ValueError, lambda: o[k], 'key out of range',
                         obj=name, key=k)
                if slice not in map(type, k) and name.endswith('array'):
                    def put():
                        o[k] = 1.
                    R.raises(ValueError, put, 'assignment out of range',
                             obj=name, key=k)
            R.check(str(o) == before, 'unchanged by what is refused',
                    obj=name)
    elif what in ('one', 'arity'):
        for kind, names in sorted(ONE.items()):
            for name in names:
                f = getattr(c, name)
                if what == 'arity':
                    R.raises(TypeError, lambda: f(), 'no argument', f=name)
                    continue
                for a in BAD:
                    R.step()
                    R.raises(TypeError, lambda: f(args[a]), 'argument',
                             f=name, a=a)
                for a, shp in sorted(KIND.items()):
                    R.step()
                    R.state(name, a)
                    good = (kind in ('elementwise', 'any') or
                            kind == 'column' and shp[1] == 1 or
                            kind == 'squared' and shp[0] == shp[1])
                    if not good:
                        R.raises(ValueError, lambda: f(args[a]), 'shape',
                                 f=name, a=a)
                        continue
                    got = f(args[a])
                    R.check(shape_of(got) == (
                        shp if kind == 'elementwise' else (1, 1)),
                        'shape of the value', f=name, a=a, got=got)
                    num = a in ('number', 'matrix', 'ncol', 'nrow')
                    cls = type(got).__name__
                    R.check((np.isscalar(got) or cls == 'cvxpy_matrix') if
                            num else cls in (
                                'cvxpy_tree', 'cvxpy_array',
                                'cvxpy_scalar_var'),
                            'type of the value', f=name, a=a, cls=cls)
    elif what == 'exponents':
        for name in ('huber', 'power_abs', 'power_p', 'power_pos'):
            f = getattr(c, name)
            least = 1. if name != 'huber' else 1e-3
            for a in ('number', 'scalar', 'affine', 'X', 'matrix', 'col'):
                for p in (None, x, X, args['matrix'], [2.], np.ones(1), {}):
                    R.step()
                    R.raises(TypeError, lambda: f(args[a], p), 'exponent',
                             f=name, a=a, p=p)
                for p in (-2, -1., 0, 0., .5, .99, 1, 1., 1.01, 2, 3.5):
                    R.step()
                    R.state(name, a, p)
                    if p < least:
                        R.raises(ValueError, lambda: f(args[a], p),
                                 'exponent', f=name, a=a, p=p)
                    else:
                        R.check(shape_of(f(args[a], p)) == KIND[a],
                                'shape of the value', f=name, a=a, p=p)
            for a in BAD:
                R.raises(TypeError, lambda: f(args[a], 2), 'argument',
                         f=name, a=a)
    elif what == 'two':
        for a in sorted(args):
            for b in sorted(args):
                R.step()
                R.state(a, b)
                sa, sb = KIND.get(a), KIND.get(b)
                u, v = args[a], args[b]
                ok = sa is not None and sb is not None
                good = ok and sa[1] == sb[1] == 1 and sa == sb
                if good:
                    R.check(shape_of(c.kl_div(u, v)) == (1, 1), 'kl_div',
                            a=a, b=b)
                else:
                    R.raises(BOTH if ok else (
                        TypeError if sa is None or sa[1] == 1 else BOTH),
                        lambda: c.kl_div(u, v), 'kl_div', a=a, b=b)
                good = ok and sa[1] == 1 and sb == (1, 1)
                if good:
                    R.check(shape_of(c.quad_over_lin(u, v)) == (1, 1),
                            'quad_over_lin', a=a, b=b)
                else:
                    R.raises(BOTH, lambda: c.quad_over_lin(u, v),
                             'quad_over_lin', a=a, b=b)
                good = (ok and sa[1] == 1 and b in ('number', 'matrix') and
                        sb[0] in (1, sa[0]))
                if good:
                    R.check(shape_of(c.quad_form(u, v)) == (1, 1),
                            'quad_form', a=a, b=b)
                else:
                    R.raises(BOTH, lambda: c.quad_form(u, v), 'quad_form',
                             a=a, b=b)
    elif what == 'reshape':
        for a in sorted(args):
            o = args[a]
            shp = KIND.get(a)
            if shp == (1, 1):
                shp = None
            for new in [(r, k) for r in range(1, 5) for k in range(1, 5)]:
                R.step()
                R.state(a, new)
                if shp is None:
                    R.raises(TypeError, lambda: c.reshape(o, new),
                             'argument of reshape', a=a)
                elif new[0]*new[1] != shp[0]*shp[1]:
                    R.raises(ValueError, lambda: c.reshape(o, new),
                             'size of reshape', a=a, new=new)
                else:
                    for nw in (new, list(new)):
                        R.check(c.reshape(o, nw).shape == new, 'reshape',
                                a=a, new=new)
            for new in (None, 4, (4,), (), (2, 2, 1), x):
                R.raises(TypeError, lambda: c.reshape(o, new),
                         'shape for reshape', a=a, new=new)
    elif what == 'belongs':
        shapes = [(m, n) for m in range(1, 6) for n in range(1, 4)]
        ok = {'second_order_cone': lambda m, n: m > 1 and n == 1,
              'geo_mean_cone': lambda m, n: m > 1 and n == 1,
              'exp_cone': lambda m, n: (m, n) == (3, 1),
              'power_pos_epi': lambda m, n: (m, n) == (2, 1),
              'kl_div_epi': lambda m, n: m > 2 and m % 2 and n == 1,
              'log_norm_cdf_hypo': lambda m, n: (m, n) == (2, 1),
              'semidefinite_cone': lambda m, n: m == n}
        for s in SETNAMES:
            S = getattr(c, s)
            if s == 'power_pos_epi':
                S = S(2.)
            for shp in shapes:
                forms = [c.matrix(np.ones(shp))]
                if shp != (1, 1):
                    forms += [c.variable(*shp), c.variable(*shp)+1,
                              c.parameter(*shp)]
                for o in forms:
                    R.step()
                    R.state(s, shp)
                    if ok[s](*shp):
                        R.check(type(c.belongs(o, S)).__name__ ==
                                'cvxpy_constr', 'membership', s=s, shp=shp)
                    else:
                        R.raises(ValueError, lambda: c.belongs(o, S),
                                 'shape of an element', s=s, shp=shp)
            for o in BAD+['number', 'scalar', 'affine']:
                R.raises(TypeError, lambda: c.belongs(args[o], S),
                         'element', s=s, a=o)
        for o in ('X', 'matrix', 'square', 'col', 'ncol'):
            for S in [args[b] for b in sorted(args)]+['semidefinite_cone',
                                                      c.abs]:
                R.raises(TypeError, lambda: c.belongs(args[o], S), 'set',
                         a=o, S=str(S))
    elif what == 'calls':
        q = c.parameter(name='q')
        p = c.program(c.minimize(x+q), [c.geq(x, 1), c.leq(x, 3)], [q],
                      name='fun')
        P = c.program(c.minimize(c.sum(X)), [c.geq(X, c.parameter(2, 2))],
                      [], name='mat')
        Q = c.parameter(2, 2)
        PQ = c.program(c.minimize(c.sum(X)), [c.geq(X, Q)], [Q])
        y = c.variable()
        hole = c.program(c.minimize(y), [c.geq(y, x)], [x])
        R.check((str(p), str(P), str(PQ)) == ('fun', 'mat', 'prog'), 'names')
        R.close(p(1.), 2., 'value', **TOL)
        R.close(p([1.]), 2., 'value of a list', **TOL)
        R.close(hole(3.), 3., 'variable as formal', **TOL)
        for a in ((), (1., 2.), ([],), ([1., 2.],)):
            R.raises(TypeError, lambda: p(*a), 'number of arguments', a=a)
        for a in (None, {}, np.ones((1, 1)), args['sparse'], c.leq(x, 1)):
            R.raises(TypeError, lambda: p(a), 'argument', a=str(a))
        for a in (args['matrix'], X, X+1, args['col']):
            R.raises(ValueError, lambda: p(a), 'shape', a=str(a))
        for a in (1., x, args['ncol'], c.matrix([[1.]])):
            R.raises(ValueError, lambda: PQ(a), 'shape', a=str(a))
        R.raises(ValueError, lambda: p(math.nan), 'not a number')
        R.raises(ValueError, lambda: PQ(c.matrix([[1., math.nan],
                                                  [2., 3.]])),
                 'not a number')
        for a in (x, 2*x+1, c.square(x)):
            R.raises(TypeError, lambda: p(a), 'variable for a parameter')
        R.raises(BOTH, lambda: P.solve(quiet=True), 'parameter not set')
        R.raises(TypeError, lambda: p.is_dcp([]), 'number of arguments')
        R.raises(TypeError, lambda: p.is_dcp([q, q]), 'number of arguments')
        # a value which the solver does not find is not a value
        t, v, z = c.variable(), c.variable(), c.variable()
        lg = c.program(c.maximize(t), [
            c.belongs(c.vstack((t, 1., v)), c.exp_cone), c.leq(v, z),
            c.geq(v, 0)], [z])
        R.close(lg(2.), math.log(2), 'value', **TOL)
        for s in (-1., -3.):
            R.raises(ValueError, lambda: lg(s), 'outside of the domain', s=s)
            R.raises(ValueError, lambda: c.log(s), 'outside of the domain')
        R.close(lg(2.), math.log(2), 'value', **TOL)
    elif what == 'parameters':
        for first in (None, 'nonnegative', 'nonpositive'):
            for val in (None, -2., -.5, 0., .5, 2.):
                for second in (None, 'nonnegative', 'nonpositive'):
                    R.step()
                    R.state(first, val, second)
                    q = c.parameter(attribute=first, name='q')
                    R.check(math.isnan(q.value) and q.attribute == first,
                            'new parameter')
                    if val is not None:
                        okv = not (first == 'nonnegative' and val < 0 or
                                   first == 'nonpositive' and val > 0)

                        def put():
                            q.value = val
                        if okv:
                            put()
                            R.check(q.value == val, 'value')
                        else:
                            R.raises(ValueError, put, 'sign', first=first,
                                     val=val)
                            R.check(math.isnan(q.value), 'value refused')
                    old = q.value
                    q.attribute = second
                    clash = (second == 'nonnegative' and old < 0 or
                             second == 'nonpositive' and old > 0)
                    R.check(q.attribute == second and (
                        math.isnan(q.value) if clash or math.isnan(old)
                        else q.value == old),
                        'value after a change of sign', first=first,
                        second=second, val=val, got=q.value)
                    R.check(q.is_nonnegative_constant() ==
                            (second == 'nonnegative') and
                            q.is_nonpositive_constant() ==
                            (second == 'nonpositive'), 'sign')
                    p = c.program(c.minimize(x), [c.geq(x, q)])
                    if math.isnan(q.value):
                        R.raises(ValueError, lambda: p.solve(quiet=True),
                                 'no value', match='NaN')
                    else:
                        R.close(p.solve(quiet=True), q.value, 'solution',
                                **TOL)
            for val in ([1.], None, c.matrix([[1., 2.]]), X, x):
                q = c.parameter(attribute=first)

                def put():
                    q.value = val
                R.raises(TypeError, put, 'value', val=str(val))
            q = c.parameter(attribute=first)

            def put():
                q.attribute = 'positive'
            R.raises(ValueError, put, 'attribute')
            R.check(q.attribute == first, 'attribute refused')
    elif what == 'stacks':
        for f in (c.hstack, c.vstack):
            ax = int(f is c.hstack)
            for a in BAD+[3., x, X, 'x']:
                if a in ('list', 'x'):
                    continue
                o = args[a] if isinstance(a, str) else a
                R.raises(TypeError, lambda: f(o), 'not a sequence', a=str(a))
                if isinstance(a, str):
                    R.raises(TypeError, lambda: f([o, x]), 'element', a=a)
            for a in sorted(KIND):
                for b in sorted(KIND):
                    R.step()
                    R.state(f.__name__, a, b)
                    sa, sb = KIND[a], KIND[b]
                    if sa[1-ax] != sb[1-ax]:
                        R.raises(ValueError, lambda: f([args[a], args[b]]),
                                 'dimensions', a=a, b=b)
                        continue
                    want = list(sa)
                    want[ax] += sb[ax]
                    for seq in ([args[a], args[b]], (args[a], args[b])):
                        got = f(seq)
                        R.check(tuple(got.shape) == tuple(want), 'shape',
                                a=a, b=b)
                        num = {'number', 'matrix', 'ncol', 'nrow'}
                        R.check((type(got).__name__ == 'cvxpy_matrix') ==
                                ({a, b} <= num), 'type', a=a, b=b)
    elif what == 'affine':
        Y = c.variable(2, 2)
        y = c.variable()
        q = c.parameter()
        aff = [x, 2*x+1, q*x, x-y*q, c.trace(X), X[0, 1], q*1.]
        cvx = [c.square(x), c.exp(y)+x, c.norm1(X), c.max(X), -1*c.sqrt(x)]
        ccv = [c.sqrt(x), c.log(y)-x, c.min(X), -2*c.square(x)]
        mixed = [c.square(x)+c.sqrt(y), q*c.square(x)]
        kinds = [(e, 'a') for e in aff]+[(e, 'x') for e in cvx]+[
            (e, 'v') for e in ccv]+[(e, 'm') for e in mixed]
        R.check(c.square(q).is_affine() if hasattr(
            c.square(q), 'is_affine') else True, 'function of a parameter')
        for e, k in kinds:
            R.check((e.is_affine(), e.is_convex(), e.is_concave(),
                     e.is_dcp()) == (k == 'a', k in 'ax', k in 'av',
                                     k != 'm'), 'class', e=str(e))
            for g, l in kinds:
                R.step()
                R.state(str(e), str(g))
                R.check(c.leq(e, g).is_affine() == (k+l == 'aa'),
                        'affine inequality', e=str(e), g=str(g))
                R.check(c.eq(e, g).is_affine() == (k+l == 'aa') and
                        c.eq(e, g).is_dcp() == (k+l == 'aa'),
                        'affine equality', e=str(e), g=str(g))
                R.check(c.leq(e, g).is_dcp() == (k in 'ax' and l in 'av'),
                        'convex inequality', e=str(e), g=str(g))
                R.check(c.geq(e, g).is_dcp() == (k in 'av' and l in 'ax'),
                        'concave inequality', e=str(e), g=str(g))
                b = c.leq(X, e)+[c.leq(x, g)]
                R.check(b.is_affine() == (k+l == 'aa'), 'affine list')
                b = [c.leq(x, g)]+c.eq(X, Y)
                R.check(b.is_affine() == (l == 'a') and
                        b.is_dcp() == (l in 'av'), 'list')
        b = c.belongs(X, c.semidefinite_cone)
        R.check(not b.is_affine() and b.is_dcp(), 'membership')
        b = c.belongs(c.vstack([c.square(x), y]), c.second_order_cone)
        R.check(not b.is_affine() and not b.is_dcp(), 'membership')
        for a in BAD:
            for f in (c.eq, c.leq, c.geq):
                R.raises(TypeError, lambda: f(args[a], x), 'comparison',
                         a=a)
                R.raises(TypeError, lambda: f(X, args[a]), 'comparison',
                         a=a)
        for a in KIND:
            for b in KIND:
                sa, sb = KIND[a], KIND[b]
                if sa != sb and (1, 1) not in (sa, sb):
                    for f in (c.eq, c.leq, c.geq):
                        R.raises(ValueError, lambda: f(args[a], args[b]),
                                 'dimensions', a=a, b=b)
    elif what == 'random':
        for s in (0, 1, 42):
            for m in range(1, 4):
                for n in range(1, 4):
                    R.step()
                    R.state(s, m, n)
                    for f, g in ((c.randn, 'randn'), (c.rand, 'rand')):
                        c.seed(s)
                        a, b = f(m, n), f(m, n)
                        c.seed(s)
                        R.check(type(a).__name__ == 'cvxpy_matrix' and
                                a.shape == (m, n), 'random matrix', f=g)
                        R.check((f(m, n) == a).all() and
                                (f(m, n) == b).all() and not (a == b).all(),
                                'random sequence', f=g)
                        np.random.seed(s)
                        R.check((np.asarray(a) ==
                                 getattr(np.random, g)(m, n)).all(),
                                'random values', f=g)
    elif what == 'counters':
        for mk, reset in ((c.variable, c.variable_reset),
                          (c.parameter, c.parameter_reset)):
            reset()
            first = [str(mk()) for _ in range(3)]
            R.check(len(set(first)) == 3, 'distinct names', first=first)
            named = str(mk(name='foo'))
            R.check(named == 'foo', 'name')
            fourth = str(mk())
            R.check(fourth not in first, 'distinct names')
            reset()
            R.check([str(mk()) for _ in range(3)] == first,
                    'names after a reset')
            # names are labels only
            reset()
            a = mk()
            reset()
            b = mk()
            if mk is c.variable:
                p = c.program(c.minimize(a+2*b), [c.geq(a, 1), c.geq(b, 5)])
                R.close(p.solve(quiet=True), 11., 'same name', **TOL)
                R.close((a.value, b.value), (1., 5.), 'same name', **TOL)
            else:
                a.value, b.value = 1., 5.
                p = c.program(c.minimize(x), [c.geq(x, a+2*b)])
                R.close(p.solve(quiet=True), 11., 'same name', **TOL)
    elif what == 'products':
        n, m = (c.parameter(attribute=k, name=k[3:6])
                for k in ('nonnegative', 'nonpositive'))
        u = c.parameter(name='u')
        base = [(n, 1, 0), (m, 0, 1), (u, 0, 0)]
        pool = list(base)
        for (e, p1, m1) in base:
            for (g, p2, m2) in base:
                pool.append((e*g, p1 and p2 or m1 and m2,
                             p1 and m2 or m1 and p2))
                pool.append((e+g, p1 and p2, m1 and m2))
                pool.append((e-g, p1 and m2, m1 and p2))
            for k in (2., -.5):
                pool.append((k*e, (p1 if k > 0 else m1),
                             (m1 if k > 0 else p1)))
                pool.append((e+k, p1 and k > 0, m1 and k < 0))
        for e, p1, m1 in list(pool[3:]):
            for g, p2, m2 in base:
                pool.append((e*g, p1 and p2 or m1 and m2,
                             p1 and m2 or m1 and p2))
        for e, pos, neg in pool:
            R.step()
            R.state(str(e))
            pos, neg = bool(pos), bool(neg)
            R.check(bool(e.is_nonnegative_constant()) == pos and
                    bool(e.is_nonpositive_constant()) == neg, 'sign',
                    e=str(e))
            for f, cv in ((c.square(x), 1), (c.sqrt(x), -1)):
                g = e*f
                R.check(g.is_convex() == (pos if cv > 0 else neg) and
                        g.is_concave() == (neg if cv > 0 else pos) and
                        not g.is_affine(), 'curvature of a product',
                        e=str(e), cv=cv)
            g = e*x
            R.check(g.is_affine() and g.is_convex() and g.is_concave() and
                    not g.is_nonnegative_constant() and
                    not g.is_nonpositive_constant(), 'linear term', e=str(e))
            R.check(not c.square(e).is_nonpositive_constant(), 'function')
    R.outcome(what)


def fam(cases, run):
    """Add the depth to the cases of a family."""
    def cases_(tier):
        for case in cases(tier):
            yield dict(case, deep=tier != 'quick')

    def run_(R, deep, **case):
        R.tier = 'thorough' if deep else 'quick'
        run(R, **case)
    return cases_, run_


FAMILIES = {
    'expr': fam(exprs_cases, exprs_run),
    'solved': fam(solved_cases, solved_run),
    'pairs': fam(pairs_cases, pairs_run),
    'slices': fam(slices_cases, slices_run),
    'stack': fam(stack_cases, stack_run),
    'constants': fam(consts_cases, consts_run),
    'linear': fam(lp_cases, lp_run),
    'degenerate': fam(degenerate_cases, degenerate_run),
    'elementwise': fam(elem_cases, elem_run),
    'functions': fam(vec_cases, vec_run),
    'two': fam(two_cases, two_run),
    'sets': fam(sets_cases, sets_run),
    'history': fam(history_cases, history_run),
    'programs': fam(func_cases, func_run),
    'compare': fam(compare_cases, compare_run),
    'options': fam(options_cases, options_run),
    'sparse': fam(sparse_cases, sparse_run),
    'text': fam(text_cases, text_run),
    'members': fam(members_cases, members_run),
    'reject': fam(reject_cases, reject_run),
}
