"""C20: linear constraints of N-step transitions."""
import fractions
import itertools
import types

import numpy as np
import polytope as pc
import symx
import z3
from symx import lift

from tulip import hybrid
from tulip.abstract import feasible

EPS = fractions.Fraction(1, 10**6)
F = fractions.Fraction


# ------------------------------------ arrays with symbolic elements


class Shim(types.ModuleType):
    """`numpy`, with arrays of objects where elements may be symbolic."""

    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, name):
        return getattr(np, name)

    @staticmethod
    def zeros(shape, dtype=None, **kw):
        return np.full(shape, 0.0, dtype=object)

    @staticmethod
    def ones(shape, dtype=None, **kw):
        return np.full(shape, 1.0, dtype=object)

    @staticmethod
    def eye(n, *a, **kw):
        return np.eye(n, *a).astype(object)

    @staticmethod
    def identity(n, *a, **kw):
        return np.eye(n).astype(object)

    @staticmethod
    def empty(shape, dtype=None, **kw):
        return np.full(shape, 0.0, dtype=object)

    @staticmethod
    def full(shape, value, dtype=None, **kw):
        return np.full(shape, value, dtype=object)

    @staticmethod
    def array(a, dtype=None, **kw):
        try:
            return np.array(a, dtype=dtype, **kw)
        except TypeError:
            return np.array(a, dtype=object, **kw)

    @staticmethod
    def asarray(a, dtype=None, **kw):
        try:
            return np.asarray(a, dtype=dtype, **kw)
        except TypeError:
            return np.asarray(a, dtype=object, **kw)

    @staticmethod
    def zeros_like(a, dtype=None, **kw):
        return np.full(np.shape(a), 0.0, dtype=object)


class shimmed:
    def __init__(self, ctx):
        self.on = not getattr(ctx, 'replaying', False)

    def __enter__(self):
        if not self.on:
            return
        g = vars(feasible)
        shim = Shim()
        self.old = dict()
        for k, v in list(g.items()):
            w = v
            if v is np:
                w = shim
            elif callable(v) and getattr(np, k, None) is v:
                w = getattr(shim, k)
            if w is not v:
                self.old[k] = v
                g[k] = w

    def __exit__(self, *a):
        if self.on:
            vars(feasible).update(self.old)


def column(ctx, xs):
    if getattr(ctx, 'replaying', False):
        return np.array([float(x) for x in xs]).reshape(-1, 1)
    r = np.empty((len(xs), 1), dtype=object)
    for i, x in enumerate(xs):
        r[i, 0] = x
    return r


def hull(ctx, rows, bounds):
    """Polytope whose right-hand side may be symbolic."""
    p = pc.Polytope(
        np.array(rows, dtype=float), np.ones(len(rows)), normalize=False)
    p.b = column(ctx, bounds).reshape(-1)
    return p


def term(x):
    """Exact z3 term (exact fraction of a float)."""
    t = lift(x)
    if isinstance(t, F):
        return z3.RealVal(str(t))
    if z3.is_expr(t) and z3.is_int(t):
        return z3.ToReal(t)
    return t


def dot(row, xs):
    r = z3.RealVal(0)
    for a, x in zip(row, xs):
        a = F(a)
        if a:
            r = r + z3.RealVal(str(a)) * x
    return r


# ------------------------------------------------------------- menus

POLYGON = [(k, k * k) for k in range(11)]
SETS = {
    # name: (rows, bounds, vertices)
    'interval': ([[1], [-1]], [2, 1], [(-1,), (2,)]),
    'box': ([[1, 0], [-1, 0], [0, 1], [0, -1]], [1, 1, 3, 0],
            [(1, 0), (1, 3), (-1, 0), (-1, 3)]),
    'triangle': ([[-1, 0], [0, -1], [1, 1]], [0, 0, 1],
                 [(0, 0), (1, 0), (0, 1)]),
    'polygon': ([[2 * k + 1, -1] for k in range(10)] + [[-10, 1]],
                [k * (k + 1) for k in range(10)] + [0], POLYGON)}
SYSTEMS = {
    # name: (A, B, E, D)
    'one': ([[2]], [[1]], None, None),
    'shrink': ([[-1]], [[3]], [[2]], 'interval'),
    'still': ([[1]], [[1]], [[0]], 'interval'),
    'pair': ([[1, 1], [0, 1]], [[0], [1]], None, None),
    'turn': ([[0, -1], [2, 0]], [[1, 0], [1, -1]],
             [[1], [-2]], 'interval'),
    'shear': ([[1, 2], [0, -1]], [[1], [3]],
              [[1, 0], [-1, 2]], 'triangle'),
    'wide': ([[1, 0], [1, 1]], [[1, 2], [0, 1]],
             [[1, 1], [0, -1]], 'box'),
    'hidden': ([[1, 0], [1, 1]], [[1], [0]], [[0], [1]], 'interval'),
    'many': ([[1]], [[2]], [[1, -1]], 'polygon'),
    'empty': ([[1, 1], [0, 2]], [[1], [1]], [[1, 0], [2, 1]], 'nothing'),
    'empty one': ([[1, 1], [0, 2]], [[1], [1]], [[1], [2]], 'nothing'),
    'long': ([[0, 1, 0], [0, 0, 1], [1, -1, 2]], [[0], [0], [1]],
             [[1], [0], [0]], 'interval'),
}
ROWS = {
    1: [[[1], [-1]], [[3]]],
    2: [[[1, 0], [-1, 0], [0, 1], [0, -1]], [[1, -2], [0, 1]],
        [[1, 0]]],
    3: [[[1, 0, 0], [0, -1, 1]], [[1, 1, 1]]]}


def uset_rows(m, n, kind):
    if kind == 'inputs':
        return [[1 if i == j else 0 for j in range(m)] for i in range(m)] + [
            [-1] * m]
    # inputs, then states
    return [[1] * m + [1 if j == n - 1 else 0 for j in range(n)],
            [-1] + [0] * (m - 1) + [2] * n, [0] * m + [-1] * n]


# ---------------------------------------------------------- reference


def trajectory(A, B, E, K, x0, us, N):
    """Nominal states; and coefficients of disturbances."""
    n = len(A)
    xs, cs = [list(x0)], [dict()]
    for i in range(N):
        x = [dot(A[r], xs[-1]) + dot(B[r], us[i]) + term(K[r])
             for r in range(n)]
        xs.append(x)
        c = {k: [[sum(A[r][q] * M[q][j] for q in range(n))
                  for j in range(len(M[0]))] for r in range(n)]
             for k, M in cs[-1].items()}
        if E is not None:
            c[i] = [list(r) for r in E]
        cs.append(c)
    return xs, cs


def effect(row, coef, ds):
    """Effect of disturbances along a row."""
    r = z3.RealVal(0)
    for k, M in coef.items():
        p = len(M[0])
        r = r + dot([sum(row[i] * M[i][j] for i in range(len(row)))
                     for j in range(p)], ds[k])
    return r


def worst(row, coef, verts):
    """Largest effect of disturbances: it is attained at vertices."""
    s = F(0)
    for M in coef.values():
        w = [sum(row[i] * M[i][j] for i in range(len(row)))
             for j in range(len(M[0]))]
        s += max(sum(a * b for a, b in zip(w, v)) for v in verts)
    return z3.RealVal(str(s))


def constraints(sets, ind, N, n, m, urows, ubs, xs, us, coef, extra):
    """List of (left-hand side, right-hand side)."""
    r = list()
    for i, (rows, bs) in enumerate(sets):
        for row, b in zip(rows, bs):
            e = dot(row, xs[i])
            if i in ind:
                e = e + extra(row, coef[i])
            r.append((e, term(b)))
    for i in range(N):
        for row, b in zip(urows, ubs):
            e = dot(row[:m], us[i])
            if len(row) > m:
                e = e + dot(row[m:], xs[i])
                if i in ind:
                    e = e + extra(row[m:], coef[i])
            r.append((e, term(b)))
    return r


def matrices(systems, horizons, name):
    def fn(ctx):
        which = ctx.pick('system', systems)
        A, B, E, D = SYSTEMS[which]
        N = ctx.pick('N', horizons)
        n, m = len(A), len(B[0])
        K = [ctx.real(f'K{i}', -9, 9) for i in range(n)]
        given_k = ctx.pick('offset', [True, False])
        kind = ctx.pick('inputs', ['inputs', 'inputs and states'])
        urows = uset_rows(m, n, kind)
        ubs = [ctx.real(f'ub{i}', -9, 9) for i in range(len(urows))]
        # sets of states
        how = ctx.pick('sets', ['three', 'list', 'list more', 'same'])
        menu = ROWS[n]
        if how == 'three':
            shapes = [menu[0]] + [menu[1]] * (N - 1) + [menu[-1]]
        elif how == 'list':
            shapes = [menu[i % len(menu)] for i in range(N + 1)]
        elif how == 'same':
            shapes = [menu[-1]] * (N + 1)
        else:
            shapes = [menu[-1 - i % len(menu)] for i in range(N + 1)]
        bounds = list()
        for i, s in enumerate(shapes):
            j = 1 if how == 'three' and 1 < i < N else i
            bounds.append([
                ctx.real(f'b{j}.{k}', -9, 9) for k in range(len(s))]
                if j == i else bounds[1])
        sets = list(zip(shapes, bounds))
        ind = ctx.pick('disturbances', [
            None, (1,), (N,), ()] if how in ('three', 'list') else [None])
        ctx.note(system=which, N=N, inputs=kind, sets=how, ind=ind)
        # the real code
        ps = [hull(ctx, *s) for s in sets]
        if D is None or D == 'nothing':
            verts, W = None, pc.Polytope()
        else:
            rows, bs, verts = SETS[D]
            W = pc.Polytope(
                np.array(rows, dtype=float), np.array(bs, dtype=float),
                normalize=False)
        with shimmed(ctx):
            U = hull(ctx, urows, ubs)
            kw = dict()
            if given_k:
                kw['K'] = column(ctx, K)
            else:
                K = [0] * n
            s = hybrid.LtiSysDyn(
                A=np.array(A, dtype=float), B=np.array(B, dtype=float),
                Uset=U, domain=pc.Polytope(
                    np.vstack([np.eye(n), - np.eye(n)]), np.ones(2 * n)))
            if given_k:
                s.K = kw['K']
            if E is not None:
                s.E = np.array(E, dtype=float)
                s.Wset = W
            args = (ps[0], ps[1] if N > 1 else ps[0], ps[-1]) \
                if how == 'three' else (ps,)
            opts = dict() if ind is None else dict(
                disturbance_ind=list(ind))
            keep = [p.A.copy() for p in ps], [list(p.b) for p in ps]
            L, M = feasible.createLM(s, N, *args, **opts)
        for p, a, b in zip(ps, *keep):
            ctx.check(bool((p.A == a).all()), 'sets changed')
        ctx.check(L.shape[1] == n + N * m, 'number of columns')
        ctx.check(M.shape == (L.shape[0], 1), 'shapes of matrices')
        # verification condition
        x0 = [lift(ctx.real(f'x{i}')) for i in range(n)]
        us = [[lift(ctx.real(f'u{k}.{i}')) for i in range(m)]
              for k in range(N)]
        x0, us = [term(x) for x in x0], [[term(x) for x in u] for u in us]
        z = x0 + [x for u in us for x in u]

        def linear(slack):
            return z3.And(*[
                sum((term(L[r, c]) * z[c] for c in range(L.shape[1])),
                    z3.RealVal(0)) <= term(M[r, 0]) + slack
                for r in range(L.shape[0])])
        ind = range(1, N + 1) if ind is None else ind
        disturbed = verts is not None
        xs, coef = trajectory(
            A, B, E if disturbed else None, K, x0, us, N)
        # margins survive rounding in a replay
        replaying = getattr(ctx, 'replaying', False)
        eps = z3.RealVal(str(EPS / 2 if replaying else EPS))
        tight = z3.RealVal(str(EPS / 4 if replaying else 0))
        # all disturbances satisfy the constraints
        ds = list()
        inside = list()
        if disturbed:
            p = len(E[0])
            for k in range(N):
                d = [term(ctx.real(f'd{k}.{j}')) for j in range(p)]
                ds.append(d)
                inside += [dot(r, d) <= b for r, b in zip(rows, bs)]
        forward = constraints(
            sets, ind, N, n, m, urows, ubs, xs, us, coef,
            lambda row, c: effect(row, c, ds))
        ctx.check(
            symx.mk(z3.Implies(
                z3.And(linear(tight), *inside),
                z3.And(*[e <= b + eps for e, b in forward]))),
            'matrices allow a violation of constraints')
        back = constraints(
            sets, ind, N, n, m, urows, ubs, xs, us, coef,
            lambda row, c: worst(row, c, verts))
        ctx.check(
            symx.mk(z3.Implies(
                z3.And(*[e <= b for e, b in back]), linear(eps))),
            'matrices exclude an allowed trajectory')
        ctx.label('matrices')
    return symx.Harness(name, fn, ['matrices'], opaque_repr='all')


def extremes(ctx):
    """Largest value over a set, for symbolic rows."""
    which = ctx.pick('set', ['interval', 'triangle', 'box'])
    rows, bs, verts = SETS[which]
    N = ctx.pick('N', [1, 2] if len(verts) < 4 else [1])
    p = len(verts[0])
    n = ctx.pick('rows', [1, 2] if p * N < 3 else [1])
    G = [[ctx.real(f'g{i}.{j}', -5, 5) for j in range(p * N)]
         for i in range(n)]
    W = pc.Polytope(
        np.array(rows, dtype=float), np.array(bs, dtype=float),
        normalize=False)
    with shimmed(ctx):
        g = np.array([[float(x) for x in r] for r in G]) if getattr(
            ctx, 'replaying', False) else np.array(G, dtype=object)
        d = feasible.get_max_extreme(g, W, N)
    ctx.check(d.shape == (n, 1), 'shape of maxima')
    eps = z3.RealVal(str(
        EPS / 2 if getattr(ctx, 'replaying', False) else EPS))
    for i, r in enumerate(G):
        vals = [
            sum((term(r[k * p + j]) * v[k][j]
                 for k in range(N) for j in range(p)), z3.RealVal(0))
            for v in itertools.product(verts, repeat=N)]
        ctx.check(symx.mk(z3.And(*[
            v <= term(d[i, 0]) + eps for v in vals])), 'not a maximum')
        ctx.check(symx.mk(z3.Or(*[
            term(d[i, 0]) <= v + eps for v in vals])), 'maximum too large')
    ctx.label('maxima')


BOUNDS = dict(
    quick='12 systems with 1-3 states, 1-2 inputs, 0-2 disturbances '
    '(interval, box, triangle, polygon with 11 vertices, empty set); '
    'horizons 1-3; constraints on inputs, or on inputs and states; a '
    'set for each step; any subset of steps with disturbances from 4 '
    'choices; all states, inputs, disturbances, offsets K and bounds of '
    'polytopes in [-9, 9] symbolic reals; worst-case effects for all rows '
    'with up to 4 symbolic elements',
    thorough='as quick, horizons up to 5 (3 for sets with many vertices)')
OUTSIDE = (
    'Other system matrices (they are menu choices); disturbance sets that '
    'are not empty but have empty interior (the code ignores the '
    'disturbance then); rounding errors of floats up to 1e-6.')
ASSUMPTIONS = [
    'the name `numpy` in `tulip.abstract.feasible` is replaced so that '
    'arrays can hold symbolic elements (only functions that create arrays '
    'differ); a counterexample is replayed with plain arrays of floats',
    'extreme points are computed by the package polytope (run, not '
    'encoded)']
EXPLANATION = (
    '`createLM` runs on arrays whose offsets and right-hand sides are '
    'symbolic; z3 decides over all states, inputs and disturbances that '
    'the returned inequality holds if and only if each state of the '
    'trajectory and each input satisfies its constraint for every '
    'disturbance. `get_max_extreme` runs on symbolic rows.')


def harnesses(tier):
    quick = tier == 'quick'
    small = [k for k in SYSTEMS if k not in ('many', 'wide')]
    return [
        matrices(small, [1, 2, 3] if quick else [1, 2, 3, 4, 5],
                 'matrices'),
        matrices(['many'], [1] if quick else [1, 2], 'many vertices'),
        matrices(['wide'], [1, 2] if quick else [1, 2, 3], 'wide'),
        symx.Harness('extremes', extremes, ['maxima'], opaque_repr='all')]
