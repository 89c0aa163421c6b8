"""C21: discrete abstractions of continuous systems are sound."""
import contextlib
import fractions
import io
import itertools
import types

import numpy as np
import polytope as pc
import symx
import z3
from symx import lift

from tulip import abstract, hybrid
from tulip.abstract import find_controller as fc
from tulip.abstract import prop2partition as p2p

F = fractions.Fraction
TOL = F(1, 1000)


# ------------------------------------------------ regions as formulas


def q(x):
    """Exact number, close to float `x`."""
    x = float(x)
    f = F(x).limit_denominator(1000)
    if abs(f - F(x)) > F(1, 10**9):
        f = F(round(x * 10**7), 10**7)
    return z3.RealVal(str(f))


def pieces(r):
    """Convex polytopes whose union is `r`."""
    if len(r) == 0:
        return [r] if r.A.size else []
    return list(r)


def hull(p, x, tol):
    return z3.And(*[
        z3.Sum([q(c) * v for c, v in zip(row, x)]) <= q(b) + z3.RealVal(
            str(tol))
        for row, b in zip(p.A, p.b)])


def inside(r, x, tol=0):
    """Is point `x` in region `r`, relaxed (or tightened) by `tol`?"""
    return z3.Or(*[hull(p, x, tol) for p in pieces(r)])


def points(name, n):
    return [z3.Real(f'{name}{i}') for i in range(n)]


# ---------------------------------------------------------- systems


def box(*xs):
    return pc.box2poly([list(x) for x in xs])


def lti(A, B, dom, U, K=None, E=None, W=None):
    A, B = np.array(A, dtype=float), np.array(B, dtype=float)
    kw = dict()
    if E is not None:
        kw = dict(E=np.array(E, dtype=float), Wset=W)
    if K is not None:
        kw['K'] = np.array(K, dtype=float).reshape(-1, 1)
    return hybrid.LtiSysDyn(A, B, Uset=U, domain=dom, **kw)


LINE = box([0, 4])
LAB = dict(a=box([0, 1]), b=box([2, 3.5]))
SQUARE = box([0, 2], [0, 2])
ROOM = dict(home=box([0, 1], [0, 1]))


def coupled():
    """Input bounds that depend on the state: |u| <= x / 2."""
    return pc.Polytope(
        np.array([[1, -.5], [-1, -.5], [0, -1], [0, 1]]),
        np.array([0, 0, 0, 4.]))


MODELS = {
    # name: (system, propositions)
    'walk': lambda: (
        lti([[1]], [[1]], LINE, box([-1, 1])), LAB),
    'slow': lambda: (
        lti([[1]], [[1]], LINE, box([-.5, .75]), K=[.25]), LAB),
    'noise': lambda: (
        lti([[.5]], [[1]], LINE, box([-1, 2]), E=[[1]],
            W=box([-.25, .25])), LAB),
    'shift': lambda: (
        lti([[1]], [[.5]], LINE, box([-2, 2]), K=[.5], E=[[1]],
            W=box([-.5, .25])), LAB),
    'flip': lambda: (
        lti([[-1]], [[1]], LINE, box([-.5, .5]), K=[4]), LAB),
    'coupled': lambda: (
        lti([[1]], [[1]], LINE, coupled()), LAB),
    'apart': lambda: (
        lti([[1]], [[1]], LINE, box([-1.5, 1.5])),
        dict(a=pc.Region([box([0, 1]), box([3, 4])]), b=box([.5, 3.5]))),
    'plane': lambda: (
        lti([[1, 0], [0, 1]], [[1, 0], [0, 1]], SQUARE,
            box([-1, 1], [-.5, .5])), ROOM),
    'drift': lambda: (
        lti([[1, .5], [0, 1]], [[0], [1]], box([0, 2], [-1, 1]),
            box([-1, 1]), E=[[1], [0]], W=box([-.1, .1])),
        dict(left=box([0, 1], [-1, 1]))),
    'two noises': lambda: (
        lti([[1, 0], [0, 1]], [[1, 0], [1, 1]], SQUARE,
            box([-1, 1], [-1, 1]), E=[[1, 0], [0, 1]],
            W=box([-.1, .2], [-.1, .1])), ROOM)}


def pwa_line():
    a = lti([[1]], [[1]], box([0, 2]), box([-1, 1]))
    b = lti([[.5]], [[1]], box([2, 4]), box([0, .5]), K=[1])
    return hybrid.PwaSysDyn([a, b], LINE), LAB


def pwa_plane():
    a = lti([[1, 0], [0, 1]], [[1, 0], [0, 1]], box([0, 2], [0, 1]),
            box([-1, 1], [-1, 1]))
    b = lti([[.5, 0], [0, 1]], [[1, 0], [0, 1]], box([0, 2], [1, 2]),
            box([0, .5], [-1, 0]))
    return hybrid.PwaSysDyn([a, b], SQUARE), dict(
        home=box([0, 1], [0, 2]))


def pwa_noise():
    a = lti([[1]], [[1]], box([0, 2]), box([-1, 1]), E=[[1]],
            W=box([-.1, .1]))
    b = lti([[1]], [[1]], box([2, 4]), box([-.5, 0]), E=[[2]],
            W=box([-.1, .05]))
    return hybrid.PwaSysDyn([a, b], LINE), LAB


MODELS.update({
    'pwa line': pwa_line, 'pwa plane': pwa_plane, 'pwa noise': pwa_noise})


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


# ---------------------------------------------- reference: reachability


class Dyn:
    """Reachability, as formulas with quantifiers."""

    def __init__(self, s, tol):
        self.s, self.tol = s, tol
        self.n, self.m = s.A.shape[1], s.B.shape[1]
        self.p = s.E.shape[1]
        self.noisy = (
            s.Wset is not None and pc.is_fulldim(s.Wset) and
            not np.all(s.E == 0))
        self._k = 0

    def fresh(self, c, n):
        self._k += 1
        return [z3.Real(f'{c}.{self._k}.{i}') for i in range(n)]

    def allowed(self, x, u):
        U = self.s.Uset
        return hull(U, u + x if U.A.shape[1] > self.m else u, self.tol)

    def next(self, x, u, d):
        s = self.s
        r = list()
        for i in range(self.n):
            e = z3.Sum(
                [q(s.A[i, j]) * x[j] for j in range(self.n)] +
                [q(s.B[i, j]) * u[j] for j in range(self.m)] +
                [q(s.K[i, 0])])
            if d is not None:
                e = e + z3.Sum([
                    q(s.E[i, j]) * d[j] for j in range(self.p)])
            r.append(e)
        return r

    def quantify(self, body):
        """`body(d)` for all disturbances `d`."""
        if not self.noisy:
            return body(None)
        d = self.fresh('d', self.p)
        return z3.ForAll(
            d, z3.Implies(hull(self.s.Wset, d, 0), body(d)))

    def closed(self, x, N, target, stay, within):
        """Inputs are chosen after measuring each state."""
        u = self.fresh('u', self.m)

        def body(d):
            y = self.next(x, u, d)
            opts = list()
            if N == 1 or within:
                opts.append(target(y))
            if N > 1:
                opts.append(z3.And(stay(y), self.closed(
                    y, N - 1, target, stay, within)))
            return z3.Or(*opts)
        return z3.Exists(
            u, z3.And(self.allowed(x, u), self.quantify(body)))

    def open(self, x, N, target, stay):
        """Inputs are chosen at the start."""
        us = [self.fresh('u', self.m) for _ in range(N)]

        def along(y, k, cs, ds):
            if k == N:
                return cs + [target(y)]
            cs = cs + [self.allowed(y, us[k])]
            if k:
                cs.append(stay(y))
            d = self.fresh('d', self.p) if self.noisy else None
            if d:
                ds.append(d)
            return along(self.next(y, us[k], d), k + 1, cs, ds)
        ds = list()
        body = z3.And(*along(x, 0, list(), ds))
        if ds:
            body = z3.ForAll(
                [v for d in ds for v in d], z3.Implies(
                    z3.And(*[hull(self.s.Wset, d, 0) for d in ds]), body))
        return z3.Exists([v for u in us for v in u], body)


def subsystems(s):
    return s.list_subsys if isinstance(s, hybrid.PwaSysDyn) else [s]


def check_partition(ctx, domain, regions, props, disjoint=True):
    """Cover, overlaps, labels."""
    x = points('x', domain.A.shape[1])
    ctx.check(ctx.sat(
        hull(domain, x, -TOL),
        *[z3.Not(inside(r, x, TOL)) for r in regions]) is None,
        'cells do not cover the domain')
    for i, r in enumerate(regions):
        ctx.check(ctx.sat(
            inside(r, x, -TOL), z3.Not(hull(domain, x, TOL))) is None,
            'cell outside of the domain')
        ctx.check(ctx.sat(inside(r, x, -TOL)) is not None, 'empty cell')
        ctx.check(set(r.props) <= set(props), 'unknown proposition')
        for p, where in props.items():
            ctx.check(ctx.sat(
                inside(r, x, -TOL),
                z3.Not(inside(where, x, TOL)) if p in r.props else
                inside(where, x, -TOL)) is None, 'label of a cell')
        if not disjoint:
            continue
        for r1 in regions[:i]:
            ctx.check(ctx.sat(
                inside(r, x, -TOL), inside(r1, x, -TOL)) is None,
                'cells overlap')


def subset(ctx, a, b):
    x = points('x', pieces(a)[0].A.shape[1])
    return ctx.sat(
        inside(a, x, -TOL), z3.Not(inside(b, x, TOL))) is None


# ---------------------------------------------------------- harnesses


def partitions(ctx):
    """Partitions from propositions, and their refinements."""
    which = ctx.pick('dimension', [1, 2])
    if which == 1:
        domain = box([0, 4])
        menu = [box([0, 1]), box([1, 3]), box([.5, 2.5]), box([3, 6]),
                pc.Region([box([0, 1]), box([3, 4])]), box([-1, 5])]
    else:
        domain = box([0, 2], [0, 2])
        menu = [box([0, 1], [0, 1]), box([.5, 1.5], [.5, 1.5]),
                pc.Region([box([0, 1], [1, 2]), box([1, 2], [0, 1])]),
                pc.Polytope(np.array([[1, 1.], [-1, 0], [0, -1]]),
                            np.array([2, 0, 0.])),
                box([1, 3], [-1, 3])]
    props = {
        f'p{k}': menu[ctx.int(f'p{k}', 0, len(menu) - 1).concretize()
                      if not getattr(ctx, 'replaying', False)
                      else ctx.int(f'p{k}', 0, len(menu) - 1)]
        for k in range(2)}
    part = quiet(abstract.prop2part, domain, props)
    ctx.check(set(part.prop_regions) == set(props), 'propositions')
    check_partition(ctx, part.domain, part.regions, props)
    for i, r in enumerate(part.regions):
        ctx.check(part.reg2props(i) == set(r.props), 'reg2props')
    ctx.check(part.preserves_predicates(), 'preserves_predicates')
    ctx.label('partition')
    how = ctx.pick('refine', ['convex', 'grid size', 'grid numbers',
                              'grid lists', 'dynamics'])
    if how == 'convex':
        new, old = quiet(abstract.part2convex, part)
        for r, j in zip(new.regions, old):
            ctx.check(len(pieces(r)) == 1, 'cell is not convex')
            ctx.check(subset(ctx, r, part.regions[j]), 'parent cell')
        ctx.check(len(old) == len(new.regions), 'map to parent cells')
    elif how == 'dynamics':
        s = (pwa_line if which == 1 else pwa_plane)()[0]
        new, sub, old = quiet(abstract.pwa_partition, s, part)
        ctx.check(len(old) == len(sub) == len(new.regions),
                  'map to subsystems')
        for r, k, j in zip(new.regions, sub, old):
            ctx.check(subset(ctx, r, part.regions[j]), 'parent cell')
            ctx.check(
                subset(ctx, r, s.list_subsys[k].domain),
                'active subsystem')
    else:
        n = which
        opts, step = {
            'grid size': (dict(grid_size=.75), [F(3, 4)] * 2),
            'grid numbers': (dict(num_grid_pnts=2), [F(2), F(2)][:n]
                             if n == 1 else [F(1), F(1)]),
            'grid lists': (
                dict(grid_size=[1., .5][:n]) if ctx.flag('sizes') else
                dict(num_grid_pnts=[4, 2][:n]), None)}[how]
        new = quiet(abstract.add_grid, part, **opts)
        if 'grid_size' in opts:
            g = opts['grid_size']
            steps = g if isinstance(g, list) else [g] * n
        else:
            g = opts['num_grid_pnts']
            g = g if isinstance(g, list) else [g] * n
            steps = [(4 if n == 1 else 2) / k for k in g]
        for r in new.regions:
            low, high = r.bounding_box
            ctx.check(all(
                high[k, 0] - low[k, 0] <= steps[k] + 1e-3
                for k in range(n)), 'cell larger than the grid')
            # cells do not cross lines of the grid
            ctx.check(all(
                not low[k, 0] + 1e-3 < i * steps[k] < high[k, 0] - 1e-3
                for k in range(n) for i in range(20)),
                'cell crosses a line of the grid')
    check_partition(ctx, new.domain, new.regions, props)
    ctx.label('refined')


def options(ctx, deep):
    closed = ctx.pick('closed_loop', [True, False])
    kw = dict(
        N=ctx.pick('N', [1, 2, 3] if deep else [1, 2]),
        closed_loop=closed,
        conservative=ctx.pick('conservative', [True, False]),
        min_cell_volume=ctx.pick('volume', [.1, .4] if deep else [.1]),
        trans_length=ctx.pick('length', [1, 2] if deep else [1]))
    if closed:
        kw['use_all_horizon'] = ctx.pick('within', [False, True])
    return kw


def stay_in(a, ab, i, opts):
    """Where the states between the two cells must be."""
    if not opts['conservative']:
        j, r = ab.ppp2pwa(i)
        return r
    # somewhere in the given cell that contains cell `i`
    c = pieces(ab.ppp.regions[i])[0].chebXc
    for r in ab.orig_ppp.regions:
        if c in r:
            return r
    raise AssertionError('no parent')


def check_transitions(ctx, s, ab, opts, tol=TOL):
    cells = ab.ppp.regions
    ctx.check(list(ab.ppp2ts) == list(ab.ts.states) or
              set(ab.ppp2ts) == set(ab.ts.states), 'states of abstraction')
    ctx.check(len(ab.ppp2ts) == len(cells), 'one state for each cell')
    for i, r in enumerate(cells):
        st = ab.ppp2ts[i]
        ctx.check(
            set(ab.ts.states[st]['ap']) == set(r.props),
            'label of a state')
        ctx.check(ab.ts2ppp(st)[0] == i, 'cell of a state')
        k, sub = ab.ppp2sys(i)
        if isinstance(s, hybrid.PwaSysDyn):
            ctx.check(subset(ctx, r, sub.domain), 'active subsystem')
        if not opts['conservative']:
            ctx.check(subset(ctx, r, ab.ppp2pwa(i)[1]),
                      'cell outside of its convex parent')
            ctx.check(subset(ctx, r, ab.ppp2orig(i)[1]),
                      'cell outside of its parent')
    n_trans = 0
    for a, b in sorted(ab.ts.transitions()):
        i, j = ab.ppp2ts.index(a), ab.ppp2ts.index(b)
        sub = ab.ppp2sys(i)[1]
        dyn = Dyn(sub, tol)
        x = points('x', dyn.n)
        parent = stay_in(None, ab, i, opts)

        def target(y):
            return inside(cells[j], y, tol)

        def stay(y):
            return inside(parent, y, tol)
        if opts['closed_loop']:
            reach = dyn.closed(
                x, opts['N'], target, stay,
                opts.get('use_all_horizon', False))
        else:
            reach = dyn.open(x, opts['N'], target, stay)
        ctx.check(
            ctx.sat(inside(cells[i], x, -tol), z3.Not(reach)) is None,
            'transition cannot be realized from some state')
        n_trans += 1
    return n_trans


def abstractions(name, models, kinds, deep=False):
    def fn(ctx):
        which = ctx.pick('model', models)
        kind = ctx.pick('kind', kinds)
        s, props = MODELS[which]()
        opts = options(ctx, deep)
        ctx.note(model=which, kind=kind, options=opts)
        part = quiet(abstract.prop2part, s.domain, props)
        ab = quiet(abstract.discretize, part, s, simu_type=kind, **opts)
        for k, v in opts.items():
            ctx.check(ab.disc_params[k] == v, 'parameters')
        check_partition(
            ctx, s.domain, ab.ppp.regions, props, kind == 'bi')
        if check_transitions(ctx, s, ab, opts):
            ctx.label('transitions')
    return symx.Harness(name, fn, ['transitions'], opaque_repr='all')


def switched(ctx):
    """Modes that are chosen by players."""
    two = ctx.pick('modes', ['env', 'sys', 'both'])
    names = {
        'env': (['e', 'f'], [0], (2, 0)),
        'sys': ([0], ['g', 'h'], (0, 2)),
        'both': (['e', 'f'], ['g'], (2, 1))}[two]
    dyn = dict()
    plane = ctx.flag('plane')
    U = box([-1, 1], [-1, 1]) if plane else box([-1, 1])
    pairs = list(itertools.product(names[0], names[1]))
    if plane:
        one = lti([[1, 0], [0, 1]], [[1, 0], [0, 1]], SQUARE, U)
        other = lti([[.5, 0], [0, 1]], [[1, 0], [0, .5]], SQUARE, U,
                    K=[.5, 0])
        dom, props = SQUARE, ROOM
    else:
        one = lti([[1]], [[1]], LINE, U)
        other = lti([[.5]], [[1]], LINE, box([0, 1]), K=[.5])
        dom, props = LINE, LAB
    for mode, s in zip(pairs, [one, other]):
        dyn[mode] = hybrid.PwaSysDyn([s], dom)
    N = ctx.pick('N', [1, 2])
    size = names[2]
    kw = dict()
    if two == 'env':
        kw = dict(env_labels=names[0], disc_sys_labels=names[1])
        size = (2, 1)
    elif two == 'sys':
        kw = dict(env_labels=names[0], disc_sys_labels=names[1])
        size = (1, 2)
    else:
        kw = dict(env_labels=names[0], disc_sys_labels=names[1])
    sw = hybrid.SwitchedSysDyn(
        disc_domain_size=size, dynamics=dyn, cts_ss=dom, **kw)
    part = quiet(abstract.prop2part, dom, props)
    length = ctx.pick('length', [1, 2])
    params = {m: dict(N=N, trans_length=length, min_cell_volume=.1)
              for m in pairs}
    ctx.note(modes=two, N=N, plane=plane)
    if N == 1 and length == 1 and ctx.flag('default parameters'):
        params = None
    ab = quiet(abstract.discretize_switched, part, sw, params)
    check_partition(ctx, dom, ab.ppp.regions, props)
    ctx.check(set(ab.ts.states) == set(range(len(ab.ppp.regions))),
              'states of abstraction')
    for i, r in enumerate(ab.ppp.regions):
        ctx.check(
            set(ab.ts.states[i]['ap']) == set(r.props), 'label of a state')
        for m in pairs:
            ctx.check(subset(ctx, r, ab.ppp2pwa(m, i)[1]),
                      'cell outside of its parent')
    x = points('x', dom.A.shape[1])
    found = set()
    by_name = {tuple(map(str, m)): m for m in pairs}
    for a, b, d in ab.ts.transitions(data=True):
        mode = (d['env_actions'], d['sys_actions'])
        ctx.check(mode in by_name, 'unknown mode')
        mode = by_name[mode]
        s = dyn[mode].list_subsys[0]
        r = Dyn(s, TOL)
        parent = ab.ppp2pwa(mode, a)[1]
        reach = r.closed(
            x, N, lambda y: inside(ab.ppp.regions[b], y, TOL),
            lambda y: inside(parent, y, TOL), False)
        ctx.check(
            ctx.sat(inside(ab.ppp.regions[a], x, -TOL),
                    z3.Not(reach)) is None,
            'transition cannot be realized in its mode')
        found.add(mode)
    if len(found) > 1:
        ctx.label('transitions')


# ---------------------------------------------------- control inputs


_cache = dict()


def discretized(which, **opts):
    key = which, tuple(sorted(opts.items()))
    if key not in _cache:
        s, props = MODELS[which]()
        part = quiet(abstract.prop2part, s.domain, props)
        _cache[key] = s, quiet(
            abstract.discretize, part, s, min_cell_volume=.1, **opts)
    return _cache[key]


def real(x):
    if isinstance(x, (int, float, np.floating, np.integer)):
        return q(x)
    t = lift(x)
    if isinstance(t, F):
        return z3.RealVal(str(t))
    return z3.ToReal(t) if z3.is_int(t) else t


class Programs:
    """Stand-in for linear and quadratic programming.

    Any point that satisfies the constraints may be returned.
    """

    def __init__(self, ctx):
        self.ctx, self.n, self.bad = ctx, 0, list()
        self.solved = False
        self.lp = pc.polytope.lpsolve
        self.replaying = getattr(ctx, 'replaying', False)

    def __enter__(self):
        pc.polytope.lpsolve = self.linear
        self.cvx = fc._cvx
        fc._cvx = types.SimpleNamespace(
            matrix=lambda x: x,
            solvers=types.SimpleNamespace(qp=self.quadratic))
        return self

    def __exit__(self, *a):
        pc.polytope.lpsolve = self.lp
        fc._cvx = self.cvx

    def linear(self, c, G, h, solver=None, **kw):
        if np.asarray(h).dtype != object:
            return self.lp(c, G, h, solver=solver, **kw)
        x = self.point(np.array(G), np.array(h))
        if x is None:
            return dict(status=2, x=None, fun=None)
        return dict(status=0, x=x, fun=self.cost())

    def quadratic(self, P, q, G, h, **kw):
        x = self.point(np.array(G), np.array(h))
        if x is None:
            return {'status': 'unknown', 'x': None,
                    'primal objective': None}
        return {'status': 'optimal', 'x': x,
                'primal objective': self.cost()}

    def cost(self):
        return -self.n if self.ctx.flag(f'better{self.n}') else self.n

    def point(self, G, h):
        self.n += 1
        k, h = G.shape[1], h.reshape(-1)
        rows = [[(j, float(c)) for j, c in enumerate(row)
                 if float(c) != 0] for row in G]
        if self.replaying:
            G, h = G.astype(float), h.astype(float)
        if not self.ctx.flag(f'solvable{self.n}'):
            if self.replaying:
                self.ctx.assume(
                    self.lp(np.zeros(k), G, h)['status'] != 0)
            else:
                y = [z3.FreshReal('y') for _ in range(k)]
                self.bad.append(z3.Not(z3.Exists(y, z3.And(*[
                    z3.Sum([z3.RealVal(0)] + [
                        q(c) * y[j] for j, c in row]) <=
                    real(b) + z3.RealVal('1/10000')
                    for row, b in zip(rows, h)]))))
            return None
        self.solved = True
        x = [self.ctx.real(f'var{self.n}.{j}', -50, 50) for j in range(k)]
        if self.replaying:
            x = np.array([float(v) for v in x])
            self.ctx.assume(bool(np.all(G @ x <= h + 1e-6)))
            return x
        self.ctx.assume(symx.mk(z3.And(*[
            z3.Sum([z3.RealVal(0)] + [
                q(c) * real(x[j]) for j, c in row]) <= real(b)
            for row, b in zip(rows, h)])))
        r = np.empty(k, dtype=object)
        r[:] = x
        return r


def eliminate(f):
    return z3.Tactic('qe')(f).as_expr()


def refute(ctx, x, lp, msg):
    """Show that programs cannot be without solutions."""
    if not getattr(ctx, 'replaying', False):
        m = ctx.sat(*ctx.solver.assertions(), *lp.bad)
        if m is None:
            return
        for v in x:
            ctx.assume(symx.mk(v == m.eval(v, model_completion=True)))
    ctx.check(False, msg)


SOME = [
    # cost and norm
    ('default', 1), ('weights', np.inf), ('weights', 2), ('mid', 2),
    ('final', 1), ('mid', np.inf)]


def inputs(name, models, deep=False):
    def fn(ctx):
        replaying = getattr(ctx, 'replaying', False)
        tol = TOL / 2 if replaying else TOL
        which = ctx.pick('model', models)
        N = ctx.pick('N', [1, 2])
        closed = ctx.pick('closed_loop', [True, False])
        conservative = ctx.pick('conservative', [False, True])
        opts = dict(N=N, closed_loop=closed, conservative=conservative,
                    use_all_horizon=False)
        s, ab = discretized(which, **opts)
        pairs = sorted(ab.ts.transitions())
        if not pairs:
            return
        start, end = ctx.pick('transition', [tuple(p) for p in pairs])
        ctx.note(model=which, options=opts, start=start, end=end)
        k, sub = ab.ppp2sys(start)
        dyn = Dyn(sub, tol)
        n, m = dyn.n, dyn.m
        x0 = [ctx.real(f'x{i}', -10, 10) for i in range(n)]
        x = [real(v) for v in x0]
        cells = ab.ppp.regions
        ctx.assume(symx.mk(inside(cells[start], x, -tol)))
        point = np.empty(n, dtype=object)
        point[:] = [float(v) for v in x0] if replaying else x0
        kind, norm = ctx.pick('cost', [
            (a, b) for a in ('default', 'weights', 'mid', 'final')
            for b in (1, np.inf, 2) if deep or (a, b) in SOME])
        kw = dict(
            default=dict,
            weights=lambda: dict(
                R=np.eye(N * n), r=np.ones((N * n, 1)),
                Q=2 * np.eye(N * m), mid_weight=1.),
            mid=lambda: dict(mid_weight=2),
            final=lambda: dict(
                Q=np.eye(N * m), r=np.ones((N * n, 1))))[kind]()
        kw['ord'] = norm
        weights = {a: np.array(b) for a, b in kw.items()}
        u = None
        with Programs(ctx) as lp:
            try:
                u = quiet(
                    fc.get_input, point, sub, ab, start, end, **kw)
            except Exception as e:
                if type(e) is not Exception and type(
                        e).__module__ != fc.__name__:
                    raise
                if lp.solved:
                    refute(ctx, x, lp, 'solution is not used')
                    return
        for a, b in weights.items():
            ctx.check(np.array_equal(b, kw[a]), 'weights change')
        if u is None:
            ctx.label('failure')
            if N == 1 or not conservative:
                refute(ctx, x, lp, 'no input is found')
            return
        ctx.label('input')
        ctx.check(u.shape == (N, m), 'shape of inputs')
        us = [[real(v) for v in row] for row in u]
        if conservative:
            parent = cells[start] if len(pieces(cells[start])) == 1 else (
                pc.qhull(np.vstack([
                    pc.extreme(p) for p in pieces(cells[start])])))
        else:
            parent = ab.ppp2pwa(start)[1]
        W = sub.Wset
        y = x
        claim, given = list(), list()
        for t in range(1 if closed else N):
            d = None
            if dyn.noisy:
                d = [ctx.free(z3.Real(f'd{t}.{i}')) for i in range(dyn.p)]
                given.append(hull(W, d, 0))
            claim.append(dyn.allowed(y, us[t]))
            y = dyn.next(y, us[t], d)
            if t < N - 1:
                claim.append(inside(parent, y, tol))
        if not closed or N == 1:
            claim.append(inside(cells[end], y, tol))
        else:
            key = which, tuple(opts.items()), start, end
            if key not in _rest:
                v = points('rest', n)
                _rest[key] = v, eliminate(dyn.closed(
                    v, N - 1, lambda z: inside(cells[end], z, tol),
                    lambda z: inside(parent, z, tol), False))
            v, f = _rest[key]
            claim.append(z3.substitute(f, *zip(v, y)))
        ctx.check(symx.mk(z3.Implies(
            z3.And(*given) if given else z3.BoolVal(True),
            z3.And(*claim))), 'input does not realize the transition')
    return symx.Harness(name, fn, ['input'], opaque_repr='all')


_rest = dict()


def vector(ctx, name, n):
    """Symbolic array and terms."""
    xs = [ctx.real(f'{name}{i}', -10, 10) for i in range(n)]
    if getattr(ctx, 'replaying', False):
        return np.array([float(v) for v in xs]), [real(v) for v in xs]
    r = np.empty(n, dtype=object)
    r[:] = xs
    return r, [real(v) for v in xs]


def location(ctx):
    """Cells of states, and sequences of inputs."""
    what = ctx.pick('what', ['cell', 'sequence'])
    if what == 'cell':
        which = ctx.pick('model', ['walk', 'apart', 'plane', 'pwa line'])
        s, props = MODELS[which]()
        part = quiet(abstract.prop2part, s.domain, props)
        point, x = vector(ctx, 'x', s.domain.A.shape[1])
        k = fc.find_discrete_state(point, part)
        ctx.note(model=which, cell=k)
        if k is None:
            ctx.label('no cell')
            ctx.check(symx.mk(z3.Not(z3.Or(*[
                inside(r, x, -TOL) for r in part.regions]))),
                'state of no cell')
            return
        ctx.label('cell')
        ctx.check(symx.mk(inside(part.regions[k], x, TOL)),
                  'state outside of its cell')
        ctx.check(symx.mk(z3.Not(z3.Or(*[
            inside(r, x, -TOL) for r in part.regions[:k]]))),
            'not the first cell')
        return
    which = ctx.pick('model', ['walk', 'slow', 'flip', 'plane', 'tilted'])
    if which == 'tilted':
        s = lti([[1, .5], [-.5, 1]], [[0], [1]],
                box([0, 2], [-1, 1]), box([-1, 1]), K=[.25, -.5])
    else:
        s = MODELS[which]()[0]
    dyn = Dyn(s, 0)
    n, m = dyn.n, dyn.m
    sets = [
        pc.Region([box([0, 1]), box([1.5, 4])]), box([.5, 3])] if n == 1 \
        else [
            pc.Polytope(np.array([[1, 1.], [-1, 0], [0, -1]]),
                        np.array([2, 0, .5])), box([0, 1], [.25, 2])]
    a, b = ctx.pick('sets', [0, 1]), ctx.pick('target', [0, 1])
    N = ctx.pick('N', [1, 2, 3])
    point, x = vector(ctx, 'x', n)
    seq, terms = vector(ctx, 'u', N * m)
    r = fc.is_seq_inside(point, seq.reshape(N, m), s, sets[a], sets[b])
    ctx.note(model=which, sets=(a, b), N=N, result=bool(r))
    y, cs = x, list()
    for t in range(N):
        y = dyn.next(y, terms[t * m:t * m + m], None)
        cs.append((sets[b] if t == N - 1 else sets[a], y))
    if r:
        ctx.label('inside')
        claim = z3.And(*[inside(p, v, TOL) for p, v in cs])
    else:
        ctx.label('outside')
        claim = z3.Not(z3.And(*[inside(p, v, -TOL) for p, v in cs]))
    ctx.check(symx.mk(claim), 'is_seq_inside')


BOUNDS = dict(
    quick='systems with 1 or 2 continuous states, 1 or 2 inputs, at most 2 '
    'disturbances (ten affine systems and three piecewise-affine systems '
    'with two pieces: offsets, disturbances, bounds of inputs that depend '
    'on the state), domains with sides 2 to 4, one or two propositions '
    '(possibly not convex or overlapping), horizons N of 1 and 2, closed '
    'and open loop, conservative or not, fixed or bounded horizon, '
    'trans_length 1, cells of at least 0.1; two modes of an environment '
    'or system, N and trans_length of 1 and 2; all pairs of 5 or 6 '
    'propositions, refined by convexification, grids, or subsystems; '
    'inputs for every transition, with six combinations of weights and '
    'norms. All continuous states, all disturbances, all inputs and all '
    'solutions of the optimization problems: real numbers.',
    thorough='as quick, with N up to 3, trans_length up to 2, cells of at '
    'least 0.1 and 0.4, and all combinations of weights and norms')
OUTSIDE = (
    'Other systems than those of the menu: matrices are concrete, because '
    'discretization computes with polytopes numerically. Whether more '
    'transitions exist than those of the abstraction. Dual simulation '
    'with conservative, which does not terminate for some systems of the '
    'menu. Optimality of the inputs. multiproc_discretize_switched, '
    'plots. Disturbance sets that are not full-dimensional.')
ASSUMPTIONS = [
    'the package polytope, and its arithmetic with tolerance 1e-7, are '
    'used as they are',
    'regions are compared with tolerance 1e-3, coefficients are rounded '
    'to 7 digits',
    'linear and quadratic programs with symbolic coefficients are replaced '
    'by any point that satisfies their constraints (a counterexample is '
    'replayed after confirming that the point satisfies them)']
EXPLANATION = (
    'Discretization runs for each system and each combination of options, '
    'and the resulting cells become formulas of linear real arithmetic. '
    'For all continuous states the solver decides: cover, overlap, labels, '
    'and for each transition, whether each state of the source cell has '
    'inputs (quantified) such that for all disturbances (quantified) the '
    'system reaches the target within bounds. Inputs are computed by '
    'running get_input with a symbolic continuous state.')


def harnesses(tier):
    quick = tier == 'quick'
    deep = not quick
    line = ['walk', 'slow', 'noise', 'shift', 'flip', 'coupled', 'apart']
    return [
        symx.Harness('partitions', partitions, ['partition', 'refined'],
                     opaque_repr='all'),
        abstractions('line', line, ['bi'], deep),
        abstractions('plane', ['plane', 'drift', 'two noises'], ['bi'],
                     deep),
        abstractions('pieces', ['pwa line', 'pwa plane', 'pwa noise'],
                     ['bi'], deep),
        abstractions('dual', [
            'walk', 'noise', 'flip', 'apart', 'plane', 'pwa line'],
            ['dual']),
        inputs('inputs', [
            'walk', 'noise', 'coupled', 'apart', 'pwa noise'], deep),
        inputs('plane inputs', [
            'plane', 'two noises', 'pwa plane'], deep),
        symx.Harness('location', location, [
            'cell', 'no cell', 'inside', 'outside'], opaque_repr='all'),
        symx.Harness('switched', switched, ['transitions'],
                     opaque_repr='all')]
