"""C25: hybrid systems are accepted exactly when well defined."""
import warnings

import numpy as np
import polytope as pc
import symx
import z3

from tulip import hybrid

warnings.simplefilter('ignore')


def box(dim, top=1.0):
    return pc.box2poly([[0.0, top]] * dim)


def build(call):
    """Return result and the type of error."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return call(), None
        except (ValueError, TypeError) as e:
            return None, type(e)


def array(rows, cols, first=1.0):
    return (first + np.arange(rows * cols)).reshape(rows, cols)


def same(a, b):
    return a.shape == b.shape and bool((a == b).all())


def lti(ctx):
    """Sizes of matrices and sets of affine systems."""
    n = ctx.pick('n', [1, 2, 3])
    cols = ctx.pick('columns of A', [n, n + 1])
    m = ctx.pick('m', [1, 2])
    rows_b = ctx.pick('rows of B', [n, n - 1] if n > 1 else [n, n + 1])
    u = ctx.pick('dimension of Uset', [None, 1, 2, 3, 4])
    dom = ctx.pick('dimension of domain', [None, 1, 2, 3])
    e = ctx.pick('E', [None, (n, 1), (n, 2), (n + 1, 1)])
    w = ctx.pick('dimension of Wset', [None, 1, 2]) if (
        e is not None) else None
    k = ctx.pick('K', [None, (n, 1), (n + 1, 1), (n, 2), (n,)]) if (
        e is None or e == (n, 1)) else None
    ctx.note(A=(n, cols), B=(rows_b, m), E=e, K=k, Uset=u, Wset=w, domain=dom)
    A, B = array(n, cols), array(rows_b, m, 10.0)
    E = None if e is None else array(*e, 20.0)
    K = None if k is None else np.arange(float(np.prod(k))).reshape(k) + 5
    U, W, D = (None if d is None else box(d) for d in (u, w, dom))
    s, err = build(lambda: hybrid.LtiSysDyn(A, B, E, K, U, W, D))
    # sizes as integers that the solver decides
    v = {x: z3.Int(x) for x in 'n cols rows m u dom er ec w kr kc kd'.split()}
    ok = z3.And(
        v['n'] == v['cols'], v['rows'] == v['n'],
        z3.Or(u is None, v['u'] == v['m'], v['u'] == v['m'] + v['n']),
        z3.Or(dom is None, v['dom'] == v['n']),
        z3.Or(e is None, z3.And(v['er'] == v['n'], z3.Or(
            w is None, v['w'] == v['ec']))),
        z3.Or(k is None, z3.And(
            v['kd'] == 2, v['kr'] == v['n'], v['kc'] == 1)))
    given = dict(n=n, cols=cols, rows=rows_b, m=m, u=u, dom=dom, w=w)
    if e is not None:
        given.update(er=e[0], ec=e[1])
    if k is not None:
        given.update(kd=len(k), kr=k[0], kc=k[-1] if len(k) > 1 else 0)
    facts = [v[x] == y for x, y in given.items() if y is not None]
    good = ctx.sat(*facts, ok) is not None
    ctx.check((err is None) == good, 'accepted exactly when sizes agree')
    if err is not None:
        ctx.label('rejected')
        return
    ctx.label('accepted')
    ctx.check(same(s.A, A) and same(s.B, B), 'A and B')
    ctx.check(s.Uset is U and s.domain is D, 'Uset and domain')
    ctx.check(same(s.K, np.zeros((n, 1)) if K is None else K), 'K')
    if E is None:
        ctx.check(s.E.shape[0] == n and not s.E.any(), 'no disturbance')
    else:
        ctx.check(same(s.E, E) and s.Wset is W, 'E and Wset')


def interval(a, b):
    return pc.box2poly([[float(a), float(b)]])


def subsystem(ctx, D, n=1, m=1, p=None, **kw):
    return hybrid.LtiSysDyn(
        np.eye(n), np.ones((n, m)), None if p is None else np.ones((n, p)),
        None, box(m), None, D, **kw)


def pwa(ctx):
    """Subdomains cover the domain, and do not overlap."""
    top = 3
    k = ctx.pick('subsystems', [1, 2, 3])
    ends = list()
    for i in range(k):
        a = ctx.pick(f'a{i}', range(top))
        b = ctx.pick(f'b{i}', range(a + 1, top + 1))
        ends.append((a, b))
    whole = (0, ctx.pick('top', [2, 3]) if k < 3 else 3)
    two = k == 2 and ctx.flag('region')
    D = interval(*whole)
    if two:
        # region with a gap between 1 and 2
        whole = (0, 3)
        D = pc.Region([interval(0, 1), interval(2, 3)])
    ctx.note(domains=ends, domain=whole, region=two)
    subs = [subsystem(ctx, interval(*x)) for x in ends]
    s, err = build(lambda: hybrid.PwaSysDyn(subs, D))
    x = z3.Real('x')

    def inside(a, b):
        return z3.And(a < x, x < b)
    dom = z3.Or(inside(0, 1), inside(2, 3)) if two else inside(*whole)
    # closed subdomains
    uncovered = ctx.sat(dom, *(
        z3.Not(z3.And(a <= x, x <= b)) for a, b in ends)) is not None
    overlap = any(
        ctx.sat(inside(*ends[i]), inside(*ends[j])) is not None
        for i in range(k) for j in range(i))
    ctx.check((err is None) == (not uncovered and not overlap),
              'accepted exactly when subdomains partition the domain')
    if err is not None:
        ctx.check(err is ValueError, 'error')
        ctx.label('overlap' if overlap else 'uncovered')
        return
    ctx.check(list(s.list_subsys) == subs and s.domain is D,
              'subsystems and domain')
    ctx.label('accepted')


def dims(ctx):
    """Dimensions of subsystems."""
    k = ctx.pick('subsystems', [2, 3])
    size = [tuple(ctx.pick(f'{x}{i}', [1, 2]) for x in 'mp')
            for i in range(k)]
    plane = ctx.flag('plane')
    subs = list()
    for i, (m, p) in enumerate(size):
        D = pc.box2poly([[float(i), i + 1.0]] + [[0.0, 1.0]] * plane)
        subs.append(subsystem(ctx, D, 1 + plane, m, p))
    D = pc.box2poly([[0.0, float(k)]] + [[0.0, 1.0]] * plane)
    ctx.note(sizes=size, plane=plane)
    s, err = build(lambda: hybrid.PwaSysDyn(subs, D))
    ctx.check((err is None) == (len(set(size)) == 1),
              'accepted exactly when dimensions agree')
    ctx.label('rejected' if err else 'accepted')


TIMES = [None, 1, 0.5, 2.0, 0, -0.5]
SEMANTICS = [None, 'sampled', 'discrete', 'continuous']


def valid_time(semantics, step):
    return semantics != 'continuous' and (
        semantics != 'discrete' or step is None) and (
            step is None or step > 0)


def times(ctx):
    """Time semantics of systems and subsystems."""
    what = ctx.pick('what', ['lti', 'pwa', 'switched'])
    sem = ctx.pick('semantics', SEMANTICS)
    step = ctx.pick('step', TIMES)
    if what == 'lti':
        s, err = build(lambda: subsystem(
            ctx, interval(0, 1), time_semantics=sem, timestep=step))
        ctx.note(what=what, sem=sem, step=step)
        ctx.check((err is None) == valid_time(sem, step),
                  'accepted exactly when time data is valid')
        if err is None:
            ctx.check((s.time_semantics, s.timestep) == (sem, step),
                      'time data')
        ctx.label('rejected' if err else 'accepted')
        return
    k = ctx.pick('subsystems', [1, 2, 3])
    overwrite = ctx.flag('overwrite')
    options = [(None, None), ('sampled', 1), ('sampled', 0.5),
               ('sampled', None), ('discrete', None)]
    inner = [options[ctx.pick(f'time{i}', range(5 if i < 2 else 2))]
             for i in range(k)]
    subs = [subsystem(ctx, interval(i, i + 1), time_semantics=a, timestep=b)
            for i, (a, b) in enumerate(inner)]
    D = interval(0, k)
    ctx.note(what=what, sem=sem, step=step, inner=inner, overwrite=overwrite)
    if what == 'pwa':
        s, err = build(lambda: hybrid.PwaSysDyn(
            subs, D, sem, step, overwrite))
        parts = subs
    else:
        parts = [hybrid.PwaSysDyn([x], x.domain, a, b)
                 for x, (a, b) in zip(subs, inner)]
        s, err = build(lambda: hybrid.SwitchedSysDyn(
            (1, k), {(0, i): x for i, x in enumerate(parts)}, D,
            None, None, sem, step, overwrite))
    good = valid_time(sem, step) and (
        overwrite or all(x == (sem, step) for x in inner))
    ctx.check((err is None) == good,
              'accepted exactly when time data is consistent')
    if err is not None:
        ctx.label('rejected')
        return
    ctx.label('accepted')
    for x in [s, *parts, *subs]:
        ctx.check((x.time_semantics, x.timestep) == (sem, step),
                  'time data of systems and subsystems')


def switched(ctx):
    """Modes and labels."""
    size = (ctx.pick('env', [1, 2]), ctx.pick('sys', [1, 2, 3]))
    names = [ctx.pick('env labels', [None, ['a'], ['b', 'a']]),
             ctx.pick('sys labels', [None, ['l'], ['l', 'k'],
                                     ['x', 3, 'l']])]
    labels = [list(range(n)) if x is None else x
              for n, x in zip(size, names)]
    combos = [(a, b) for a in labels[0] for b in labels[1]]
    D = interval(0, 1)
    sub = [hybrid.PwaSysDyn([subsystem(ctx, interval(0, 1))], D)
           for _ in combos]
    drop = ctx.pick('missing', [None, 0, len(combos) - 1])
    dyn = {x: s for i, (x, s) in enumerate(zip(combos, sub)) if i != drop}
    extra = ctx.pick('extra', [None, (7, 7), (labels[0][0], 'no'),
                               (labels[1][0], labels[0][0])])
    if extra is not None:
        dyn[extra] = sub[0]
    kind = ctx.pick('kind', ['pwa', 'lti']) if extra is None else 'pwa'
    if kind == 'lti' and dyn:
        dyn[next(iter(dyn))] = sub[0].list_subsys[0]
    given = dict(dyn)
    ctx.note(size=size, labels=names, modes=list(dyn), kind=kind)
    s, err = build(lambda: hybrid.SwitchedSysDyn(
        size, dyn, D, names[0], names[1]))
    fit = all(len(x) == n for x, n in zip(labels, size))
    good = fit and set(dyn) <= set(combos) and not (kind == 'lti' and dyn)
    ctx.check((err is None) == good,
              'accepted exactly when modes are those declared')
    if err is not None:
        ctx.label('rejected')
        return
    ctx.label('accepted')
    ctx.check(list(s.env_labels) == labels[0] and list(
        s.disc_sys_labels) == labels[1], 'labels of modes')
    ctx.check(sorted(map(str, s.all_mode_combs)) == sorted(
        map(str, combos)), 'combinations of labels')
    ctx.check(set(s.modes) == set(given), 'modes')
    ctx.check(all(s.dynamics[x] is y for x, y in given.items()),
              'dynamics of modes')
    ctx.check(s.cts_ss is D and tuple(s.disc_domain_size) == size,
              'domain and number of modes')


def shortcuts(ctx):
    """Systems with one mode, or one subsystem."""
    n, m = ctx.pick('n', [1, 2]), ctx.pick('m', [1, 2])
    A, B = array(n, n), array(n, m, 10.0)
    E = array(n, 2, 20.0) if ctx.flag('E') else None
    K = array(n, 1, 3.0) if ctx.flag('K') else None
    U, D = box(m, 2.0), box(n, 3.0)
    W = None if E is None else box(2, 4.0)
    how = ctx.pick('how', ['pwa', 'switched', 'from_pwa'])
    ctx.note(n=n, m=m, E=E is not None, K=K is not None, how=how)
    if how == 'pwa':
        s = hybrid.PwaSysDyn.from_lti(A, B, E, K, U, W, D)
    elif how == 'switched':
        h = hybrid.SwitchedSysDyn.from_lti(A, B, E, K, U, W, D)
    else:
        h = hybrid.SwitchedSysDyn.from_pwa(
            [hybrid.LtiSysDyn(A, B, E, K, U, W, D)], D)
    if how != 'pwa':
        ctx.check(list(h.modes) == [(0, 0)] and h.cts_ss is D and list(
            h.all_mode_combs) == [(0, 0)], 'single mode')
        s = h.dynamics[0, 0]
    ctx.check(s.domain is D and len(s.list_subsys) == 1, 'single subsystem')
    x, = s.list_subsys
    ctx.check(same(x.A, A) and same(x.B, B), 'A and B')
    ctx.check(same(x.K, np.zeros((n, 1)) if K is None else K), 'K')
    ctx.check(x.Uset is U and x.domain is D, 'Uset and domain')
    if E is None:
        ctx.check(not x.E.any(), 'no disturbance')
    else:
        ctx.check(same(x.E, E) and x.Wset is W, 'E and Wset')
    ctx.label('built')


BOUNDS = dict(
    quick='up to 3 states, 2 inputs, 2 disturbances; domains that are '
    'intervals with ends 0 to 3 (or a region of two), up to 3 subsystems; '
    'up to 2 x 3 modes; time steps from 6 values',
    thorough='as quick')
OUTSIDE = (
    'Systems without A or B. Subdomains that are not boxes. Covering '
    'and overlap up to sets with empty interior.')
ASSUMPTIONS = [
    'operations on polytopes are those of the package polytope, run '
    'unchanged']
EXPLANATION = (
    'Constructors of hybrid systems run for all descriptions within '
    'bounds; whether they accept is compared to conditions on sizes, '
    'covering, and overlap, which the solver decides.')


def harnesses(tier):
    H = symx.Harness
    return [
        H('lti', lti, ['accepted', 'rejected']),
        H('pwa', pwa, ['accepted', 'overlap', 'uncovered']),
        H('dims', dims, ['accepted', 'rejected']),
        H('times', times, ['accepted', 'rejected']),
        H('switched', switched, ['accepted', 'rejected']),
        H('shortcuts', shortcuts, ['built'])]
