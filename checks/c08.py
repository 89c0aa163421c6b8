"""C08: synthesized controllers satisfy their specification."""
import contextlib
import io
import itertools

import ltl
import symx
import z3
from ltl import conj

import c04

from tulip import spec as tspec
from tulip import synth, transys

P = ltl.TULIP.parse


# ------------------------------------------------- reference: GR(1) games


def ev(f, s, t):
    """Value of formula `f` at valuation `s` followed by `t`."""
    k = f[0]
    if k == 'var':
        return s[f[1]]
    if k in ('num', 'bool', 'str'):
        return f[1]
    if k in ('X', 'prime'):
        return ev(f[1], t, None)
    a = [ev(x, s, t) for x in f[1:]]
    return {
        '!': lambda x: not x, '&': lambda x, y: x and y,
        '|': lambda x, y: x or y, '->': lambda x, y: not x or y,
        '<->': lambda x, y: bool(x) == bool(y),
        '^': lambda x, y: bool(x) != bool(y),
        '=': lambda x, y: x == y, '!=': lambda x, y: x != y,
        '<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
        '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[k](*a)


def values(dom):
    if dom in ('boolean', 'bool'):
        return [False, True]
    if isinstance(dom, tuple):
        return list(range(dom[0], dom[1] + 1))
    return list(dom)


def valuations(doms):
    return [dict(zip(doms, vs))
            for vs in itertools.product(*map(values, doms.values()))]


def frozen(d):
    return tuple(sorted(d.items()))


class Game:
    """Reference GR(1) specification: parts are formulas."""

    def __init__(self, env, sys, parts, moore, plus_one, qinit):
        self.env, self.sys = env, sys
        self.parts = parts
        self.moore, self.plus_one, self.qinit = moore, plus_one, qinit
        self.xs, self.ys = valuations(env), valuations(sys)
        self.states = [
            {**x, **y} for x in self.xs for y in self.ys]
        self.keys = [frozen(s) for s in self.states]
        self.goals = parts['sys_prog'] or [('bool', True)]
        self.fair = parts['env_prog']
        self._memo = dict()

    def all(self, part, s, t=None):
        k = (part, frozen(s), frozen(t) if t is not None else None)
        r = self._memo.get(k)
        if r is None:
            r = self._memo[k] = all(
                ev(f, s, t) for f in self.parts[part])
        return r

    def init(self, part, s):
        return self.all(part, s)

    def env_ok(self, s, x):
        # assumptions do not mention the next values of the system
        return self.all('env_safety', s, {**x, **self.ys[0]})

    def env_moves(self):
        return all(any(self.env_ok(s, x) for x in self.xs)
                   for s in self.states)

    def sys_ok(self, s, t):
        return self.all('sys_safety', s, t)

    def realizable(self):
        """Existence of a controller, as a formula.

        A controller with a memory of which goal it pursues suffices.
        `win[s, j]`: it wins from `s` while pursuing goal `j`;
        ranks and indices certify progress.
        """
        n = len(self.goals)
        m = max(1, len(self.fair))
        big = len(self.states) * m + 1
        win, rank, idx = dict(), dict(), dict()
        cs = list()
        for k, s in zip(self.keys, self.states):
            for j in range(n):
                name = f'{self.keys.index(k)}.{j}'
                win[k, j] = z3.Bool(f'win.{name}')
                rank[k, j] = z3.Int(f'rank.{name}')
                cs += [rank[k, j] >= 0, rank[k, j] <= big]
                if self.fair:
                    idx[k, j] = z3.Int(f'idx.{name}')
                    cs += [idx[k, j] >= 0, idx[k, j] < m]
        for k, s in zip(self.keys, self.states):
            for j in range(n):
                cs.append(z3.Implies(win[k, j], self._step(
                    s, k, j, n, win, rank, idx)))
        wins = {
            k: z3.Or(*[win[k, j] for j in range(n)]) for k in self.keys}
        cs.append(self._initial(wins))
        return cs

    def _reach(self, s, k, j, n, win, rank, idx, t):
        q = frozen(t)
        if ev(self.goals[j], s, None):
            return win[q, (j + 1) % n]
        opts = [rank[q, j] < rank[k, j]]
        if self.fair:
            opts.append(z3.And(
                rank[q, j] == rank[k, j], idx[q, j] == idx[k, j],
                z3.Or(*[idx[k, j] == i for i, a in enumerate(self.fair)
                        if not ev(a, s, None)])))
        return z3.And(win[q, j], z3.Or(*opts))

    def _step(self, s, k, j, n, win, rank, idx):
        def reply(x, y):
            t = {**x, **y}
            e = self.env_ok(s, x)
            ok = self.sys_ok(s, t)
            if not e:
                return z3.BoolVal(ok or not self.plus_one)
            if not ok:
                return z3.BoolVal(False)
            return self._reach(s, k, j, n, win, rank, idx, t)
        if self.moore:
            return z3.Or(*[
                z3.And(*[reply(x, y) for x in self.xs]) for y in self.ys])
        return z3.And(*[
            z3.Or(*[reply(x, y) for y in self.ys]) for x in self.xs])

    def _initial(self, wins):
        def form(x, y):
            s = {**x, **y}
            w = wins[frozen(s)]
            e, g = self.init('env_init', s), self.init('sys_init', s)
            if self.qinit == r'\A \A':
                return w if e else z3.BoolVal(True)
            if self.qinit == r'\E \E':
                return w if g else z3.BoolVal(False)
            if self.plus_one:
                return (z3.BoolVal(g) if not e else
                        z3.And(z3.BoolVal(g), w))
            return z3.BoolVal(True) if not e else z3.And(z3.BoolVal(g), w)
        a, b = self.qinit.split()
        if self.qinit == r'\E \A':
            return z3.Or(*[z3.And(*[form(x, y) for x in self.xs])
                           for y in self.ys])
        qx = z3.And if 'A' in a else z3.Or
        qy = z3.And if 'A' in b else z3.Or
        return qx(*[qy(*[form(x, y) for y in self.ys]) for x in self.xs])


# ---------------------------------------------------------- the machine


def label(d, names):
    return {k: d[k] for k in names}


class Controller:
    """Edges of a machine, as pairs of a valuation and a target."""

    def __init__(self, ctx, m, game, bits):
        self.m, self.game = m, game
        names = list(game.env) + list(game.sys)
        ctx.check(set(m.inputs) == set(game.env), 'inputs')
        ctx.check(set(m.outputs) == set(game.sys), 'outputs')
        self.out = {u: list() for u in m.states}
        for u, v, d in m.transitions(data=True):
            ctx.check(set(names) <= set(d), 'transition without a value')
            val = label(d, names)
            for k, dom in {**game.env, **game.sys}.items():
                ctx.check(val[k] in values(dom), 'value outside of domain')
            if bits:
                val = {k: (bool(x) if doms_bool(game, k) else x)
                       for k, x in val.items()}
            e = (frozen(val), v)
            ctx.check(e not in self.out[u], 'repeated transition')
            self.out[u].append(e)
        init = list(m.states.initial)
        ctx.check(len(init) == 1, 'number of initial states')
        self.first = self.out[init[0]]

    def inputs(self, val):
        return frozen({k: v for k, v in val if k in self.game.env})

    def outputs(self, val):
        return frozen({k: v for k, v in val if k in self.game.sys})


def doms_bool(game, k):
    return {**game.env, **game.sys}[k] in ('boolean', 'bool')


def verify(ctx, c, deadends_removed):
    """Does the controller implement the reference specification?"""
    g, q = c.game, c.game.qinit
    # initial reactions
    starts = {x: list() for x in map(frozen, g.xs)}
    seen = set()
    for val, v in c.first:
        starts[c.inputs(val)].append((val, v))
        ctx.check(val not in seen, 'two memories for an initial valuation')
        seen.add(val)
    for val, v in c.first:
        if q == r'\E \E' or g.init('env_init', dict(val)):
            ctx.check(g.init('sys_init', dict(val)), 'initial condition')
    if not deadends_removed:
        if q == r'\A \A':
            for s in g.states:
                if g.init('env_init', s):
                    ctx.check(frozen(s) in seen, 'initial state missing')
        elif q == r'\E \E':
            ctx.check(bool(seen), 'no initial state')
        else:
            for x in g.xs:
                es = [g.init('env_init', {**x, **y}) for y in g.ys]
                if any(es):
                    ctx.check(bool(starts[frozen(x)]),
                              'no reaction to an initial input')
    if q == r'\E \A':
        ctx.check(len({c.outputs(v) for v in seen}) == 1,
                  'initial outputs depend on inputs')
    # steps
    nodes = list(dict.fromkeys(c.first))
    todo = list(nodes)
    steps = list()
    while todo:
        val, v = e = todo.pop()
        s = dict(val)
        given = dict()
        for f in c.out[v]:
            x = c.inputs(f[0])
            given.setdefault(x, list()).append(f)
        for x in g.xs:
            fs = given.get(frozen(x), list())
            if not g.env_ok(s, x):
                continue
            if not deadends_removed:
                ctx.check(bool(fs), 'controller blocks')
            ctx.check(len(fs) <= 1, 'controller is not deterministic')
            for f in fs:
                ctx.check(g.sys_ok(s, dict(f[0])), 'safety guarantee')
                if g.moore:
                    for x1 in g.xs:
                        if g.env_ok(s, x1) or g.plus_one:
                            ctx.check(g.sys_ok(s, {
                                **dict(f[0]), **x1}),
                                'outputs need the next inputs')
                steps.append((e, f))
                if f not in nodes:
                    nodes.append(f)
                    todo.append(f)
        if g.moore:
            ctx.check(len({c.outputs(f[0]) for f in c.out[v]}) <= 1,
                      'outputs of Moore controller depend on inputs')
        if not deadends_removed:
            for f in c.out[v]:
                ctx.check(g.env_ok(s, dict(c.inputs(f[0]))),
                          'transition that the assumption excludes')
    # progress: ranks and indices exist if and only if no behavior
    # satisfies the assumptions and misses a goal
    m = max(1, len(g.fair))
    for j, goal in enumerate(g.goals):
        cs = list()
        pos = {e: i for i, e in enumerate(nodes)}
        rank = [z3.Int(f'r{i}') for i in range(len(nodes))]
        idx = [z3.Int(f'i{i}') for i in range(len(nodes))]
        for i in range(len(nodes)):
            cs += [rank[i] >= 0, rank[i] <= len(nodes), idx[i] >= 0,
                   idx[i] < m]
        for e, f in steps:
            s = dict(e[0])
            if ev(goal, s, None):
                continue
            a, b = pos[e], pos[f]
            opts = [rank[b] < rank[a]]
            if g.fair:
                opts.append(z3.And(
                    rank[a] == rank[b], idx[a] == idx[b],
                    z3.Or(*[idx[a] == i for i, p in enumerate(g.fair)
                            if not ev(p, s, None)])))
            cs.append(z3.Or(*opts))
        ctx.check(ctx.sat(*cs) is not None, 'progress guarantee')
    return nodes, steps


def trimmed(c):
    """Transitions that remain without dead ends."""
    out = {u: set(es) for u, es in c.out.items()}
    while True:
        dead = {u for u, es in out.items() if not es}
        new = {u: {e for e in es if e[1] not in dead}
               for u, es in out.items() if u not in dead}
        if new == out:
            return out
        out = new


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def decide(ctx, game, run, solver, also_trim, bits=False):
    """Compare verdicts; verify the controller."""
    real = ctx.sat(*game.realizable()) is not None
    verdict = run('is_realizable', solver=solver)
    ctx.check(bool(verdict) == real,
              f'realizability by {solver}' +
              (' (accepts)' if not real else ' (rejects)'))
    if game.plus_one and not game.env_moves():
        # then the package omega may fail to construct a controller
        ctx.label('blocked environment')
        return
    m = run('synthesize', rm_deadends=False, solver=solver)
    if not real:
        ctx.check(m is None, 'controller for an unrealizable specification')
        ctx.label('unrealizable')
        return
    ctx.check(m is not None, 'no controller for a realizable specification')
    if m is None:
        return
    c = Controller(ctx, m, game, bits)
    verify(ctx, c, False)
    ctx.label('controller')
    if not also_trim:
        return
    out = trimmed(c)
    if not out:
        # no infinite behavior at all
        return
    m1 = run('synthesize', rm_deadends=True, solver=solver)
    ctx.check(m1 is not None, 'no controller without dead ends')
    if m1 is None:
        return
    c1 = Controller(ctx, m1, game, bits)
    for u in m1.states:
        ctx.check(bool(c1.out[u]), 'dead end')
    verify(ctx, c1, True)
    # inputs after which the assumption can be kept forever
    ctx.check(len(m1.states) == len(out), 'states without dead ends')
    ctx.label('trimmed')


def usable(game):
    """Initial assumptions of the game are satisfiable."""
    q = game.qinit
    if q == r'\E \E':
        return not game.parts['env_init']
    if q == r'\A \A' and game.parts['sys_init']:
        return False
    return any(game.init('env_init', s) for s in game.states)


# ------------------------------------------------------ specifications


CONFIGS = {
    'bool': (dict(x='boolean'), dict(y='boolean'), 'x', 'y', '!y'),
    'int': (dict(x=(0, 2)), dict(y='boolean'), 'x = 2', 'y', '!y'),
    'low': (dict(x='boolean'), dict(y=(1, 3)), 'x', 'y = 3', 'y < 2'),
    'neg': (dict(x=(-1, 1)), dict(y=(-1, 0)), 'x = -1', 'y = -1', 'y = 0'),
    'str': (dict(x=['p', 'q']), dict(y=['a', 'ab', 'b']),
            'x = "q"', 'y = "ab"', 'y = "b"'),
    'two': (dict(x='boolean', w='boolean'), dict(y='boolean'),
            '(x & w)', 'y', '!y'),
}
CLAUSES = dict(
    env_init=[[], ['E']],
    env_safety=[[], ["(E) -> !X(E)"], ['(Y) -> X(E)', '(E) | X(E)'],
                ['(E) -> (X(E) & !X(E))'], ['(E)']],
    env_prog=[[], ['E'], ['E', '!(E)']],
    sys_init=[[], ['Y'], ['(E) -> (Y)', 'Y']],
    sys_safety=[[], ["X(E) -> X(Y)"], ['(Y) -> !X(Y)'],
                ['(E) -> X(Z)', '(Y) | X(Y) | (E)'],
                ['X(Y) <-> X(E)'], ['(Y) & !(Y)']],
    sys_prog=[[], ['Y'], ['Y', 'Z'], ['(E) & (Y)'], ['E', 'Z']])


def fill(ctx, config, menu):
    env, sys_, e, y, z = CONFIGS[config]
    text = dict()
    for part, opts in menu.items():
        k = ctx.pick(part, opts)
        text[part] = [
            c.replace('E', '@').replace('Y', y).replace('Z', z)
            .replace('@', e) for c in CLAUSES[part][k]]
    return dict(env), dict(sys_), text


def build(env, sys_, text, moore, plus_one, qinit):
    s = tspec.GRSpec(
        env_vars=dict(env), sys_vars=dict(sys_),
        **{k: list(v) for k, v in text.items()})
    s.moore, s.plus_one, s.qinit = moore, plus_one, qinit
    return s


QINIT = [r'\A \E', r'\A \A', r'\E \E', r'\E \A']


def specs(name, configs, menu, modes, solvers, trim=True):
    def fn(ctx):
        config = ctx.pick('config', configs)
        moore, plus_one, qinit = ctx.pick('mode', modes)
        env, sys_, text = fill(ctx, config, menu)
        game = Game(env, sys_, {
            k: [P(x) for x in v] for k, v in text.items()},
            moore, plus_one, qinit)
        ctx.assume(usable(game))
        ctx.note(text=text, mode=(moore, plus_one, qinit), config=config)
        for solver in solvers:
            if solver == 'gr1py' and (
                    (moore, plus_one, qinit) != (False, False, r'\A \E')
                    or not game.env_moves()):
                continue
            s = build(env, sys_, text, moore, plus_one, qinit)

            def run(f, **kw):
                before = text_of(s)
                r = quiet(getattr(synth, f), s, **(
                    kw if f == 'synthesize' else dict(solver=solver)))
                ctx.check(text_of(s) == before, 'specification changed')
                return r
            decide(ctx, game, run, solver, trim, bits=solver == 'gr1py')
    return symx.Harness(
        name, fn, ['controller', 'unrealizable'], opaque_repr='all')


def text_of(s):
    return (repr(s.env_vars), repr(s.sys_vars), list(s.env_init),
            list(s.sys_init), list(s.env_safety), list(s.sys_safety),
            list(s.env_prog), list(s.sys_prog))


# ----------------------------------------------- with transition systems


def model(ctx, owner, name, statevar, small):
    if small:
        return small_model(ctx, owner, name, statevar)
    kind = ctx.pick(f'{name}.states', [['s', 'r'], [0, 1]])
    s, t = kind
    types = dict(env_actions=[], sys_actions=[])
    must = dict(sys='xor', env='xor')
    if ctx.flag(f'{name}.actions'):
        types = dict(env_actions=['e', 'f'], sys_actions=['a', 'b'])
        labs = [
            dict(env_actions='e', sys_actions='a'),
            dict(env_actions='e', sys_actions='b'),
            dict(env_actions='f', sys_actions='a')]
        edges = [(s, t, labs[0]), (s, s, labs[2]),
                 (t, s, ctx.pick(f'{name}.l', labs))]
        if ctx.flag(f'{name}.more'):
            edges.append((t, t, labs[1]))
    else:
        edges = [(s, t, {})]
        edges += [e for i, e in enumerate(
            [(t, s, {}), (t, t, {}), (s, s, {})])
            if ctx.flag(f'{name}.e{i}')]
    init = [kind[i] for i in ctx.pick(f'{name}.initial', [[0], [0, 1]])]
    p = f'at_{name}'
    return c04.Model(
        owner, kind, [p], types, must, init, {s: set(), t: {p}},
        edges, statevar)


def small_model(ctx, owner, name, statevar):
    kind = [0, 1] if owner == 'sys' else ['s', 'r']
    s, t = kind
    edges, first = ctx.pick(f'{name}.shape', [
        ([(s, t, {}), (t, s, {})], [0]),
        ([(s, t, {}), (t, s, {}), (s, s, {})], [0, 1]),
        ([(s, t, {}), (t, t, {}), (s, s, {})], [0]),
        ([(s, t, {}), (t, s, {}), (t, t, {}), (s, s, {})], [1])])
    p = f'at_{name}'
    return c04.Model(
        owner, kind, [p], dict(env_actions=[], sys_actions=[]),
        dict(sys='xor', env='xor'), [kind[i] for i in first],
        {s: set(), t: {p}}, edges, statevar)


def model_parts(m, ignore):
    """Parts of a GR(1) specification, for a transition system."""
    a, b = ('sys', 'env') if m.owner == 'sys' else ('env', 'sys')
    parts = {f'{x}_{y}': list() for x in ('env', 'sys')
             for y in ('init', 'safety', 'prog')}
    if not ignore:
        parts[f'{a}_init'].append(ltl.disj(map(m.at, m.initial)))
    # state constraints hold initially and after each step
    parts[f'{a}_init'].append(m.state_always())
    parts[f'{a}_safety'] += [
        ('X', m.state_always()), m.moves()]
    sel = {p: m.selection(p) for p in ('env', 'sys')}
    for p in ('env', 'sys'):
        parts[f'{p}_init'].append(sel[p])
        parts[f'{p}_safety'].append(('X', sel[p]))
    if m.owner == 'sys' and m.has('env'):
        parts['env_safety'].append(m.env_may())
    return parts


def model_vars(m):
    r = dict(env=dict(), sys=dict())
    mine = r[m.owner]
    for p in m.aps:
        mine[p] = 'boolean'
    mine[m.statevar] = (
        (min(m.states), max(m.states)) if isinstance(m.states[0], int)
        else list(m.states))
    for t, vs in m.types.items():
        if vs:
            r[m.side(t)][t] = list(vs)
    return r


def systems(name, which, goals, modes, small=False):
    def fn(ctx):
        moore, plus_one, qinit = ctx.pick('mode', modes)
        many = which == 'many'
        ms = list()
        if which in ('sys', 'both', 'many'):
            ms.append(model(ctx, 'sys', 'm', 'door' if many else 'loc',
                            small or which != 'sys'))
        if which in ('env', 'both', 'many'):
            ms.append(model(ctx, 'env', 'n', 'lift' if many else 'eloc',
                            which != 'env'))
        # owners whose initial states are ignored
        ignore = ctx.pick('ignore', [
            (), ('env',), ('sys',), None][:4 if many else 3])
        names = None if ignore is None else {
            m.statevar for m in ms if m.owner in ignore}
        ignore = ignore or ()
        text = {k: list(v) for k, v in ctx.pick('spec', goals).items()}
        env, sys_ = dict(), dict()
        env['u'] = 'boolean'
        sys_['v'] = 'boolean'
        parts = {f'{x}_{y}': [P(c) for c in text.get(f'{x}_{y}', [])]
                 for x in ('env', 'sys')
                 for y in ('init', 'safety', 'prog')}
        for m in ms:
            r = model_vars(m)
            env.update(r['env'])
            sys_.update(r['sys'])
            for k, v in model_parts(m, m.owner in ignore).items():
                parts[k] += v
        if qinit == r'\A \A':
            # initial values of all variables are given
            parts['env_init'] += parts['sys_init']
            parts['sys_init'] = list()
        game = Game(env, sys_, parts, moore, plus_one, qinit)
        ctx.note(text=text, models=[
            (m.owner, m.states, m.edges, m.initial) for m in ms],
            mode=(moore, plus_one, qinit), ignore=ignore)
        ctx.assume(any(game.init('env_init', s) for s in game.states))

        def make():
            s = tspec.GRSpec(
                env_vars=dict(u='boolean'), sys_vars=dict(v='boolean'),
                **{k: list(v) for k, v in text.items()})
            s.moore, s.plus_one, s.qinit = moore, plus_one, qinit
            return s

        def run(f, **kw):
            s = make()
            ts = {m.owner: m.build() for m in ms}
            if many:
                return quiet(
                    synth.synthesize_many, s,
                    {m.statevar: m.build() for m in ms}, names,
                    solver='omega')
            opts = dict(
                env=ts.get('env'), sys=ts.get('sys'),
                ignore_env_init='env' in ignore,
                ignore_sys_init='sys' in ignore,
                solver='omega')
            if f == 'synthesize':
                opts['rm_deadends'] = kw['rm_deadends']
            return quiet(getattr(synth, f), s, **opts)
        real = ctx.sat(*game.realizable()) is not None
        if not many:
            verdict = run('is_realizable')
            ctx.check(
                bool(verdict) == real, 'realizability with systems' + (
                    ' (accepts)' if not real else ' (rejects)'))
        m = run('synthesize', rm_deadends=False)
        ctx.check((m is not None) == real, 'controller with systems')
        if not real:
            ctx.label('unrealizable')
            return
        if m is None:
            return
        c = Controller(ctx, m, game, False)
        verify(ctx, c, many)
        ctx.label('controller')
    return symx.Harness(
        name, fn, ['controller', 'unrealizable'], opaque_repr='all')


SYS_GOALS = [
    dict(sys_prog=['at_m', 'v']),
    dict(env_prog=['u'], sys_prog=['!at_m'], sys_safety=["X u -> X !at_m"]),
    dict(env_init=['u'], sys_init=['!at_m'], sys_safety=['v <-> at_m'])]
ENV_GOALS = [
    dict(sys_prog=['v & at_n']),
    dict(env_prog=['at_n', '!at_n'], sys_prog=['at_n & v', '!at_n']),
    dict(env_prog=['!at_n'], sys_safety=["(X v) <-> at_n"],
         sys_prog=['!v'])]
BOTH_GOALS = [
    dict(sys_safety=["(X at_n) -> (X at_m)"]),
    dict(env_prog=['at_n'], sys_prog=['at_m & at_n'])]

AE = r'\A \E'
BOUNDS = dict(
    quick='one or two variables for each player, Boolean, integer (up to '
    '3 values, also not from 0), string; 2-6 alternatives for each of the '
    'six parts of a specification; Moore and Mealy, both forms of '
    'implication, four quantifications of initial values; transition '
    'systems with 2 states for each player; solvers omega, gr1py; '
    'controllers of any size, and infinite behaviors of any length',
    thorough='as quick, with every combination of clauses for each kind '
    'of variables and mode')
OUTSIDE = (
    'Other clauses and larger domains; the solvers gr1c and slugs (not '
    'installed); assumptions on initial values that are unsatisfiable; '
    'with gr1py also assumptions that can block the environment; '
    'assumptions about next values of the system; controllers for '
    'plus_one specifications whose assumptions can block the environment '
    '(the package omega fails then).')
ASSUMPTIONS = [
    'the fixpoint computations inside of the packages omega, dd, gr1py are '
    'run, not encoded: only what tulip gives them and what it returns is '
    'judged',
    'a controller whose memory is the current goal exists if any does']
EXPLANATION = (
    'The parts of a specification, variable domains and options are '
    'symbolic choices; real synthesis runs on each. Realizability is '
    'decided by z3 as existence of a strategy with rank functions over '
    'the reference semantics of the formulas (own parser), and the '
    'returned machine is verified: initial reactions, absence of '
    'blocking, safety of each step, and existence (z3) of rank functions '
    'that show that every fair infinite behavior meets every goal.')


def harnesses(tier):
    quick = tier == 'quick'

    def menu(**kw):
        return {k: kw.get(k, [0]) if quick else
                list(range(len(v))) for k, v in CLAUSES.items()}
    mealy = [(False, False, AE), (False, True, AE)]
    moore = [(True, True, AE), (True, False, AE)]
    inits = [(False, False, q) for q in QINIT[1:]] + [
        (False, True, q) for q in QINIT[1:]]
    return [
        specs('mealy', ['bool'], menu(
            env_safety=[0, 1, 2, 3], env_prog=[0, 1], sys_init=[2],
            sys_safety=[0, 1, 2, 3, 4, 5], sys_prog=[0, 2, 3, 4]),
            mealy, ['omega']),
        specs('moore', ['bool'], menu(
            env_safety=[0, 1, 2], env_prog=[0, 2],
            sys_safety=[0, 2, 3, 4], sys_prog=[1, 2, 3, 4]),
            moore, ['omega'], trim=False),
        specs('initial', ['bool'], menu(
            env_init=[0, 1], env_safety=[0, 1], sys_init=[0, 1, 2],
            sys_safety=[0, 1, 3], sys_prog=[2, 3]),
            inits + mealy[:1], ['omega'], trim=False),
        specs('domains', ['int', 'low', 'neg', 'str', 'two'], menu(
            env_safety=[0, 1, 4], env_prog=[0, 1], sys_init=[1],
            sys_safety=[0, 1, 3], sys_prog=[2, 3]),
            mealy[:1] + moore[1:], ['omega'], trim=False),
        specs('gr1py', ['bool', 'int', 'low', 'str', 'two'], menu(
            env_init=[0, 1], env_safety=[0, 1, 2], env_prog=[0, 2],
            sys_init=[0, 2], sys_safety=[0, 1, 3, 5],
            sys_prog=[0, 2, 3]),
            mealy[:1], ['gr1py']),
        systems('system', 'sys', SYS_GOALS, mealy[:1]),
        systems('environment', 'env', ENV_GOALS, mealy[:1]),
        systems('both', 'both', BOTH_GOALS, mealy[:1]),
        systems('both modes', 'both', BOTH_GOALS,
                [moore[0], inits[0], inits[-1]] if quick else moore + [
                    (a, b, q) for a, b, q in inits if q != r'\E \E']),
        systems('system modes', 'sys', SYS_GOALS[:2], moore + inits,
                small=quick),
        systems('many', 'many', BOTH_GOALS, mealy[:1])]
