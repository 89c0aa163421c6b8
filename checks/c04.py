"""C04: a transition system converted to a specification."""
import itertools

import ltl
import symx
import z3
from ltl import var, num, conj, disj

import tulip.synth as synth
from tulip import transys


def eq(name, value):
    if isinstance(value, int):
        return ('=', var(name), num(value))
    return ('=', var(name), ('str', value))


def exactly(atoms):
    return disj(conj([a] + [('!', b) for b in atoms if b is not a])
                for a in atoms)


def at_most(atoms):
    return conj(('!', ('&', a, b))
                for a, b in itertools.combinations(atoms, 2))


class Model:
    """Reference description of a transition system."""

    def __init__(self, owner, states, aps, types, must, initial, label,
                 edges, statevar, bool_states=False, bool_actions=False):
        self.owner = owner
        self.states = states
        self.aps = aps
        # action type -> values
        self.types = types
        # 'sys', 'env' -> 'xor', 'mutex', None
        self.must = must
        self.initial = initial
        self.label = label
        # triples (source, target, {type: value})
        self.edges = edges
        self.statevar = statevar
        self.bool_states = bool_states
        self.bool_actions = bool_actions

    def build(self):
        def ports(side):
            r = [
                dict(name=t, values=transys.MathSet(vs)
                     if hasattr(transys, 'MathSet') else set(vs),
                     setter=True)
                for t, vs in self.types.items() if side in t]
            return r
        ts = transys.FTS(ports('env'), ports('sys'))
        ts.owner = self.owner
        ts.sys_actions_must = self.must['sys']
        ts.env_actions_must = self.must['env']
        ts.states.add_from(self.states)
        ts.atomic_propositions.add_from(self.aps)
        for s in self.states:
            ts.states[s]['ap'] = set(self.label[s])
        ts.states.initial.add_from(self.initial)
        for u, v, lab in self.edges:
            ts.transitions.add(u, v, **lab)
        return ts

    def side(self, t):
        return 'sys' if 'sys' in t else 'env'

    def is_bool(self, t):
        return self.bool_actions or self.must[self.side(t)] is None

    def at(self, s):
        return var(s) if self.bool_states else eq(self.statevar, s)

    def act(self, t, v):
        return var(v) if self.is_bool(t) else eq(t, v)

    def acts(self, lab):
        return conj(self.act(t, v) for t, v in lab.items())

    def edge(self, e, prime_side):
        u, v, lab = e
        now = {t: a for t, a in lab.items() if self.side(t) not in prime_side}
        nxt = {t: a for t, a in lab.items() if self.side(t) in prime_side}
        return conj([
            ('X', self.at(v)), ('X', self.acts(nxt)), self.acts(now)])

    def selection(self, side):
        """Always-constraint on which actions are selected."""
        r = list()
        for t, vs in self.types.items():
            if self.side(t) != side or not vs:
                continue
            must = self.must[side]
            atoms = [self.act(t, v) for v in vs]
            if must == 'xor':
                r.append(exactly(atoms))
            elif must == 'mutex' and self.is_bool(t):
                r.append(at_most(atoms))
        return conj(r)

    def state_always(self):
        r = [exactly([self.at(s) for s in self.states])]
        for s in self.states:
            r.append(('->', self.at(s), conj(
                var(p) if p in self.label[s] else ('!', var(p))
                for p in self.aps)))
        return conj(r)

    def moves(self):
        """Always-constraint on pairs of successive valuations."""
        r = list()
        prime = ('env', 'sys') if self.owner == 'sys' else ('env',)
        for s in self.states:
            out = [e for e in self.edges if e[0] == s]
            opts = [self.edge(e, prime) for e in out]
            if self.owner == 'env' and out and self.has('sys') and not any(
                    not any(self.side(t) == 'sys' for t in lab)
                    for _, _, lab in out):
                # the system cannot block the environment by
                # selecting none of its actions
                for t, vs in self.types.items():
                    if self.side(t) == 'sys':
                        opts.append(conj(
                            ('!', self.act(t, v)) for v in vs))
            r.append(('->', self.at(s), disj(opts)))
        return conj(r)

    def has(self, side):
        return any(vs for t, vs in self.types.items() if self.side(t) == side)

    def env_may(self):
        """Environment actions for which the system has a transition."""
        r = list()
        for s in self.states:
            out = [e for e in self.edges if e[0] == s]
            combs = [
                {t: a for t, a in lab.items() if self.side(t) == 'env'}
                for _, _, lab in out]
            if not combs or not all(combs):
                continue
            r.append(('->', self.at(s), ('X', disj(map(self.acts, combs)))))
        return conj(r)

    def formulas(self, ignore_initial):
        """(assumption, guarantee)"""
        init = ('bool', True) if ignore_initial else disj(
            map(self.at, self.initial))
        ts = conj([init, ('G', self.state_always()), ('G', self.moves()),
                   ('G', self.selection(self.owner))])
        if self.owner == 'sys':
            other = conj([
                ('G', self.selection('env')),
                ('G', self.env_may()) if self.has('env')
                else ('bool', True)])
            return other, ts
        return ts, ('G', self.selection('sys'))

    def check_vars(self, ctx, spec):
        mine = dict(spec.sys_vars if self.owner == 'sys' else spec.env_vars)
        other = dict(spec.env_vars if self.owner == 'sys' else spec.sys_vars)
        for p in self.aps:
            ctx.check(mine.pop(p, None) == 'boolean', f'variable {p}')
        if self.bool_states:
            for s in self.states:
                ctx.check(mine.pop(s, None) == 'boolean', f'variable {s}')
        else:
            d = mine.pop(self.statevar, None)
            if isinstance(self.states[0], int):
                ctx.check(
                    isinstance(d, tuple) and len(d) == 2 and
                    all(d[0] <= s <= d[1] for s in self.states),
                    f'domain {d} of state variable')
            else:
                ctx.check(
                    isinstance(d, list) and len(d) == len(self.states) and
                    set(d) == set(self.states),
                    f'domain {d} of state variable')
        for t, vs in self.types.items():
            d = mine if self.side(t) == self.owner else other
            if self.is_bool(t):
                for v in vs:
                    ctx.check(d.pop(v, None) == 'boolean', f'variable {v}')
                continue
            if not vs:
                continue
            dom = d.pop(t, None)
            must = self.must[self.side(t)]
            if isinstance(vs[0], int):
                ctx.check(
                    isinstance(dom, tuple) and
                    all(dom[0] <= v <= dom[1] for v in vs) and
                    (must == 'xor' or
                     dom[1] - dom[0] + 1 > len(vs)),
                    f'domain {dom} of {t}')
            else:
                ctx.check(
                    isinstance(dom, list) and set(vs) <= set(dom) and
                    len(dom) == len(set(dom)) == len(vs) + (must != 'xor'),
                    f'domain {dom} of {t}')
        ctx.check(not mine and not other,
                  f'undocumented variables {mine} {other}')


def compare(ctx, model, spec, ignore_initial, k):
    model.check_vars(ctx, spec)
    a, g = model.formulas(ignore_initial)
    doms = {**spec.env_vars, **spec.sys_vars}
    w = ltl.Lasso(k, doms)
    for c in w.consts:
        ctx.free(c)
    for c in w.constraints:
        ctx.assume(c)
    p = ltl.TULIP.parse

    def part(init, safety, prog):
        ctx.check(not prog, 'unexpected liveness')
        return conj(list(map(p, init)) +
                    [('G', p(x)) for x in safety])
    sa = part(spec.env_init, spec.env_safety, spec.env_prog)
    sg = part(spec.sys_init, spec.sys_safety, spec.sys_prog)
    ctx.note(edges=model.edges, initial=model.initial, label=model.label,
             must=model.must, types=model.types, spec=str(spec))
    # the reference without behaviors would make this vacuous
    ctx.label('compared')
    if model.owner == 'sys':
        ctx.check(
            w.holds(sa) == w.holds(a),
            'assumption differs from what the transition system requires '
            'of its environment')
        ctx.check(
            w.holds(sg) == w.holds(g),
            'guarantee differs from the executions of the transition system')
    else:
        ctx.check(
            w.holds(sa) == w.holds(a),
            'assumption differs from the executions of the environment '
            'transition system')
        ctx.check(
            w.holds(sg) == w.holds(g),
            'guarantee differs from the constraint on system actions')
    if model.initial and any(u == v for u, v, _ in model.edges):
        ctx.label('has execution')


def convert(model, ignore, ts=None):
    ts = model.build() if ts is None else ts
    f = synth.sys_to_spec if model.owner == 'sys' else synth.env_to_spec
    kw = dict()
    if model.bool_states:
        kw['bool_states'] = True
    if model.bool_actions:
        kw['bool_actions'] = True
    return f(ts, ignore, model.statevar, **kw)


STR = ['s', 's1', 'end']
INTS = [[0, 1, 2], [3, 4, 5], [0, 2, 7], [-1, 0, 1], [1, 10, 2]]


def structure(owner, kind, bools, k):
    """Symbolic transitions among 3 states, no actions."""
    def fn(ctx):
        states = STR if kind == 'str' else ctx.pick('ints', INTS)
        n = 3
        edges = [
            (states[i], states[j], dict()) for i in range(n)
            for j in range(n)
            # fixed for some pairs, to bound the number of systems
            if (i, j) not in ((1, 1), (2, 0)) and ctx.flag(f'e{i}{j}')]
        edges.append((states[2], states[0], dict()))
        m = Model(
            owner, states, ['p'], dict(env_actions=[], sys_actions=[]),
            dict(sys='xor', env='xor'), [states[0]],
            {states[0]: {'p'}, states[1]: set(), states[2]: {'p'}},
            edges, 'loc', bool_states=bools)
        spec = convert(m, False)
        compare(ctx, m, spec, False, k)
    return symx.Harness(
        f'structure-{owner}-{kind}{"-bool" * bools}', fn,
        ['compared', 'has execution'])


def labels(owner, kind, bools, k):
    """Symbolic initial states, state labels, options."""
    def fn(ctx):
        n = 3 if not bools else 2
        states = (STR if kind == 'str' else ctx.pick('ints', INTS[2:4]))[:n]
        aps = ctx.pick('aps', [['p', 'pq'], ['p'], []])
        lab = {s: set(ctx.subset(f'lab{i}', aps[:2 if i < 2 else 1]))
               for i, s in enumerate(states)}
        ignore = ctx.flag('ignore')
        initial = ctx.subset('init', states)
        if not ignore and not initial:
            return
        edges = [(states[0], states[1], {}), (states[1], states[-1], {}),
                 (states[-1], states[0], {}), (states[0], states[0], {})]
        if n == 2:
            edges.pop(2)
        m = Model(
            owner, states, aps, dict(env_actions=[], sys_actions=[]),
            dict(sys='xor', env='xor'), initial, lab, edges, 'x',
            bool_states=bools)
        spec = convert(m, ignore)
        compare(ctx, m, spec, ignore, k)
    return symx.Harness(
        f'labels-{owner}-{kind}{"-bool" * bools}', fn,
        ['compared', 'has execution'])


def actions(owner, kind, k):
    """Symbolic edge labels, and constraints on actions."""
    def fn(ctx):
        states = ['s', 't']
        must = dict(
            sys=ctx.pick('sysmust', ['xor', 'mutex', None]),
            env=ctx.pick('envmust', ['xor', 'mutex', None]))
        bool_actions = ctx.flag('boolactions') if kind == 'str' else False
        if kind == 'str':
            types = dict(env_actions=['e', 'e2'], sys_actions=['a', 'ab'])
        else:
            ctx.assume(must['sys'] is not None and must['env'] is not None)
            vs = ctx.pick('values', [[0, 1], [2, 5], [-2, -1]])
            types = dict(env_actions=vs, sys_actions=vs)
        e, a = types['env_actions'], types['sys_actions']
        labs = [dict(env_actions=e[i], sys_actions=a[j])
                for i in range(2) for j in range(2)]
        labs += [dict(env_actions=e[0]), dict(sys_actions=a[1]), dict()]
        edges = [('s', 't', ctx.pick('l0', labs)),
                 ('t', 's', labs[2])]
        which = ctx.pick('second', ['none', 's-s', 's-t'])
        if which != 'none':
            lab = ctx.pick('l1', labs)
            if which == 's-t' and (lab == edges[0][2] or not edges[0][2]
                                   or not lab):
                return
            edges.append(('s', which[-1], lab))
        m = Model(
            owner, states, ['p'], types, must, ['s'],
            {'s': {'p'}, 't': set()}, edges, 'loc',
            bool_actions=bool_actions)
        spec = convert(m, False)
        compare(ctx, m, spec, False, k)
    return symx.Harness(f'actions-{owner}-{kind}', fn, ['compared'])


def several(owner, k):
    """Several types of actions for a player; one value in a type."""
    def fn(ctx):
        states = ['s', 't']
        must = dict(
            sys=ctx.pick('sysmust', ['xor', 'mutex']),
            env=ctx.pick('envmust', ['xor', 'mutex']))
        bool_actions = ctx.flag('bool')
        types = dict(
            env_actions=['e', 'f'], env_weather=['sun', 'rain'],
            sys_actions=['a', 'b'], sys_alarm=['on'])

        def lab(name, full):
            r = dict()
            for t, vs in types.items():
                opts = [None] + vs[:1 + full]
                v = ctx.pick(f'{name}.{t}', opts)
                if v is not None:
                    r[t] = v
            return r
        edges = [('s', 't', lab('l0', False)),
                 ('s', 's', dict(env_weather='rain', sys_actions='b')),
                 ('t', 's', lab('l1', False) if ctx.flag('more') else dict(
                     env_actions='f', sys_alarm='on'))]
        m = Model(
            owner, states, ['p'], types, must, ['s'],
            {'s': {'p'}, 't': set()}, edges, 'loc',
            bool_actions=bool_actions)
        spec = convert(m, False)
        compare(ctx, m, spec, False, k)
    return symx.Harness(f'several-{owner}', fn, ['compared'])


def dependent(k):
    """Propositions as formulas over the state variable."""
    def fn(ctx):
        states = ctx.pick('states', [STR, INTS[3], INTS[4]])
        aps = ['p', 'pq']
        lab = {s: set(ctx.subset(f'lab{i}', aps))
               for i, s in enumerate(states)}
        m = Model(
            'sys', states, aps, dict(env_actions=[], sys_actions=[]),
            dict(sys='xor', env='xor'), [states[0]], lab,
            [(states[0], states[0], {})], 'x')
        table = synth.build_dependent_var_table(m.build(), 'x')
        ctx.check(set(table) == set(aps), 'table of propositions')
        dom = states if isinstance(states[0], str) else (
            min(states), max(states))
        w = ltl.Lasso(1, {'x': dom})
        for c in w.consts:
            ctx.free(c)
        for c in w.constraints:
            ctx.assume(c)
        ctx.assume(w.holds(disj(map(m.at, states))))
        ctx.note(table=table, label=lab)
        for p in aps:
            ctx.check(
                w.holds(ltl.TULIP.parse(table[p])) == w.holds(
                    disj(m.at(s) for s in states if p in lab[s])),
                'formula for a proposition differs from its labeling')
        ctx.label('table')
    return symx.Harness('dependent', fn, ['table'])


def harnesses(tier):
    k = 3 if tier == 'quick' else 4
    hs = [dependent(k)]
    for owner in ('sys', 'env'):
        hs += [
            structure(owner, 'str', False, k),
            structure(owner, 'int', False, k),
            structure(owner, 'str', True, k),
            labels(owner, 'str', False, k),
            labels(owner, 'int', False, k),
            labels(owner, 'str', True, k),
            actions(owner, 'str', k), actions(owner, 'int', k),
            several(owner, k)]
    return hs


BOUNDS = {
    'quick': 'transition systems with 3 states (any transitions), 2 '
             'propositions; 2 states with up to 3 labeled transitions, 2 '
             'values per action type, up to 2 action types per player; '
             'lassos with 3 positions',
    'thorough': 'as quick, lassos with 4 positions'}
OUTSIDE = 'larger systems; `previous` edge attributes; behaviors that end'
ASSUMPTIONS = [
    'resulting formulas are read by the independent parser lib/ltl.py',
    'an environment transition system whose transitions are all '
    'conditioned on system actions leaves the environment '
    'unconstrained when the system selects none (as the code documents)']
EXPLANATION = (
    'The real conversion runs on symbolically chosen transition systems; '
    'z3 decides over all lassos that assumption and guarantee equal the '
    'reference semantics of the transition system.')
