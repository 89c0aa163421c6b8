"""C11: abstraction by bisimulation and dual simulation."""
import itertools

import symx
import z3

from tulip import transys
from tulip.transys import transys as ts_mod

NAMES = [['s0', 's1', 's2', 's3'], [0, 'a', ('a', 0), 7]]
# sets with the same elements may print differently
LABELS = [
    [set(), set(), set(), set()],
    [{0}, {0}, {0}, set()],
    [[0, 8], [8, 0], [8, 0], [0]],
    [[8, 0], [0], [0, 8], [8]],
    [{'p'}, {'p', 'q'}, {'p'}, {'p'}],
    [{'p'}, {'q'}, {'p', 'q'}, set()]]


def build(ctx, n, degree, labels, names, actions):
    """Transition system whose edges are symbolic."""
    if actions == 'typed':
        ts = transys.FTS(
            env_actions=[dict(name='env_move', values={'l', 'r'})],
            sys_actions=[dict(name='sys_move', values={'u'})])
        ds = [dict(env_move='l', sys_move='u'),
              dict(env_move='r', sys_move='u')]
    else:
        ts = transys.FTS()
        ds = [dict()]
    if actions == 'default':
        ts.env_actions.add_from(['e', 'f'])
        ts.sys_actions.add_from(['go', 'stop'])
        ds = [dict(env_actions='e', sys_actions='go'),
              dict(env_actions='f', sys_actions='stop')]
    ts.atomic_propositions.add_from({p for x in labels for p in x} | {'r'})
    for s, x in zip(names, labels):
        ts.states.add(s, ap=set(x))
    edges = dict()
    for i in range(n):
        for j in range(n):
            edges[i, j] = ctx.bit(f'edge{i}{j}')
    if degree < n:
        for i in range(n):
            if ctx.replaying:
                continue
            bits = [symx.lift(edges[i, j]) for j in range(n)]
            ctx.assume(symx.mk(z3.AtMost(*bits, degree)))
    if n == 4 and all(x == labels[0] for x in labels):
        # without loss of generality, up to renaming of states
        count = [z3.Sum([z3.If(symx.lift(edges[i, j]), 1, 0)
                         for j in range(n)]) if not ctx.replaying else 0
                 for i in range(n)]
        for i in range(n - 1):
            if not ctx.replaying:
                ctx.assume(symx.mk(count[i] >= count[i + 1]))
    for (i, j), b in edges.items():
        edges[i, j] = bool(b)
        if not edges[i, j]:
            continue
        for k, d in enumerate(ds):
            # parallel edges for some pairs of states
            if k == 0 or (i + j) % 2 == 0:
                ts.transitions.add(
                    names[i], names[j], attr_dict=dict(d))
    return ts, edges


def relation(ctx, n):
    return {(i, j): ctx.free(z3.Bool(f'R{i}{j}'))
            for i in range(n) for j in range(n)}


def simulates(n, R, edges, label, both):
    """Is `R` a (bi)simulation that respects labels?"""
    cs = list()
    for i, j in itertools.product(range(n), repeat=2):
        if label[i] != label[j]:
            cs.append(z3.Not(R[i, j]))
            continue
        succ = lambda k: [m for m in range(n) if edges[k, m]]
        body = [
            z3.Or([z3.BoolVal(False)] + [R[a, b] for b in succ(j)])
            for a in succ(i)]
        if both:
            body += [
                z3.Or([z3.BoolVal(False)] + [R[a, b] for a in succ(i)])
                for b in succ(j)]
        cs.append(z3.Implies(R[i, j], z3.And([z3.BoolVal(True)] + body)))
    return z3.And(*cs)


def abstraction(n, degree, label_sets, actions):
    def fn(ctx):
        kind = ctx.pick('kind', ['bi', 'dual'])
        which = ctx.pick('labels', label_sets)
        labels = LABELS[which][:n]
        names = NAMES[ctx.pick('names', [0, 1]) if n < 3 else which % 2][:n]
        how = ctx.pick('actions', actions)
        ts, edges = build(ctx, n, degree, labels, names, how)
        init = [i for i in range(n) if ctx.flag(f'initial{i}')] if (
            n < 3) else [[0], [1, 2], []][which % 3]
        ts.states.initial.add_from([names[i] for i in init])
        before = (
            set(ts.states), list(ts.edges(data=True)),
            [set(ts.states[s]['ap']) for s in names])
        ctx.note(kind=kind, labels=labels, edges=[
            e for e, b in edges.items() if b], initial=init, actions=how)
        ab, maps = ts_mod.simu_abstract(ts, kind)
        ctx.check(before == (
            set(ts.states), list(ts.edges(data=True)),
            [set(ts.states[s]['ap']) for s in names]),
            'given system changes')
        cells = {
            k: {names.index(s) for s in v}
            for k, v in maps['simu2ts'].items()}
        ctx.check(set(cells) == set(ab.states), 'states of abstraction')
        ctx.check(all(cells.values()), 'empty cell')
        ctx.check(set(maps['ts2simu']) == set(names), 'mapped states')
        for i, s in enumerate(names):
            c = list(maps['ts2simu'][s])
            ctx.check(len(c) == len(set(c)) and set(c) == {
                k for k, v in cells.items() if i in v},
                'maps are not inverses of each other')
        label = [frozenset(x) for x in labels]
        for k, v in cells.items():
            ctx.check(
                {label[i] for i in v} == {frozenset(ab.states[k]['ap'])},
                'label of a cell')
        # cells
        R = relation(ctx, n)
        if kind == 'bi':
            own = [next(k for k in cells if i in cells[k])
                   for i in range(n)]
            ctx.check(sum(map(len, cells.values())) == n, 'cells overlap')
            same = {(i, j): own[i] == own[j] for i, j in R}
            ctx.check(symx.mk(simulates(
                n, {k: z3.BoolVal(v) for k, v in same.items()},
                edges, label, True)), 'states of a cell are not bisimilar')
            ctx.check(symx.mk(z3.Implies(
                simulates(n, R, edges, label, True),
                z3.And(*[z3.Not(R[k]) for k, v in same.items() if not v],
                       z3.BoolVal(True)))),
                'bisimilar states in different cells')
        else:
            ctx.check(
                len({frozenset(v) for v in cells.values()}) == len(cells),
                'equal cells')
            small = [set.intersection(*[
                v for v in cells.values() if i in v]) for i in range(n)]
            ctx.check(all(s in cells.values() for s in small),
                      'no smallest cell for a state')
            above = {(i, j): j in small[i] for i, j in R}
            ctx.check(symx.mk(simulates(
                n, {k: z3.BoolVal(v) for k, v in above.items()},
                edges, label, False)),
                'state of a smallest cell does not simulate')
            ctx.check(symx.mk(z3.Implies(
                simulates(n, R, edges, label, False),
                z3.And(*[z3.Not(R[k]) for k, v in above.items() if not v],
                       z3.BoolVal(True)))),
                'simulating state outside of smallest cell')
            # only sets that arise from simulation
            ctx.check(all(
                set.union(*[small[i] for i in v]) == v
                for v in cells.values()), 'cell not closed')
        trans = {(a, b) for a, b in ab.transitions()}
        ctx.check(len(list(ab.transitions())) == len(trans),
                  'repeated transitions')
        for a, b in itertools.product(cells, repeat=2):
            ctx.check(((a, b) in trans) == all(
                any(edges[i, j] for j in cells[b]) for i in cells[a]),
                'transition of abstraction')
        ctx.check(set(ab.states.initial) == {
            k for k, v in cells.items() if v & set(init)},
            'initial states of abstraction')
        ctx.check(set(ab.atomic_propositions) == set(
            ts.atomic_propositions), 'atomic propositions')
        if len(cells) != n:
            ctx.label(f'{kind} other number of cells')
        if trans:
            ctx.label('transitions')
    return fn


BOUNDS = dict(
    quick='transition systems with 2 states (all edges, all sets of initial '
    'states), 3 states (all edges), and 4 states (at most 1 edge from each '
    'state, and at most 2 for equal labels of the states), six labelings '
    'with strings and numbers, with and without actions, parallel edges',
    thorough='as quick, with 4 states and at most 2 edges from each, for '
    'three labelings')
OUTSIDE = 'Larger systems; actions do not appear in the abstraction.'
ASSUMPTIONS = ['edges are symbolic and are decided by forking']
EXPLANATION = (
    'The abstraction is computed for all systems within bounds. The solver '
    'then decides over all relations between states that the largest '
    'bisimulation (for dual simulations: the largest simulation, in the '
    'smallest cell of each state) is that of the cells. '
    'Transitions, labels, and initial states are those that cells induce.')


def harnesses(tier):
    quick = tier == 'quick'
    want = ['transitions', 'bi other number of cells',
            'dual other number of cells']
    r = [
        symx.Harness('two', abstraction(
            2, 2, range(6), ['none', 'default', 'typed']), want),
        symx.Harness('three', abstraction(
            3, 3, range(6), ['none']), want),
        symx.Harness('functions', abstraction(
            4, 1, range(6), ['default']), want)]
    r.append(symx.Harness('four', abstraction(
        4, 2, [0] if quick else [0, 1, 3], ['none']), want))
    return r
