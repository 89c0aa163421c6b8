"""C15: minimum-violation plans."""
import itertools

import symx
import z3

from c09 import andz, orz, lit
from c14 import lex_lt, same, real

from tulip import mvp
from tulip import transys
from tulip.spec import prioritized_safety as prio
from tulip.transys import automata
from tulip.transys import cost as tcost

AP = ['p', 'q', 'g']
E, P, Q, PQ, G = (), ('p',), ('q',), ('p', 'q'), ('g',)
GP, GQ = ('g', 'p'), ('g', 'q')
# states, initial, accepting, transitions
RULES = {
    # never p
    'never': (['q0'], ['q0'], ['q0'], [
        ('q0', 'q0', E), ('q0', 'q0', Q), ('q0', 'q0', G),
        ('q0', 'q0', GQ)]),
    # names that contain each other
    'alternate': (['a', 'ab'], ['a'], ['a', 'ab'], [
        ('a', 'ab', E), ('a', 'ab', P), ('ab', 'a', Q), ('ab', 'a', G),
        ('ab', 'ab', PQ), ('a', 'a', GP)]),
    # some states do not accept, nondeterministic, integer names
    'accept': ([0, 1, 10], [0, 10], [1], [
        (0, 0, E), (0, 1, P), (0, 1, E), (1, 0, Q), (1, 1, G),
        (10, 1, Q), (1, 10, GP), (10, 10, P)]),
    'nothing': (['x'], ['x'], ['x'], []),
    'dead end': (['s', 't'], ['s'], ['t'], [
        ('s', 't', E), ('s', 's', P), ('s', 't', G)]),
}
# (rule, priority, level)
SPECS = [
    [('never', 1, 0)],
    [('never', 3, 0), ('alternate', 2, 0)],
    [('never', 2, 1), ('accept', 1, 0)],
    [('alternate', 2, 0), ('never', 1, 0), ('nothing', 4, 0)],
    [('alternate', 1, 2), ('never', 5, 0)],
    [('dead end', 2, 0), ('accept', 3, 1)],
    [('nothing', 1, 1), ('dead end', 1, 0)],
    [('never', 1, 0), ('never', 2, 1), ('alternate', 3, 1)],
]
# names, initial, edges
SYSTEMS = [
    (['u', 'v', 'w'], ['u'],
     [('u', 'v'), ('u', 'w'), ('v', 'w'), ('w', 'v'), ('v', 'v')]),
    (['null', 'nul', 'null0'], ['null', 'null0'],
     [('null', 'nul'), ('null0', 'nul'), ('nul', 'null0'), ('nul', 'nul')]),
    ([0, 1, 2, 3], [2],
     [(2, 0), (2, 1), (0, 3), (1, 3), (2, 3), (0, 0)]),
    ([('c', 1), 'c', 1], ['c'],
     [('c', ('c', 1)), (('c', 1), 'c'), ('c', 'c'), (('c', 1), 1)]),
]
# labels of the states, in order
LABELS = [
    [E, P, G, Q],
    [P, Q, GP, E],
    [Q, PQ, GQ, P],
    [E, GP, G, PQ],
    [G, E, P, Q],
    [P, PQ, G, P],
    [E, E, E, E],
]


def make_system(ctx, system, labels, free):
    names, initial, edges = system
    ks = transys.WeightedKripkeStructure()
    ks.states.add_from(names)
    ks.states.initial.add_from(initial)
    ks.atomic_propositions.add_from(AP)
    label = dict()
    for s, ap in zip(names, labels):
        label[s] = frozenset(ap)
        ks.states[s]['ap'] = set(ap)
    out = list()
    for i, (a, b) in enumerate(edges):
        if i not in free:
            c = i % 3
            if c == 0 and i % 2:
                # no cost given
                ks.transitions.add(a, b)
            else:
                ks.transitions.add(a, b, {'cost': c})
        else:
            c = ctx.real(f'cost{i}', 0)
            ks.transitions.add(a, b, {'cost': c})
        out.append((a, b, real(c)))
    return ks, out, label


def make_spec(rules):
    spec = prio.PrioritizedSpecification()
    for name, priority, level in rules:
        states, initial, accepting, edges = RULES[name]
        fa = automata.FiniteStateAutomaton()
        fa.states.add_from(states)
        fa.states.initial.add_from(initial)
        fa.accepting.add_from(accepting)
        fa.atomic_propositions.add_from(AP)
        for a, b, letter in edges:
            fa.transitions.add(a, b, letter=letter)
        spec.add_rule(fa, priority=priority, level=level)
    # rules are ordered by level
    order = sorted(rules, key=lambda r: r[2])
    return spec, order


class Product:
    """Reference semantics: runs of system and rule automata."""

    def __init__(self, system, edges, label, rules):
        self.label = label
        self.rules = rules
        self.levels = 1 + max(r[2] for r in rules)
        self.initial = system[1]
        self.edges = edges
        autos = [RULES[r[0]] for r in rules]
        self.qs = list(itertools.product(*[a[0] for a in autos]))
        self.q_initial = list(itertools.product(*[a[1] for a in autos]))
        self.q_accepting = set(itertools.product(*[a[2] for a in autos]))
        self.delta = [
            {(a, b, frozenset(l)) for a, b, l in x[3]} for x in autos]

    def violation(self, q, r, ap):
        v = [0] * self.levels
        for d, a, b, (_, priority, level) in zip(
                self.delta, q, r, self.rules):
            if (a, b, ap) not in d:
                v[level] += priority
        return tuple(v)

    def step(self, node):
        """Successors, with violation and cost."""
        s, q = node
        if s is None:
            moves = [(i, z3.RealVal(0)) for i in self.initial]
        else:
            moves = [(b, c) for a, b, c in self.edges if a == s]
        for b, c in moves:
            for r in self.qs:
                yield (b, r), self.violation(q, r, self.label[b]), c

    def accepts(self, node):
        return (
            node[0] is not None and 'g' in self.label[node[0]] and
            node[1] in self.q_accepting)

    def least_violation(self):
        """Smallest violation of each product state (Bellman-Ford)."""
        zero = (0,) * self.levels
        dist = {(None, q): zero for q in self.q_initial}
        change = True
        while change:
            change = False
            for node in list(dist):
                for m, v, _ in self.step(node):
                    w = tuple(a + b for a, b in zip(dist[node], v))
                    if m not in dist or w < dist[m]:
                        dist[m] = w
                        change = True
        best = min(
            (v for node, v in dist.items() if self.accepts(node)),
            default=None)
        return dist, best

    def costs(self):
        """Least violation, cost of each path that incurs only that.

        The path is of system states, together with the set of
        rule states that it reaches with least violation.
        A visit of a state that adds no rule state is useless.
        """
        dist, best = self.least_violation()
        out = list()
        if best is None:
            return None, out
        todo = [(None, frozenset(self.q_initial), dict(), z3.RealVal(0))]
        while todo:
            s, qs, seen, cost = todo.pop()
            if any(self.accepts((s, q)) and dist[s, q] == best
                   for q in qs):
                out.append(cost)
            moves = dict()
            for q in qs:
                for k, ((t, r), v, c) in enumerate(self.step((s, q))):
                    w = tuple(a + b for a, b in zip(dist[s, q], v))
                    if w == dist[t, r] and w <= best:
                        moves.setdefault(
                            (t, k // len(self.qs)), (c, set()))[1].add(r)
            for (t, _), (c, rs) in moves.items():
                if rs <= seen.get(t, frozenset()):
                    continue
                new = dict(seen)
                new[t] = new.get(t, frozenset()) | rs
                todo.append((t, frozenset(rs), new, cost + c))
        return best, out

    def levels_of(self, states):
        """Smallest violation along a sequence of system states."""
        cur = {q: (0,) * self.levels for q in self.q_initial}
        for s in states:
            new = dict()
            for q, vio in cur.items():
                for r in self.qs:
                    v = tuple(a + b for a, b in zip(
                        vio, self.violation(q, r, self.label[s])))
                    if r not in new or v < new[r]:
                        new[r] = v
            cur = new
        return min(
            (v for q, v in cur.items() if q in self.q_accepting),
            default=None)


def plan(pairs, labels, free):
    def fn(ctx):
        i, j = ctx.pick('system, specification', pairs)
        system = SYSTEMS[i]
        lab = LABELS[ctx.pick('labels', labels)]
        rules = SPECS[j]
        ks, edges, label = make_system(ctx, system, lab, free)
        spec, order = make_spec(rules)
        cost, path, product_path, wpa = mvp.solve(ks, 'g', spec)
        ref = Product(system, edges, label, order)
        ctx.note(system=i, spec=j, path=[str(s) for s in path])
        best, others = ref.costs()
        if best is None:
            ctx.check(path == [] and product_path == [],
                      'plan reported though the goal is unreachable')
            ctx.check(cost == float('inf'), 'cost of an absent plan')
            ctx.label('unreachable')
            return
        ctx.check(bool(path), 'no plan though the goal is reachable')
        ctx.check(path[0] in system[1], 'plan starts in an initial state')
        ctx.check('g' in label[path[-1]], 'plan ends in a goal')
        pairs_ = list(zip(path, path[1:]))
        steps = [[c for a, b, c in edges if (a, b) == e] for e in pairs_]
        ctx.check(all(steps), 'plan follows transitions')
        ctx.check(len(cost) == ref.levels + 1, 'length of cost')
        got = [real(x) for x in cost]
        vio = ref.levels_of(path)
        ctx.check(vio is not None, 'rules accept')
        # the automata stop when first accepting at a goal
        ctx.check(
            same(got[:-1], [z3.RealVal(v) for v in vio]),
            'reported violation is incurred')
        ctx.check(
            got[-1] == sum((c[0] for c in steps), z3.RealVal(0)),
            'reported cost is that of the plan')
        ctx.check(
            [s for s, _ in product_path[1:]] == path and
            product_path[0][0] not in ks.states,
            'product path projects to the plan')
        v, t = (0,) * ref.levels, z3.RealVal(0)
        ctx.check(product_path[0][1] in ref.q_initial,
                  'rules start in initial states')
        cur = (None, product_path[0][1])
        for s, q in product_path[1:]:
            hit = [x for x in ref.step(cur) if x[0] == (s, q)]
            ctx.check(len(hit) == 1, 'product path follows the product')
            v = tuple(a + b for a, b in zip(v, hit[0][1]))
            cur = (s, q)
        ctx.check(cur[1] in ref.q_accepting, 'product path accepts')
        ctx.check(v == tuple(vio), 'violation along the product path')
        ctx.check(v == best, 'a plan with smaller violation exists')
        for c in others:
            ctx.check(got[-1] <= c, 'a cheaper plan exists')
        ctx.label('planned')
        if any(vio):
            ctx.label('violates rules')
    return symx.Harness(
        'plan', fn, ['planned', 'violates rules', 'unreachable'],
        opaque_repr='all')


def harnesses(tier):
    t = tier == 'thorough'
    all_pairs = [
        (i, j) for i in range(len(SYSTEMS)) for j in range(len(SPECS))]
    return [plan(all_pairs, range(len(LABELS)),
                 range(6) if t else [0, 1, 2, 3])]


BOUNDS = {
    'quick': '4 systems of 3 or 4 states with up to 6 transitions, 7 '
             'labelings, 8 specifications of up to 3 rules; arbitrary '
             'nonnegative real costs of 4 transitions',
    'thorough': 'as quick, 7 labelings, arbitrary costs of all transitions'}
OUTSIDE = 'larger systems; real-valued priorities'
ASSUMPTIONS = [
    'a rule is violated at a step when its automaton has no transition '
    'labeled with the propositions of the next state; the automaton may '
    'then continue from any state (docs of tulip.mvp)',
    'a plan ends when the goal is first reached with accepting rules']
EXPLANATION = (
    'The real planner runs on systems with symbolic transition costs; its '
    'answer is compared by the solver with every simple run of the product '
    'of system and rules.')
