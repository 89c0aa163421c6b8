"""C17: labeled graphs."""
import numpy as np
import scipy.sparse as sp

import symx
import z3

from c09 import Interval, andz, orz, lit

from tulip import transys
from tulip.transys import automata
from tulip.transys import labeled_graphs as lg

NAMES = ['s1', 's10', 0, ('s1', 0)]
ABSENT = 'new'
LO, HI = 1, 6


class AtMost(Interval):
    """Labels with semantics: guard holds from the value on."""

    def __call__(self, value, desired):
        return value <= desired


def types(guard=False):
    t = AtMost if guard else Interval
    return (
        [dict(name='c', values=Interval(LO, HI), default=2),
         dict(name='d', values={'x', 'xy'})],
        [dict(name='w', values=t(LO, HI)),
         dict(name='v', values={'x', 'xy'})])


def eq(a, b):
    """Equality of label values."""
    if isinstance(a, (str, set, frozenset, tuple)) or isinstance(
            b, (str, set, frozenset, tuple)):
        return z3.BoolVal(type(a) == type(b) and a == b)
    return lit(a) == lit(b)


def same_labels(p, q):
    if set(p) != set(q):
        return z3.BoolVal(False)
    return andz(eq(p[k], q[k]) for k in p)


def edge_eq(e, f):
    return z3.And(
        z3.BoolVal(e[0] == f[0] and e[1] == f[1]),
        same_labels(e[2], f[2]))


def valid(ctx, label, edge=False):
    """Are the labels in their domains?"""
    ok = list()
    for k, v in label.items():
        if k in ('c', 'w'):
            ok.append(z3.And(lit(v) >= LO, lit(v) <= HI))
        elif k in ('d', 'v'):
            ok.append(z3.BoolVal(v in ('x', 'xy')))
    return ctx.decide(andz(ok))


class Model:
    def __init__(self, ctx):
        self.ctx = ctx
        self.nodes = dict()
        self.edges = list()
        self.initial = list()
        self.accepting = list()

    def add_node(self, n, label, check=True):
        """Return expected exceptions, or update."""
        extra = set(label) - {'c', 'd'}
        if not valid(self.ctx, label):
            return (ValueError,)
        if extra and check:
            return (AttributeError,)
        new = dict(c=2)
        new.update(self.nodes.get(n, dict()))
        new.update(label)
        self.nodes[n] = new

    def add_edge(self, u, v, label, check=True):
        if u not in self.nodes or v not in self.nodes:
            return (ValueError,)
        if not valid(self.ctx, label):
            return (ValueError,)
        there = [e for e in self.edges if e[:2] == (u, v)]
        if any(not e[2] for e in there):
            return (Exception,)
        if there and not label:
            # unlabeled next to labeled: unspecified
            self.ctx.assume(z3.BoolVal(False))
        if self.ctx.decide(orz(edge_eq(e, (u, v, label)) for e in there)):
            return None
        if set(label) - {'w', 'v'} and check:
            return (AttributeError,)
        self.edges.append((u, v, dict(label)))

    def remove_edge(self, u, v, label):
        keep = list()
        for e in self.edges:
            if e[:2] == (u, v) and (not label or self.ctx.decide(
                    same_labels(e[2], label))):
                continue
            keep.append(e)
        self.edges = keep

    def remove_node(self, n):
        if n not in self.nodes:
            return (Exception,)
        del self.nodes[n]
        self.edges = [e for e in self.edges if n not in e[:2]]
        self.initial = [m for m in self.initial if m != n]
        self.accepting = [m for m in self.accepting if m != n]

    def add_member(self, box, n):
        if n not in self.nodes:
            return (ValueError,)
        if n not in box:
            box.append(n)


def contents(ctx, g, m, what, acc=True):
    """Compare graph with model."""
    ctx.check(set(g.states()) == set(m.nodes) and
              len(g.states) == len(m.nodes), f'{what}: states')
    ctx.check(all(n in g.states for n in m.nodes), f'{what}: membership')
    for n, label in m.nodes.items():
        ctx.check(same_labels(g.states[n], label), f'{what}: state labels')
    found = g.transitions.find()
    ctx.check(len(found) == len(m.edges), f'{what}: number of transitions')
    ctx.check(len(g.transitions) == len(m.edges),
              f'{what}: size of transitions')
    ctx.check(sorted(map(str, g.transitions())) == sorted(
        str(e[:2]) for e in m.edges), f'{what}: pairs of transitions')
    # labels of parallel transitions differ, so inclusion suffices
    ctx.check(andz(orz(edge_eq(e, f) for f in found) for e in m.edges),
              f'{what}: transitions')
    ctx.check(
        set(g.states.initial) == set(m.initial) and
        len(g.states.initial) == len(m.initial), f'{what}: initial')
    if hasattr(g, 'accepting') and acc:
        ctx.check(set(g.accepting) == set(m.accepting),
                  f'{what}: accepting')
    ctx.check(g.is_consistent() is True, f'{what}: labels in their domain')
    for n in m.nodes:
        ctx.check(
            g.states.post([n]) == {e[1] for e in m.edges if e[0] == n} and
            g.states.pre([n]) == {e[0] for e in m.edges if e[1] == n},
            f'{what}: successors and predecessors')


def attempt(ctx, errors, call):
    """Call and require exactly the expected exceptions."""
    try:
        call()
    except Exception as e:
        if getattr(ctx, 'dead', False):
            raise
        ctx.check(errors is not None, 'rejects a valid operation')
        ctx.check(isinstance(e, errors), 'kind of error')
        ctx.label('rejected')
        return False
    ctx.check(errors is None, 'accepts an invalid operation')
    ctx.label('accepted')
    return True


def base(ctx, cls, shape):
    """Graph with some symbolic labels."""
    g = cls()
    m = Model(ctx)
    nodes, edges, initial = shape
    for i, n in enumerate(nodes):
        label = dict()
        if i == 0:
            label = dict(c=ctx.int(f'base.c{i}', LO, HI))
        if i == 2:
            label = dict(d='x')
        g.states.add(n, **label)
        m.add_node(n, label)
    for i, (u, v, kind) in enumerate(edges):
        label = dict()
        if 'w' in kind:
            label['w'] = ctx.int(f'base.w{i}', LO, HI)
        if 'v' in kind:
            label['v'] = ['x', 'xy'][i % 2]
        if any(e[:2] == (u, v) for e in m.edges):
            ctx.assume(z3.Not(orz(
                edge_eq(e, (u, v, label)) for e in m.edges)))
        g.transitions.add(u, v, dict(label))
        m.add_edge(u, v, label)
    for n in initial:
        g.states.initial.add(n)
        m.initial.append(n)
    return g, m


class Plain(lg.LabeledDiGraph):
    def __init__(self):
        super().__init__(*types())


S1, S10, ZERO, TUP = NAMES
BASES = [
    ([S1, S10, ZERO],
     [(S1, S10, 'w'), (S1, S10, 'w'), (S10, S1, 'v'), (ZERO, ZERO, ''),
      (S10, ZERO, 'wv')],
     [S1, ZERO]),
    ([S10, TUP, S1],
     [(S10, TUP, 'wv'), (TUP, S1, 'w'), (S1, S1, 'w'), (S1, S10, ''),
      (TUP, TUP, 'v')],
     [TUP]),
]
OPS = [
    'add state', 'add state, label', 'add states', '|= states',
    'remove state', 'remove states', 'assign label', 'untyped state',
    'add initial', 'add initials', 'remove initial', 'untyped transition',
    'add', 'add unlabeled', 'add dict and names', 'add many',
    'add comb', 'add matrix', 'remove', 'remove label', 'remove many']


def edit(ctx, g, m, op, j, pairs, nodes):
    """Apply one edit to graph and model."""
    p = f'{j}.'
    if op in ('add state', 'add state, label', 'untyped state',
              'remove state', 'add initial', 'remove initial',
              'assign label'):
        n = ctx.pick(p + 'state', nodes)
    if op == 'add state':
        attempt(ctx, m.add_node(n, dict()), lambda: g.states.add(n))
    elif op == 'add state, label':
        x = ctx.int(p + 'c', LO - 1, HI + 1)
        label = dict(c=x)
        d = ctx.pick(p + 'd', [None, 'xy', 'y'])
        if d is not None:
            label['d'] = d
        err = m.add_node(n, label)
        if d is None:
            attempt(ctx, err, lambda: g.states.add(n, c=x))
        else:
            mine = dict(c=x)
            attempt(ctx, err, lambda: g.states.add(n, mine, d=d))
            ctx.check(set(mine) == {'c'}, 'changes labels of the caller')
    elif op == 'untyped state':
        check = ctx.flag(p + 'check')
        label = dict(z=5)
        err = m.add_node(n, label, check)
        attempt(ctx, err, lambda: g.states.add(n, check=check, z=5))
    elif op in ('add states', '|= states'):
        u = ctx.pick(p + 'state', nodes)
        x = ctx.int(p + 'c', LO - 1, HI + 1)
        if op == '|= states':
            m.add_node(u, dict())
            m.add_node(ABSENT, dict())
            def call():
                g.states |= [u, ABSENT]
            attempt(ctx, None, call)
        else:
            err = m.add_node(u, dict(d='x'))
            err = m.add_node(ABSENT, dict(d='x', c=x))
            attempt(ctx, err, lambda: g.states.add_from(
                [u, (ABSENT, dict(c=x))], d='x'))
    elif op == 'remove state':
        attempt(ctx, m.remove_node(n), lambda: g.states.remove(n))
    elif op == 'remove states':
        u = ctx.pick(p + 'state', nodes)
        err = m.remove_node(u)
        if err is None and S10 != u:
            err = m.remove_node(S10)
            attempt(ctx, err, lambda: g.states.remove_from([u, S10]))
        else:
            attempt(ctx, err, lambda: g.states.remove_from({u}))
    elif op == 'assign label':
        ctx.assume(z3.BoolVal(n in m.nodes))
        x = ctx.int(p + 'c', LO - 1, HI + 1)
        err = m.add_node(n, dict(c=x))
        def call():
            g.states[n]['c'] = x
        attempt(ctx, err, call)
    elif op == 'add initial':
        err = m.add_member(m.initial, n)
        attempt(ctx, err, lambda: g.states.initial.add(n))
    elif op == 'add initials':
        u = ctx.pick(p + 'state', nodes)
        if u in m.nodes:
            m.add_member(m.initial, S10)
        err = m.add_member(m.initial, u)
        if err is None and S10 not in m.nodes:
            # rejected as a whole
            ctx.assume(z3.BoolVal(False))
        attempt(ctx, err, lambda: g.states.initial.add_from([S10, u]))
    elif op == 'remove initial':
        if n in m.initial:
            m.initial.remove(n)
            attempt(ctx, None, lambda: g.states.initial.remove(n))
    elif op in ('add', 'add unlabeled', 'add dict and names', 'remove',
                'remove label', 'untyped transition'):
        u, v = ctx.pick(p + 'pair', pairs)
        if op == 'add unlabeled':
            err = m.add_edge(u, v, dict())
            attempt(ctx, err, lambda: g.transitions.add(u, v))
        elif op == 'remove':
            m.remove_edge(u, v, dict())
            attempt(ctx, None, lambda: g.transitions.remove(u, v))
        elif op == 'untyped transition':
            check = ctx.flag(p + 'check')
            err = m.add_edge(u, v, dict(z=5), check)
            attempt(ctx, err, lambda: g.transitions.add(
                u, v, dict(z=5), check=check))
        else:
            x = ctx.int(p + 'w', LO - 1, HI + 1)
            if op == 'add':
                err = m.add_edge(u, v, dict(w=x))
                attempt(ctx, err, lambda: g.transitions.add(u, v, w=x))
            elif op == 'remove label':
                more = dict(v='x') if ctx.flag(p + 'more') else dict()
                m.remove_edge(u, v, dict(w=x, **more))
                if more:
                    attempt(ctx, None, lambda: g.transitions.remove(
                        u, v, more, w=x))
                    ctx.check(set(more) == {'v'},
                              'changes labels of the caller')
                else:
                    attempt(ctx, None, lambda: g.transitions.remove(
                        u, v, dict(w=x)))
            else:
                y = ctx.pick(p + 'v', ['x', 'xy', 'y'])
                mine = dict(v=y, w=3)
                err = m.add_edge(u, v, dict(v=y, w=x))
                attempt(ctx, err, lambda: g.transitions.add(
                    u, v, mine, w=x))
                ctx.check(mine['w'] == 3, 'changes labels of the caller')
    elif op in ('add many', 'add comb', 'add matrix', 'remove many'):
        (a, b), (c, d) = ctx.pick(p + 'pairs', [
            (pairs[i], pairs[(i + 1 + i % 2) % len(pairs)])
            for i in range(len(pairs))])
        x = ctx.int(p + 'w', LO - 1, HI + 1)
        if op == 'remove many':
            m.remove_edge(a, b, dict())
            m.remove_edge(c, d, dict(w=x))
            attempt(ctx, None, lambda: g.transitions.remove_from(
                [(a, b), (c, d, dict(w=x))]))
            return
        if op == 'add many':
            err = m.add_edge(a, b, dict(w=x, v='x'))
            if err is None:
                err = m.add_edge(c, d, dict(w=3, v='x'))
            attempt(ctx, err, lambda: g.transitions.add_from(
                [(a, b), (c, d, dict(w=3))], dict(w=x), v='x'))
        elif op == 'add comb':
            us = [a, c] if a != c else [a]
            vs = [b, d] if b != d else [b]
            err = None
            for u in us:
                for v in vs:
                    err = err or m.add_edge(u, v, dict(w=x))
            it = ctx.flag(p + 'iterator')
            attempt(ctx, err, lambda: g.transitions.add_comb(
                iter(us) if it else us, iter(vs) if it else vs, w=x))
        else:
            states = list()
            for n in (a, b, c, d):
                if n not in states:
                    states.append(n)
            k = len(states)
            adj = np.zeros([k, k])
            adj[states.index(a), states.index(b)] = 1
            adj[states.index(c), states.index(d)] = 1
            err = None
            if any(n not in m.nodes for n in states):
                err = (ValueError,)
            else:
                for i in range(k):
                    for l in range(k):
                        if adj[i, l]:
                            err = err or m.add_edge(
                                states[i], states[l], dict(w=x))
            names = states
            if ctx.flag(p + 'dict'):
                names = dict(enumerate(states))
            attempt(ctx, err, lambda: g.transitions.add_adj(
                sp.lil_array(adj), names, dict(w=x)))
    else:
        raise ValueError(op)


def edits(steps, ops, bases):
    def fn(ctx):
        shape = BASES[ctx.pick('base', bases)]
        g, m = base(ctx, Plain, shape)
        nodes = [S1, S10, TUP, ZERO]
        if steps > 1:
            nodes = nodes[:3]
        pairs = [(S1, S10), (S10, S1), (ZERO, ZERO), (S10, TUP), (S1, S1),
                 (S10, ZERO)]
        if steps > 1:
            pairs = pairs[:1] + pairs[3:5]
        for j in range(steps):
            op = ctx.pick(f'op{j}', ops)
            edit(ctx, g, m, op, j, pairs, nodes)
        contents(ctx, g, m, 'after edits')
    return symx.Harness(
        f'edits {steps}', fn, ['accepted', 'rejected'], opaque_repr='all')


def reach(edges, start):
    seen = {start}
    todo = [start]
    while todo:
        n = todo.pop()
        for u, v in edges:
            if u == n and v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


CANDIDATES = [
    (S1, S10), (S10, S1), (S1, S1), (S10, ZERO), (ZERO, TUP), (TUP, S10),
    (ZERO, S1)]


def graph_queries(n_edges):
    """Queries that only depend on the pairs of states."""
    def fn(ctx):
        g = Plain()
        g.states.add_from(NAMES)
        edges = ctx.subset('edge', CANDIDATES[:n_edges])
        for i, (u, v) in enumerate(edges):
            g.transitions.add(u, v, w=1)
            if i % 2:
                g.transitions.add(u, v, w=2)
        g.states.initial.add_from([S10, TUP])
        for n in NAMES:
            r = reach(edges, n) - {n}
            ctx.check(g.states.forward_reachable(n) - {n} == r,
                      'reachable states')
            b = {k for k in NAMES if n in reach(edges, k)} - {n}
            ctx.check(g.states.backward_reachable(n) - {n} == b,
                      'states that reach a state')
            ctx.check(g.states.is_terminal(n) == (not any(
                u == n for u, _ in edges)), 'terminal')
        some = ctx.subset('some', NAMES)
        ctx.check(g.states.post(some) == {v for u, v in edges if u in some},
                  'post-image')
        ctx.check(g.states.pre(some) == {u for u, v in edges if v in some},
                  'pre-image')
        ctx.check(g.states.post() == {S10, TUP}, 'post-image of none')
        dead = [n for n in NAMES if not any(u == n for u, _ in edges)]
        ctx.check(g.has_deadends() == bool(dead), 'dead ends')
        alive = set(NAMES)
        while True:
            d = {n for n in alive if not any(
                u == n and v in alive for u, v in edges)}
            if not d:
                break
            alive -= d
        if not alive:
            # documented to be refused
            ctx.label('all dead')
            return
        g.remove_deadends()
        ctx.check(set(g.states()) == alive, 'states left')
        ctx.check(set(g.transitions()) == {
            e for e in edges if set(e) <= alive}, 'transitions left')
        ctx.check(set(g.states.initial) == {S10, TUP} & alive,
                  'initial states left')
        ctx.check(not g.has_deadends(), 'dead ends left')
        ctx.label('some alive')
    return symx.Harness(
        'queries', fn, ['all dead', 'some alive'], opaque_repr='all')


class Guarded(lg.LabeledDiGraph):
    def __init__(self):
        super().__init__(*types(guard=True))


def find(guard):
    """Search by label."""
    def fn(ctx):
        g = (Guarded if guard else Plain)()
        m = Model(ctx)
        cs = list()
        for i, n in enumerate(NAMES):
            c = ctx.int(f'c{i}', LO, HI)
            label = dict(c=c)
            if i % 2:
                label['d'] = 'x'
            g.states.add(n, **label)
            m.nodes[n] = label
        edges = [
            (S1, S10, ('w',)), (S1, S10, ('w', 'v')), (S10, S1, ('w',)),
            (TUP, ZERO, ('v',)), (ZERO, S10, ()), (S1, S1, ('w',))]
        for i, (u, v, keys) in enumerate(edges):
            label = dict()
            if 'w' in keys:
                label['w'] = ctx.int(f'w{i}', LO, HI)
            if 'v' in keys:
                label['v'] = 'xy'
            g.transitions.add(u, v, dict(label))
            m.edges.append((u, v, label))
        boxes = [None, [], [S1], {S10, ZERO}, S1, TUP, 'iterator']
        src = ctx.pick('from', boxes)
        inside = lambda n, b: (
            b is None or
            (n in (S1, TUP) if b == 'iterator' else
             n == b if b in NAMES else n in b)) if not isinstance(
                 b, (list, set)) else n in b
        real = lambda b: iter([S1, TUP]) if b == 'iterator' else b
        x = ctx.int('x', LO, HI)
        kind = ctx.pick('label', ['none', 'one', 'two', 'other'])
        state = ctx.flag('states')
        key, other, val = ('c', 'd', 'x') if state else ('w', 'v', 'xy')
        want = dict(
            none=dict(), one={key: x}, two={key: x, other: val},
            other={other: val})[kind]
        if state:
            form = ctx.pick('form', ['dict', 'names', 'both'])
        else:
            dst = ctx.pick('to', boxes)
            form = ['dict', 'names', 'both'][
                (boxes.index(src) + boxes.index(dst)) % 3]
        a, b = dict(want), dict()
        if form == 'names':
            a, b = None, dict(want)
        elif form == 'both':
            a, b = dict(want), dict(want)
            if key in a:
                # names take precedence
                a[key] = LO
        def match(label):
            if not want:
                return z3.BoolVal(True)
            if not label:
                # unlabeled: no constraints
                return z3.BoolVal(not state)
            if set(label) != set(want):
                return z3.BoolVal(False)
            if guard and not state and key in label:
                return z3.And(
                    lit(label[key]) <= lit(x),
                    andz(eq(label[k], want[k]) for k in want if k != key))
            return same_labels(label, want)
        if state:
            got = g.states.find(real(src), a, **b)
            ctx.check(len({n for n, _ in got}) == len(got), 'no repetition')
            for n, label in m.nodes.items():
                hit = [l for k, l in got if k == n]
                ok = z3.And(z3.BoolVal(inside(n, src)), match(label))
                ctx.check(ok == z3.BoolVal(bool(hit)), 'states found')
                if hit:
                    ctx.check(same_labels(hit[0], label),
                              'labels of states found')
                    ctx.label('state found')
        else:
            got = g.transitions.find(real(src), real(dst), a, **b)
            if form == 'both' and a is not None:
                ctx.check(key not in want or lit(a[key]) == LO,
                          'changes labels of the caller')
            n = list()
            for e in m.edges:
                ok = z3.And(
                    z3.BoolVal(inside(e[0], src) and inside(e[1], dst)),
                    match(e[2]))
                n.append(z3.If(ok, 1, 0))
                ctx.check(
                    z3.Implies(ok, orz(edge_eq(e, f) for f in got)),
                    'transitions found')
            # parallel transitions may have equal labels here
            ctx.check(
                andz(orz(z3.And(edge_eq(e, f), k == 1)
                         for e, k in zip(m.edges, n)) for f in got),
                'transitions found match')
            ctx.check(z3.Sum(n) == len(got), 'number of transitions found')
            if got:
                ctx.label('transition found')
    return symx.Harness(
        'find guarded' if guard else 'find', fn,
        ['state found', 'transition found'], opaque_repr='all')


KINDS = [
    transys.KripkeStructure, transys.WeightedKripkeStructure,
    transys.FiniteTransitionSystem, automata.BuchiAutomaton,
    automata.FiniteWordAutomaton, automata.WeightedFiniteStateAutomaton,
    automata.RabinAutomaton, automata.DRA]


def classes(ctx):
    """Systems and automata: states, labels, accepting sets."""
    cls = ctx.pick('class', KINDS)
    g = cls()
    names = NAMES[:3]
    g.states.add_from(names)
    m = Model(ctx)
    init = ctx.subset('initial', names)
    g.states.initial.add_from(init)
    rabin = isinstance(g, automata.RabinAutomaton)
    auto = hasattr(g, 'accepting')
    acc = ctx.subset('accepting', names) if auto else []
    bad = [n for n in names if n not in acc][:1]
    if rabin:
        g.accepting.add(acc, bad)
        g.accepting.add([], [])
        g.accepting.add_states(1, acc[:1], bad)
        try:
            g.accepting.add([ABSENT], [])
        except ValueError:
            pass
        else:
            ctx.check(False, 'acceptance pair outside the states')
    elif auto:
        g.accepting |= acc
        try:
            g.accepting.add(ABSENT)
        except ValueError:
            pass
        else:
            ctx.check(False, 'accepting state outside the states')
    try:
        g.states.initial |= [ABSENT]
    except ValueError:
        pass
    else:
        ctx.check(False, 'initial state outside the states')
    if hasattr(g, 'atomic_propositions') and not auto:
        declared = ctx.subset('declared', ['p', 'pq'])
        g.atomic_propositions.add_from(declared)
        label = set(ctx.subset('label', ['p', 'pq', 'q']))
        ok = label <= set(declared)
        how = ctx.pick('how', ['assign', 'add', 'add_from', 'in place'])
        if how == 'in place':
            ctx.assume(z3.BoolVal(ok))
        try:
            if how == 'in place':
                # what a state got by default belongs to that state
                g.states[S1]['ap'] |= label
            elif how == 'assign':
                g.states[S1]['ap'] = label
            elif how == 'add':
                g.states.add(S1, ap=label)
            else:
                g.states.add_from([(S1, dict(ap=label))])
        except ValueError:
            ctx.check(not ok, 'rejects declared propositions')
            label = set()
        else:
            ctx.check(ok, 'accepts undeclared propositions')
        ctx.check(set(g.states[S1]['ap']) == label, 'label of the state')
        ctx.check(set(g.states[S10]['ap']) == set(), 'label of another')
        found = [n for n, _ in g.states.find(ap=label)]
        ctx.check(found == [n for n in names if n == S1 or not label],
                  'states with the label')
    if isinstance(g, transys.FiniteTransitionSystem):
        g.sys_actions.add_from(['a', 'ab'])
        g.env_actions.add('e')
        x = ctx.pick('action', ['a', 'ab', 'b', ''])
        y = ctx.pick('env action', [None, 'e', 'a'])
        label = dict(sys_actions=x)
        if y is not None:
            label['env_actions'] = y
        ok = x in ('a', 'ab') and y in (None, 'e')
        try:
            g.transitions.add(S1, S10, label)
        except ValueError:
            ctx.check(not ok, 'rejects declared actions')
            ctx.check(len(g.transitions) == 0, 'rejected, but added')
        else:
            ctx.check(ok, 'accepts undeclared actions')
            ctx.check(g.transitions.find() == [(S1, S10, label)],
                      'transition added')
            ctx.check(
                (not g.transitions.find(sys_actions='a')) == (
                    label != dict(sys_actions='a')), 'found by action')
        g.transitions.remove(S1, S10)
    if auto and not rabin:
        if g.atomic_proposition_based:
            g.atomic_propositions.add_from(['p', 'pq'])
            letter = set(ctx.subset('letter', ['p', 'pq', 'q']))
            ok = 'q' not in letter
        else:
            g.alphabet.add('p')
            letter = ctx.pick('letter', ['p', 'pq'])
            ok = letter == 'p'
        more = dict(cost=1) if 'Weighted' in cls.__name__ else dict()
        try:
            g.transitions.add(S1, S1, letter=letter, **more)
        except ValueError:
            ctx.check(not ok, 'rejects declared letters')
        else:
            ctx.check(ok, 'accepts undeclared letters')
            ctx.check(g.transitions.find() == [
                (S1, S1, dict(letter=letter, **more))], 'letter added')
    n = ctx.pick('removed', names)
    if ctx.flag('remove_from'):
        g.states.remove_from([n])
    else:
        g.states.remove(n)
    rest = [k for k in names if k != n]
    ctx.check(set(g.states()) == set(rest), 'states after removal')
    ctx.check(set(g.states.initial) == set(init) - {n},
              'initial states after removal')
    if rabin:
        ctx.check(set(g.accepting.good(0)) == set(acc) - {n} and
                  set(g.accepting.bad(0)) == set(bad) - {n} and
                  set(g.accepting.good(1)) == set(acc[:1]) - {n} and
                  set(g.accepting.bad(1)) == set(bad) - {n} and
                  len(g.accepting()) == 2,
                  'acceptance pairs after removal')
    elif auto:
        ctx.check(set(g.accepting) == set(acc) - {n},
                  'accepting states after removal')
    ctx.check(g.is_consistent() is True, 'consistent')
    ctx.label('removed')


def harnesses(tier):
    t = tier == 'thorough'
    return [
        edits(1, OPS, [0, 1]),
        edits(2, OPS if t else OPS[1::3], [0, 1] if t else [0]),
        graph_queries(7 if t else 6),
        find(False), find(True),
        symx.Harness('classes', classes, ['removed'], opaque_repr='all')]


BOUNDS = {
    'quick': 'graphs of 3 or 4 states with up to 6 transitions whose '
             'integer labels are arbitrary; 1 edit of 21 kinds, 2 of 7 '
             'kinds, with labels around the domain; queries on all graphs '
             'over 6 candidate transitions; 8 classes of systems, automata',
    'thorough': 'as quick, 2 edits of all kinds, 7 candidate transitions'}
OUTSIDE = (
    'adding an unlabeled transition next to a labeled one; '
    'edits that bypass states and transitions')
ASSUMPTIONS = [
    'an unlabeled transition matches every searched label (documented as '
    '"no labeling constraints")',
    'removal of all states as dead ends is refused by an assertion']
EXPLANATION = (
    'The real containers are edited with symbolic labels; states, '
    'transitions, labels, initial and accepting states, and answers to '
    'queries are compared by the solver with a list of labeled edges.')
