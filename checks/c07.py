"""C07: Mealy machine from an enumerated strategy."""
import itertools

import networkx as nx
import symx
import z3
import ltl

import c09
from c09 import andz, orz, lit

import tulip.synth as synth
from tulip.spec import form
from tulip.transys import machines

CONFIGS = [
    # env_vars, sys_vars, list of (env_init, sys_init)
    (dict(x='boolean'), dict(c=['aa', 'a', 'b']),
     [(['x'], ['c = "a"']), ([], ['c = "a" || c = "aa"']),
      (['x', '!x'], ['c = "b"'])]),
    (dict(e=(2, 4)), dict(u='boolean'),
     [(['e < 4'], ['!u', 'u || e > 2']), (['e = 3'], [])]),
    (dict(), dict(key=['b', 'a'], v='boolean'),
     [([], ['key = "a"', 'v']), ([], [])]),
    (dict(s=['ab', 'a']), dict(k=(-1, 1)),
     [(['s = "ab"'], ['k >= 0']), ([], ['s = "a" -> k = -1'])]),
    (dict(x='boolean', x2='boolean'), dict(y='boolean'),
     [(['!x'], ['y -> x2']), (['x'], ['!y'])]),
    (dict(x='boolean'), dict(n=(8, 11)),
     [(['!x'], ['n > 9']), ([], ['n = 10 || x'])]),
]

PATTERNS = [
    [(0, 1), (1, 2), (2, 0), (1, 0)],
    [(0, 0), (0, 1), (0, 2), (2, 1)],
    [(2, 0), (2, 1), (2, 2), (1, 1), (0, 2)],
    []]


def domain(t):
    if t == 'boolean':
        return [0, 1]
    if isinstance(t, tuple):
        return list(range(t[0], t[1] + 1))
    return list(range(len(t)))


def shown(t, v):
    """Value of the port for the value of the integer variable."""
    return t[v] if isinstance(t, list) else v


def holds(clauses, types, vals):
    """Conjunction of clauses at a valuation (z3 decides)."""
    w = ltl.Lasso(1, {
        k: t if t != 'boolean' else 'boolean' for k, t in types.items()})
    f = z3.And(z3.BoolVal(True), *[
        w.holds(ltl.TULIP.parse(c)) for c in clauses])
    at = list()
    for k, t in types.items():
        v = vals[k]
        if t == 'boolean':
            g = ('var', k) if v else ('!', ('var', k))
        elif isinstance(t, list):
            g = ('=', ('var', k), ('str', t[v]))
        else:
            g = ('=', ('var', k), ('num', v))
        at.append(w.holds(g))
    s = z3.Solver()
    s.add(*w.constraints, *at, f)
    r = s.check()
    assert r != z3.unknown
    return r == z3.sat


_MEMO = dict()


def memo_holds(ci, clauses, types, vals):
    k = (ci, tuple(clauses), tuple(sorted(vals.items())))
    if k not in _MEMO:
        _MEMO[k] = holds(clauses, types, vals)
    return _MEMO[k]


class Letters:
    """Symbolic word over the ports (indices in the port domains)."""

    def __init__(self, ctx, length, doms):
        self.doms = doms
        self.rows = list()
        for i in range(length):
            row = dict()
            for k, vs in doms.items():
                t = ctx.free(z3.Int(f'w{i}.{k}'))
                ctx.assume(z3.And(t >= 0, t < len(vs)))
                row[k] = t
            self.rows.append(row)

    def __call__(self, i):
        return self.rows[i]

    def encode(self, label):
        return {k: self.doms[k].index(v) for k, v in label.items()}


def conversion(configs, patterns):
    def fn(ctx):
        ci = ctx.pick('config', configs)
        env_vars, sys_vars, inits = CONFIGS[ci]
        types = dict(env_vars, **sys_vars)
        env_init, sys_init = ctx.pick('init', inits)
        by_nodes = ctx.flag('initial_nodes')
        edges = ctx.pick('edges', [PATTERNS[i] for i in patterns])
        names = [5, 0, 3] if ci in (0, 3) else (
            [0, 1, 2] if by_nodes else ['1', '10', '0'])
        vals = [
            {k: ctx.pick(f'n{i}.{k}', domain(t)) for k, t in types.items()}
            for i in range(3)]
        spec = form.GRSpec(
            env_vars=dict(env_vars), sys_vars=dict(sys_vars),
            env_init=list(env_init), sys_init=list(sys_init))
        a = nx.DiGraph()
        for i, v in enumerate(vals):
            a.add_node(names[i], state=dict(v, _goal=i % 2, strat_type=1))
        for i, j in edges:
            a.add_edge(names[i], names[j])
        start = [
            i for i in range(3)
            if not memo_holds(ci, env_init, types, vals[i])
            or memo_holds(ci, sys_init, types, vals[i])]
        if by_nodes:
            start = ctx.pick('start', [[0], [1, 2]])
            a.initial_nodes = {names[i] for i in start}
        if not start:
            # either result describes that there is no initial reaction
            try:
                m = synth.strategy2mealy(a, spec)
            except AssertionError:
                pass
            else:
                ctx.check(not any(
                    m.out_degree(u) for u in m.states.initial),
                    'initial reaction although no node is initial')
            ctx.label('no initial node')
            return
        m = synth.strategy2mealy(a, spec)
        ctx.note(vals=vals, edges=edges, start=start)
        ctx.label('converted')
        ctx.check(
            set(m.inputs) == set(env_vars) and
            set(m.outputs) == set(sys_vars), 'ports of the machine')
        ctx.check(all(
            set(p[k]) == {shown(t, v) for v in domain(t)}
            for p in (m.inputs, m.outputs) for k, t in types.items()
            if k in p), 'domains of the ports')
        doms = {k: [shown(t, v) for v in domain(t)]
                for k, t in types.items()}
        w = Letters(ctx, 3, doms)
        want = [
            {k: domain(types[k]).index(v) for k, v in d.items()}
            for d in vals]
        ref = [(i, j, want[j]) for i, j in edges]
        ref += [('start', j, want[j]) for j in start]
        got = [(x, y, w.encode({k: v for k, v in d.items()}))
               for x, y, d in m.edges(data=True)]
        ctx.check(all(set(d) == set(types) for _, _, d in got),
                  'labels of transitions')
        init = list(m.states.initial)
        ctx.check(len(init) == 1, 'one state for the first reaction')
        distinct = len({tuple(sorted(want[i].items()))
                        for i in start}) == len(start)
        for k in (1, 2, 3):
            r = c09.behaviors(ref, ['start'], k, w)
            g = c09.behaviors(got, init, k, w)
            ctx.check(z3.Implies(g, r), 'machine adds a behavior')
            if distinct or k == 1:
                ctx.check(z3.Implies(r, g), 'machine loses a behavior')
        # suffixes: from each node of the strategy
        if set(names) <= set(m.nodes):
            for i in range(3):
                ctx.check(
                    c09.behaviors(ref, [i], 2, w) ==
                    c09.behaviors(got, [names[i]], 2, w),
                    'behavior from a node of the strategy')
        firsts = [andz(w(0)[k] == v for k, v in d.items())
                  for x, _, d in got if x == init[0]]
        ctx.check(
            z3.Sum([z3.If(c, 1, 0) for c in firsts] + [z3.IntVal(0)]) <= 1,
            'several reactions for one initial valuation')
    return symx.Harness('conversion', fn, ['converted', 'no initial node'],
                        opaque_repr=True)


def determinize(n_edges):
    def fn(ctx):
        ins, outs = ['x'], ['u', 'v']
        states = ['Sinit', 'a', 'b']
        first = n_edges - 1
        then = ctx.pick('targets', [['a', 'b', 'a', 'b'],
                                    ['a', 'a', 'a', 'b']])
        m, edges = c09.mealy_machine(
            ctx, states, n_edges, ins, outs,
            picks=[('Sinit', b) for b in then[:first]] + [('a', 'a')])
        # a state with nondeterminism that must remain
        extra = [('b', 'a', dict(x=0, u=0, v=0)),
                 ('b', 'b', dict(x=0, u=1, v=1))]
        for a, b, d in extra:
            m.transitions.add(a, b, dict(d))
        edges = edges + extra
        given = ctx.pick('given', [None, {}, ['u'], ['v'], ['u', 'v']])
        if isinstance(given, list):
            given = {k: c09.symbolic(ctx, 'given', k) for k in given}
        before = [(a, b, dict(d)) for a, b, d in m.edges(data=True)]
        r = synth.determinize_machine_init(m, given)
        ctx.check(
            [(a, b) for a, b, _ in m.edges(data=True)] ==
            [(a, b) for a, b, _ in before], 'given machine is unchanged')
        given = given or dict()
        fits = [
            andz(lit(d[k]) == lit(given[k]) for k in given)
            for a, b, d in edges if a == 'Sinit']
        firsts = [(b, d) for a, b, d in edges if a == 'Sinit']
        kept = [(b, d) for a, b, d in r.edges(data=True) if a == 'Sinit']

        def same(p, q):
            return andz([z3.BoolVal(p[0] == q[0])] + [
                lit(p[1][k]) == lit(q[1][k]) for k in ins + outs])
        for e in kept:
            ctx.check(orz(z3.And(f, same(e, g))
                          for f, g in zip(fits, firsts)),
                      'initial reaction is not one of the given machine')
        w = ctx.free(z3.Int('input'))
        covered = orz(z3.And(f, lit(g[1]['x']) == w)
                      for f, g in zip(fits, firsts))
        n = z3.Sum([z3.If(lit(e[1]['x']) == w, 1, 0) for e in kept] +
                   [z3.IntVal(0)])
        ctx.check(n == z3.If(covered, 1, 0),
                  'one initial reaction per covered input')
        rest = [(a, b, d) for a, b, d in edges if a != 'Sinit']
        left = [(a, b, d) for a, b, d in r.edges(data=True) if a != 'Sinit']
        ctx.check(len(rest) == len(left), 'other transitions remain')
        for a, b, d in rest:
            ctx.check(orz(
                same((b, d), (q, f)) for p, q, f in left if p == a),
                'other transitions remain')
        ctx.check(
            set(r.nodes) == set(m.nodes) and
            set(r.states.initial) == set(m.states.initial) and
            set(r.inputs) == set(ins) and set(r.outputs) == set(outs),
            'states and ports remain')
        ctx.label('determinized')
    return symx.Harness('determinize', fn, ['determinized'],
                        opaque_repr=True)


def mask(n_edges):
    def fn(ctx):
        ins, outs = ['x'], ['u', 'v']
        m, edges = c09.mealy_machine(
            ctx, ['a', 'b'], n_edges, ins, outs,
            picks=[('a', 'b'), ('a', 'b'), ('b', 'a'), ('b', 'b')])
        r = synth.mask_outputs(m)
        r = m if r is None else r
        left = [(a, b, d) for a, b, d in r.edges(data=True)]
        ctx.check(len(left) == len(edges), 'transitions remain')
        # order of edges in the graph is that of `left`; match by label
        for a, b, d in edges:
            ctx.check(orz(
                andz([lit(d['x']) == lit(f.get('x', -1))] + [
                    lit(d[k]) == lit(f[k]) if k in f else lit(d[k]) == 0
                    for k in outs])
                for p, q, f in left if (a, b) == (p, q)),
                'remaining labels are those of the machine')
        for a, b, d in left:
            ctx.check(set(ins) <= set(d) <= set(ins + outs),
                      'inputs are kept')
            ctx.check(andz(lit(d[k]) != 0 for k in outs if k in d),
                      'outputs that are zero are erased')
        ctx.label('masked')
    return symx.Harness('mask_outputs', fn, ['masked'], opaque_repr=True)


def harnesses(tier):
    t = tier == 'thorough'
    return [
        conversion(range(6) if t else range(5), range(4) if t else [0, 1]),
        determinize(5 if t else 4), mask(4 if t else 3)]


BOUNDS = {
    'quick': 'strategies with 3 nodes, 2 edge patterns, 5 signatures of '
             'variables, all valuations of the nodes; words of length 3; '
             'machines with up to 3 initial reactions',
    'thorough': 'strategies with 3 nodes, 4 edge patterns, 6 signatures, '
                'all valuations; up to 4 initial reactions'}
OUTSIDE = 'larger strategies; other formulas for initial conditions'
ASSUMPTIONS = [
    'a node is initial when the initial assumption implies the initial '
    'guarantee, or when the solver lists it as initial']
EXPLANATION = (
    'The real conversion runs on symbolically chosen strategies; the '
    'solver compares the sets of words of the machine and the strategy.')
