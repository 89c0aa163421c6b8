"""C14: costs and shortest paths."""
import itertools

import symx
import z3

from c09 import andz, orz, lit

from tulip import transys
from tulip.transys import cost as tcost
from tulip.transys import graph_algorithms as ga


def lex_lt(a, b):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


def same(a, b):
    return andz(x == y for x, y in zip(a, b))


def vec(v, n):
    """Terms of a cost; scalars are broadcast."""
    if isinstance(v, tcost.VectorCost):
        return [real(x) for x in v]
    return [real(v)] * n


def real(x):
    t = lit(x)
    return z3.ToReal(t) if z3.is_int(t) else t


def truth(x):
    return lit(x) if isinstance(x, symx.SymBool) else z3.BoolVal(bool(x))


OPS = [
    ('==', lambda a, b: a == b, same),
    ('!=', lambda a, b: a != b, lambda a, b: z3.Not(same(a, b))),
    ('<', lambda a, b: a < b, lex_lt),
    ('<=', lambda a, b: a <= b,
     lambda a, b: z3.Or(lex_lt(a, b), same(a, b))),
    ('>', lambda a, b: a > b, lambda a, b: lex_lt(b, a)),
    ('>=', lambda a, b: a >= b,
     lambda a, b: z3.Or(lex_lt(b, a), same(a, b))),
]


def order(lengths):
    def fn(ctx):
        n = ctx.pick('length', lengths)
        kind = ctx.pick('numbers', ['int', 'real'])
        mk = (lambda k: ctx.int(k, -10**6, 10**6)) if kind == 'int' else (
            ctx.real)
        xs = [mk(f'a{i}') for i in range(n)]
        other = ctx.pick('other', ['vector', 0, 1, -2.5, 1e6, float('inf')])
        a = tcost.VectorCost(xs if n % 2 else iter(xs))
        ta = [real(x) for x in xs]
        if other == 'vector':
            ys = [mk(f'b{i}') for i in range(n)]
            b = tcost.VectorCost(ys)
            tb = [real(y) for y in ys]
        elif other == float('inf'):
            ctx.check(a < other and a <= other and other > a, 'infinity')
            ctx.check(not (a > other or a >= other or a == other),
                      'infinity')
            return
        else:
            b = other
            tb = [real(other)] * n
        name, op, ref = ctx.pick('operator', OPS)
        ctx.check(truth(op(a, b)) == ref(ta, tb), f'{name}')
        ctx.check(truth(op(b, a)) == ref(tb, ta), f'{name} reflected')
        s = a + b
        ctx.check(len(s) == n, 'length of sum')
        ctx.check(same(vec(s, n), [x + y for x, y in zip(ta, tb)]), 'sum')
        s = b + a
        ctx.check(same(vec(s, n), [x + y for x, y in zip(ta, tb)]),
                  'sum reflected')
        s = sum([a, a])
        ctx.check(same(vec(s, n), [x + x for x in ta]), 'sum from zero')
        ctx.check(same(vec(a, n), ta), 'operands unchanged')
        ctx.check(same([real(a[i]) for i in range(n)], ta), 'items')
        ctx.label('ordered')
    return symx.Harness('order', fn, ['ordered'], opaque_repr='all')


def lengths_differ(ctx):
    n = ctx.pick('n', [1, 2, 3])
    m = ctx.pick('m', [1, 2, 3])
    ctx.assume(z3.BoolVal(n != m))
    a = tcost.VectorCost([ctx.int(f'a{i}', -9, 9) for i in range(n)])
    b = tcost.VectorCost([ctx.int(f'b{i}', -9, 9) for i in range(m)])
    f = ctx.pick('operation', [
        lambda: a + b, lambda: a == b, lambda: a < b, lambda: a > b,
        lambda: a <= b, lambda: a >= b])
    try:
        f()
    except ValueError:
        ctx.label('rejected')
    else:
        ctx.check(False, 'vectors of different length are comparable')


def accepted(ctx):
    """Weighted systems accept nonnegative costs only."""
    g = ctx.pick('graph', [
        transys.WeightedKripkeStructure,
        transys.WeightedFiniteStateAutomaton
        if hasattr(transys, 'WeightedFiniteStateAutomaton')
        else transys.automata.WeightedFiniteStateAutomaton])()
    g.states.add_from(['s', 't'])
    c = ctx.real('c')
    try:
        g.transitions.add('s', 't', cost=c)
    except ValueError:
        ctx.check(lit(c) < 0, 'rejects a nonnegative cost')
        ctx.check(len(g.transitions()) == 0, 'rejected cost leaves an edge')
        ctx.label('rejected')
    else:
        ctx.check(lit(c) >= 0, 'accepts a negative cost')
        [(u, v, d)] = g.transitions.find(['s'], ['t'])
        ctx.check(real(d['cost']) == lit(c), 'stored cost')
        ctx.label('accepted')


NAMES = [
    [0, 1, 2, 3, 4],
    ['a', 'ab', 'b', 'ba', 'aba'],
    [(0, 'a'), ('b', 0), 0, 'a', (0, (1, 'a'))],
]
SHAPES = [
    # diamond, parallel edges, edge backwards
    (4, [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3), (0, 1), (3, 0)]),
    # chain with shortcuts and loops
    (4, [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3), (0, 3), (1, 1), (2, 3)]),
    (5, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (2, 4), (1, 4)]),
    # unreachable parts
    (5, [(0, 1), (1, 0), (2, 3), (3, 2), (3, 4), (1, 4)]),
]
VECTOR_SHAPES = [
    (4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]),
    (4, [(0, 1), (1, 3), (0, 1), (2, 1), (0, 3)]),
]
CALLS = [
    # sources, targets
    ([0], [3]), ([0], [1, 3]), ([0, 2], [3]), ([2, 1], [3]), ([3, 0], [0]),
    ([1], [1]), ([2], [0]), ([], [3]), ([0], []), ([4, 0], [3]),
    ([0], [4]), ([0, 1, 2], [4, 3]), ([3], [2, 4]),
]


def simple_paths(edges, sources, targets):
    """Simple paths of edges that end when first in the targets."""
    for s in sources:
        if s in targets:
            yield [s], []
            continue
        todo = [([s], [])]
        while todo:
            nodes, path = todo.pop()
            for i, (u, v) in enumerate(edges):
                if u != nodes[-1] or v in nodes:
                    continue
                p = (nodes + [v], path + [i])
                if v in targets:
                    yield p
                else:
                    todo.append(p)


def run(ctx, n, edges, sources, targets, names, vector, tcont):
    g = transys.WeightedKripkeStructure()
    key = 'cost'
    g.states.add_from(names[:n])
    costs = list()
    for i, (u, v) in enumerate(edges):
        if vector:
            xs = [ctx.int(f'c{i}.{j}', 0, 1000) for j in range(vector)]
            c = tcost.VectorCost(xs)
            t = [real(x) for x in xs]
        else:
            c = ctx.real(f'c{i}', 0)
            t = [lit(c)]
        g.transitions.add(names[u], names[v], {key: c})
        costs.append([real(x) for x in t])
    src = [names[i] for i in sources]
    tgt = tcont(names[i] for i in targets)
    if len(src) == 1 and ctx.pick('function', ['single', 'multiple']) == (
            'single'):
        cost, path = ga.dijkstra_single_source_multiple_targets(
            g, src[0], tgt)
    else:
        cost, path = ga.dijkstra_multiple_sources_multiple_targets(
            g, src, tgt, key)
    width = vector or 1
    paths = list(simple_paths(edges, sources, targets))
    ctx.note(path=[str(p) for p in path], sources=sources, targets=targets)
    if not paths:
        ctx.check(path == [] and cost == float('inf'),
                  'path reported though none exists')
        ctx.label('unreachable')
        return
    ctx.check(bool(path), 'no path reported though one exists')
    ctx.check(path[0] in src, 'path starts in a source')
    ctx.check(path[-1] in tgt, 'path ends in a target')
    idx = [names.index(p) for p in path]
    steps = [
        [i for i, e in enumerate(edges) if e == (u, v)]
        for u, v in zip(idx, idx[1:])]
    ctx.check(all(steps), 'path follows transitions')
    got = vec(cost, width)
    sums = list()
    for choice in itertools.product(*steps):
        sums.append([
            sum((costs[i][j] for i in choice), z3.RealVal(0))
            for j in range(width)])
    ctx.check(orz(same(got, s) for s in sums), 'cost is that of the path')
    for nodes, p in paths:
        t = [
            sum((costs[i][j] for i in p), z3.RealVal(0))
            for j in range(width)]
        ctx.check(z3.Not(lex_lt(t, got)), 'another path costs less')
    ctx.label('found')


def shapes(which, vector, quick, some=False):
    def fn(ctx):
        shape = ctx.pick('shape', which)
        n, edges = (VECTOR_SHAPES if vector else SHAPES)[shape]
        calls = [
            (i, c) for i, c in enumerate(CALLS)
            if max(c[0] + c[1] + [0]) < n and (not some or (
                i + shape) % 2 == 0)]
        k, (sources, targets) = ctx.pick('call', calls)
        names = NAMES[(k + shape) % 3] if quick else NAMES[
            ctx.pick('names', range(3))]
        tcont = [list, set][k % 2]
        run(ctx, n, edges, sources, targets, names, vector, tcont)
    return symx.Harness(
        'vector paths' if vector else 'scalar paths', fn,
        ['found', 'unreachable'], opaque_repr='all')


def subgraphs(n, must):
    """Every graph with n nodes, without parallel edges."""
    def fn(ctx):
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        edges = list(must) + ctx.subset(
            'edges', [p for p in pairs if p not in must and p[1] != 0])
        run(ctx, n, edges, [0], [n - 1], NAMES[0], 0, list)
    return symx.Harness(
        f'graphs of {n} states', fn, ['found'], opaque_repr='all')


def harnesses(tier):
    t = tier == 'thorough'
    return [
        order([1, 2, 3, 4] if t else [1, 2, 3]),
        symx.Harness('lengths', lengths_differ, ['rejected']),
        symx.Harness('accepted costs', accepted, ['accepted', 'rejected'],
                     opaque_repr='all'),
        shapes(range(4), 0, not t, not t),
        shapes(range(2), 2, True, not t),
        subgraphs(4, [(0, 1)] if t else [(0, 1), (1, 3)])]


BOUNDS = {
    'quick': 'cost vectors of up to 3 entries, arbitrary integers up to '
             '10**6 or reals; graphs of 4 or 5 nodes and up to 8 edges with '
             'arbitrary nonnegative real costs, or pairs of integers up to '
             '1000; all graphs of 4 nodes that contain two given edges',
    'thorough': 'as quick, with vectors of up to 4 entries and more graphs'}
OUTSIDE = 'larger graphs; costs that are neither numbers nor vector costs'
ASSUMPTIONS = ['costs are finite', 'arithmetic is exact, not rounded']
EXPLANATION = (
    'Comparisons and sums of the real cost class run on symbolic entries '
    'and are compared with the lexicographic order; the real search runs '
    'on graphs with symbolic costs and its answer is compared with the '
    'cost of every simple path.')
