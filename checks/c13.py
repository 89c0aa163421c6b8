"""C13: compositions of models, and policies."""
import itertools
import operator

import symx
import z3

from c14 import real
from c09 import andz

from tulip import transys
from tulip.transys import compositions
from tulip.transys.compositions import KS, WKS, MC, MDP

NAMES = [['a', 'ab'], [0, 'a'], [('s', 1), 's']]
APS = [['p', 'x'], ['x', 'y'], ['p']]
# edges, and actions on each, of a model with two states
SHAPES = {
    KS: [[(0, 1), (1, 0)], [(0, 0), (0, 1)], [(1, 1), (1, 0), (0, 0)]],
    MDP: [
        [(0, 1, 'u'), (0, 0, 'u'), (0, 0, 'v'), (1, 1, 'v')],
        [(0, 1, 'u'), (0, 1, 'v'), (1, 0, 'u')],
        [(1, 0, 'v'), (1, 1, 'v')]]}
# names of the actions of each model, with falsy ones
ACTIONS = [
    dict(u='u', v='v', w='w'), dict(u=0, v='', w=1),
    dict(u=(), v='u', w=0)]
INITIAL = [[0], [0, 1], [1], []]


def same(x, y):
    return real(x) == real(y)


def make(ctx, cls, k, shape, inits, labels):
    """Model with symbolic probabilities or costs."""
    m = cls()
    names = NAMES[k]
    m.atomic_propositions.add_from(APS[k])
    if cls is MDP:
        m.actions.add_from(ACTIONS[k].values())
    ap = dict()
    for i, s in enumerate(names):
        ap[s] = set(ctx.pick(f'm{k}.label{i}', labels)) & set(APS[k])
        m.states.add(s, ap=set(ap[s]))
    init = [names[i] for i in ctx.pick(f'm{k}.initial', inits)]
    m.states.initial.add_from(init)
    edges = list()
    for n, e in enumerate(SHAPES[MDP if cls is MDP else KS][shape]):
        d = dict()
        if cls is MDP:
            d['action'] = ACTIONS[k][e[2]]
        if cls in (MC, MDP):
            d['probability'] = ctx.real(f'm{k}.e{n}', 0, 1)
        if cls is WKS:
            d['cost'] = ctx.real(f'm{k}.e{n}', 0, 9)
        m.transitions.add(names[e[0]], names[e[1]], dict(d))
        edges.append((names[e[0]], names[e[1]], d))
    return m, dict(cls=cls, states=names, ap=ap, init=init, edges=edges,
                   aps=set(APS[k]),
                   actions=set(ACTIONS[k].values()) if cls is MDP else None)


def product(refs, ops):
    kinds = [r['cls'] for r in refs]
    cls = next(c for c in (MDP, MC, WKS, KS) if c in kinds)
    edges = list()
    for ts in itertools.product(*(r['edges'] for r in refs)):
        d = dict()
        for k in ('probability', 'cost'):
            v = [t[2][k] for t in ts if k in t[2]]
            if v:
                f = ops.get(k) or (
                    operator.mul if k == 'probability' else operator.add)
                x = v[0]
                for y in v[1:]:
                    x = f(x, y)
                d[k] = x
        acts = [t[2]['action'] for t in ts if 'action' in t[2]]
        if acts:
            d['action'] = tuple(acts) if len(acts) > 1 else acts[0]
        edges.append((tuple(t[0] for t in ts), tuple(t[1] for t in ts), d))
    acts = [list(r['actions']) for r in refs if r['actions']]
    return dict(
        cls=cls,
        states=list(itertools.product(*(r['states'] for r in refs))),
        ap={
            s: set().union(*(r['ap'][x] for r, x in zip(refs, s)))
            for s in itertools.product(*(r['states'] for r in refs))},
        init=list(itertools.product(*(r['init'] for r in refs))),
        edges=edges, aps=set().union(*(r['aps'] for r in refs)),
        actions=None if cls is not MDP else (
            set(acts[0]) if len(acts) == 1
            else set(itertools.product(*acts))))


def policy_on(ref, policy):
    edges = list()
    for u, v, d in ref['edges']:
        if d['action'] == policy[u]:
            d = dict(d)
            d.pop('action')
            edges.append((u, v, d))
    return dict(ref, cls=MC, edges=edges, actions=None)


def compare(ctx, m, ref, what):
    ctx.check(type(m) is ref['cls'], f'type of the {what}')
    ctx.check(set(m.states) == set(ref['states']), f'states of the {what}')
    ctx.check(len(m.states) == len(ref['states']), f'number of states')
    ctx.check(set(m.states.initial) == set(ref['init']),
              f'initial states of the {what}')
    ctx.check(set(m.atomic_propositions) == ref['aps'],
              f'propositions of the {what}')
    for s in ref['states']:
        ctx.check(set(m.states[s]['ap']) == ref['ap'][s],
                  f'labels of the {what}')
    if ref['actions'] is not None:
        ctx.check(set(m.actions) == ref['actions'],
                  f'actions of the {what}')
    got = list(m.edges(data=True))
    ctx.check(len(got) == len(ref['edges']),
              f'number of transitions of the {what}')
    rest = list(got)
    for u, v, d in ref['edges']:
        found = [
            e for e in rest if e[0] == u and e[1] == v
            and e[2].get('action', None) == d.get('action', None)]
        ctx.check(len(found) == 1, f'transitions of the {what}')
        if not found:
            continue
        rest.remove(found[0])
        f = found[0][2]
        ctx.check(set(f) == set(d), f'kinds of labels of the {what}')
        for k in d:
            if k != 'action' and k in f:
                ctx.check(same(f[k], d[k]), f'{k} of the {what}')
    ctx.check(not rest, f'other transitions of the {what}')


def composition(name, kinds, shapes, inits, labels):
    def fn(ctx):
        types = ctx.pick('kinds', kinds)
        sh = ctx.pick('shapes', shapes)
        pairs = [
            make(ctx, c, k, (sh + k * (sh + 1)) % 3, inits, labels)
            for k, c in enumerate(types)]
        models = [m for m, _ in pairs]
        refs = [r for _, r in pairs]
        ops = dict()
        if WKS in types:
            if ctx.flag('operation'):
                ops = dict(cost=first_plus_twice)
            given = dict(ops)
            prod = compositions.synchronous_parallel(models, given)
            ctx.check(given == ops, 'changes the operations of the caller')
        else:
            prod = compositions.synchronous_parallel(models)
        ref = product(refs, {'cost': combine} if ops else ops)
        compare(ctx, prod, ref, 'composition')
        for m, r in zip(models, refs):
            compare(ctx, m, r, 'given model')
        # labels of the composition are its own
        s = ref['states'][0]
        prod.states[s]['ap'].add('p') if 'p' in ref['aps'] else None
        for m, r in zip(models, refs):
            for x in r['states']:
                ctx.check(set(m.states[x]['ap']) == r['ap'][x],
                          'labels are shared')
        if MDP in types:
            ctx.label('decision process')
        if len(types) > 2:
            ctx.label('three models')
    return symx.Harness(
        name, fn, (['decision process'] if any(MDP in k for k in kinds)
                   else []),
        opaque_repr='all')


def combine(x, y):
    return x + 2 * y


def first_plus_twice(*values):
    values = [v for v in values if v is not None]
    x = values[0]
    for y in values[1:]:
        x = combine(x, y)
    return x


def policies(composed):
    def fn(ctx):
        sh = ctx.pick('shape', range(3))
        if composed:
            types = ctx.pick('kinds', [(MDP, MC), (KS, MDP), (MDP, MDP)])
            pairs = [
                make(ctx, c, k, (sh + k) % 3, [[0]], [['p']])
                for k, c in enumerate(types)]
            model = compositions.synchronous_parallel(
                [m for m, _ in pairs])
            ref = product([r for _, r in pairs], dict())
            a, b = ACTIONS[:2]
            acts = [(a if types[0] is MDP else b)[x] for x in 'uv']
            if types == (MDP, MDP):
                acts = [(a['u'], b['v']), (a['v'], b['v']), (a['u'], b['u'])]
        else:
            k = ctx.pick('k', range(3))
            model, ref = make(ctx, MDP, k, sh, INITIAL, [[], ['p', 'x']])
            acts = list(ACTIONS[k].values())
        policy = {
            s: ctx.pick(f'policy {i}', acts)
            for i, s in enumerate(ref['states'])}
        mc = compositions.apply_policy(model, policy)
        r = policy_on(ref, policy)
        compare(ctx, mc, r, 'chain')
        compare(ctx, model, ref, 'given process')
        if 'p' in ref['aps']:
            mc.states[ref['states'][0]]['ap'].add('p')
            compare(ctx, model, ref, 'given process afterwards')
        if len(r['edges']) < len(ref['edges']):
            ctx.label('restricted')
    return symx.Harness(
        'policies ' + ('composed' if composed else 'single'), fn,
        ['restricted'], opaque_repr='all')


def rejects(ctx):
    """Probabilities outside [0, 1], costs below 0, and mixed models."""
    cls = ctx.pick('class', [MC, MDP, WKS])
    m = cls()
    m.states.add_from('ab')
    key = 'cost' if cls is WKS else 'probability'
    d = dict()
    if cls is MDP:
        m.actions.add('u')
        d['action'] = ctx.pick('action', ['u', 'v'])
    kind = ctx.pick('kind', ['number', 'text', 'none'])
    ok = z3.BoolVal(d.get('action') != 'v')
    if kind == 'number':
        d[key] = ctx.real('value', -2, 3)
        x = real(d[key])
        ok = z3.And(ok, x >= 0) if cls is WKS else z3.And(ok, x >= 0, x <= 1)
    elif kind == 'text':
        d[key] = '1'
        ok = z3.BoolVal(False)
    try:
        m.transitions.add('a', 'b', dict(d))
    except ValueError:
        ctx.check(z3.Not(ok), 'rejects a valid label')
        ctx.check(len(m.transitions.find()) == 0, 'added all the same')
        ctx.label('rejected')
        return
    ctx.check(ok, 'accepts an invalid label')
    (u, v, f), = m.transitions.find()
    ctx.check(set(f) == set(d), 'labels')
    if kind == 'number':
        ctx.check(same(f[key], d[key]), 'value')
        ctx.label('accepted')


def harnesses(tier):
    t = tier == 'thorough'
    two = [(KS, KS), (WKS, WKS), (WKS, KS), (KS, WKS), (MC, MC), (MC, KS),
           (KS, MC), (MDP, MC), (MC, MDP), (MDP, KS), (KS, MDP), (MDP, MDP)]
    three = [(KS, KS, KS), (WKS, KS, WKS), (MC, KS, MC), (MDP, MC, KS),
             (MC, MDP, MDP), (KS, MDP, KS), (MDP, KS, MC), (MC, MC, MC),
             (MDP, MDP, MDP)]
    full = [[], ['p'], ['p', 'x']]
    return [
        composition('two models', two, range(3), INITIAL,
                    full if t else [[], ['x']]),
        composition('three models', three, range(3) if t else [0, 1],
                    [[0], [0, 1]] if t else [[0, 1]],
                    [[], ['p']] if t else [['p', 'x']]),
        composition('one model', [(KS,), (WKS,), (MC,), (MDP,)], range(3),
                    INITIAL, full),
        policies(False), policies(True),
        symx.Harness('rejects', rejects, ['accepted', 'rejected'],
            opaque_repr='all'),
    ]


BOUNDS = {
    'quick': '1 to 3 models with 2 states each, in 3 shapes with up to 4 '
             'transitions; all initial states and labels of 2 models; any '
             'real probabilities and costs; all policies',
    'thorough': 'as quick, with more labels and initial states'}
OUTSIDE = (
    'models with more than 2 states; products of floating point numbers, '
    'which round; attributes other than cost, probability and action')
ASSUMPTIONS = ['probabilities and costs are exact real numbers']
EXPLANATION = (
    'The real composition runs on models with symbolic probabilities and '
    'costs; the solver compares every label of every transition with the '
    'product that the definition prescribes.')
