"""C12: products of automata and transition systems."""
import symx

from tulip import transys
from tulip.transys import automata, products

TS_STATES = [['s1', 's10', 's'], [('a', 0), 'b', 0]]
BA_STATES = [['q', 'q1', 'q10'], [0, 'T0', (1, 's')]]
# shapes of transition systems, as (edges, initial)
TS_SHAPES = [
    ([(0, 1), (1, 0)], [0]),
    ([(0, 0), (0, 1)], [0]),
    ([(0, 1), (1, 2), (2, 0), (1, 1)], [0, 1]),
    ([(0, 1), (0, 2)], [0]),
    ([(0, 1), (0, 2), (2, 2), (1, 0)], [0]),
    ([], [0, 2]),
    ([(1, 0), (0, 1), (2, 1)], []),
]
GUARDS = ['none', 'empty', 'p', 'p q', 'any', 'both']
LETTERS = {
    'none': [], 'empty': [set()], 'p': [{'p'}], 'p q': [{'p', 'q'}],
    'any': [{True}], 'both': [set(), {'p'}]}
LABELS = [set(), {'p'}, {'p', 'q'}]


def holds(letter, label):
    return letter == {True} or letter == label


def make(ctx, ts_shapes, guards, ba_shapes, labels,
         aps=('p', 'q', True)):
    shape, kind = ctx.pick('ts shape', ts_shapes)
    edges, init = TS_SHAPES[shape]
    names = TS_STATES[shape % 2]
    used = sorted({0, *init} | {i for e in edges for i in e})
    if kind == 'typed':
        ts = transys.FTS(
            env_actions=[dict(name='env_move', values={'l', 'r'})],
            sys_actions=[dict(name='sys_move', values={'u'})])
    else:
        ts = transys.FTS()
        ts.sys_actions.add_from(['go', 'stop'])
    ts.atomic_propositions.add_from(['p', 'q'])
    label = dict()
    for i in used:
        label[i] = ctx.pick(f'label{i}', labels)
        ts.states.add(names[i], ap=set(label[i]))
    ts.states.initial.add_from([names[i] for i in init])
    acts = dict()
    for k, (i, j) in enumerate(edges):
        if kind == 'none':
            ds = [dict()]
        elif kind == 'sys':
            ds = [dict(sys_actions=['go', 'stop'][k % 2])]
        elif kind == 'parallel':
            ds = [dict(sys_actions='go'), dict(sys_actions='stop')]
        else:
            ds = [dict(env_move='lr'[k % 2], sys_move='u')]
        for d in ds:
            ts.transitions.add(names[i], names[j], attr_dict=dict(d))
        acts[names[i], names[j]] = ds
    bnames = BA_STATES[(shape + len(kind)) % 2]
    bedges, binit = ctx.pick('ba shape', ba_shapes)
    ba = automata.BuchiAutomaton()
    ba.atomic_propositions.add_from(aps)
    n = max([*binit, *(i for e in bedges for i in e)]) + 1
    bnames = bnames[:n]
    ba.states.add_from(bnames)
    ba.states.initial.add_from([bnames[i] for i in binit])
    acc = bnames[ctx.pick('accepting', range(n)):][:1]
    ba.accepting.add_from(acc)
    delta = list()
    for i, j in bedges:
        g = ctx.pick(f'guard {i} {j}', guards)
        for x in LETTERS[g]:
            ba.transitions.add(bnames[i], bnames[j], letter=set(x))
            delta.append((bnames[i], x, bnames[j]))
    ref = reference(
        {names[i]: label[i] for i in used},
        [names[i] for i in init], acts,
        delta, [bnames[i] for i in binit])
    return ts, ba, acc, ref


def reference(label, init, acts, delta, q0s):
    """Reachable product."""
    first = {
        (s, q) for s in init for p, x, q in delta
        if p in q0s and holds(x, label[s])}
    states = set(first)
    trans = set()
    todo = list(first)
    while todo:
        s, q = todo.pop()
        for (u, v) in acts:
            if u != s:
                continue
            for p, x, r in delta:
                if p != q or not holds(x, label[v]):
                    continue
                t = (v, r)
                trans.add(((s, q), t))
                if t not in states:
                    states.add(t)
                    todo.append(t)
    return dict(label=label, first=first, states=states, trans=trans,
                acts=acts)


def check_ba(ctx, prod, acc, ref, what):
    ctx.check(set(prod.states) == ref['states'], f'states of {what}')
    ctx.check(set(prod.states.initial) == ref['first'],
              f'initial states of {what}')
    ctx.check(set(prod.accepting) == {
        x for x in ref['states'] if x[1] in acc},
        f'accepting states of {what}')
    edges = prod.transitions.find()
    ctx.check({(u, v) for u, v, _ in edges} == ref['trans'],
              f'transitions of {what}')
    ctx.check(len(edges) == len(ref['trans']),
              f'repeated transitions of {what}')
    for u, v, d in edges:
        ctx.check(d['letter'] == ref['label'][v[0]], f'letters of {what}')


def note(ctx, ref):
    if any(x not in {u for u, _ in ref['trans']} for x in ref['states']):
        ctx.label('blocked')
    if len(ref['trans']) > 3:
        ctx.label('several transitions')
    if not ref['states']:
        ctx.label('empty')


def buchi(name, *args):
    def fn(ctx):
        ts, ba, acc, ref = make(ctx, *args)
        how = ctx.pick('product', ['eager', 'system', 'on the fly'])
        if how == 'eager':
            prod = products.ba_ts_sync_prod(ba, ts)
            check_ba(ctx, prod, acc, ref, 'the product')
            ctx.check(isinstance(prod, automata.BuchiAutomaton),
                      'type of the product')
        elif how == 'system':
            prod, persistent = products.ts_ba_sync_prod(ts, ba)
            ctx.check(set(prod.states) == ref['states'],
                      'states of the system')
            ctx.check(set(prod.states.initial) == ref['first'],
                      'initial states of the system')
            ctx.check(set(persistent) == {
                x for x in ref['states'] if x[1] in acc},
                'persistent states')
            got = prod.transitions.find()
            ctx.check({(u, v) for u, v, _ in got} == ref['trans'],
                      'transitions of the system')
            for u, v in ref['trans']:
                a = [dict(d) for x, y, d in got if (x, y) == (u, v)]
                b = ref['acts'][u[0], v[0]]
                ctx.check(len(a) == len(b) and all(d in a for d in b),
                          'actions of the system')
            for x in prod.states:
                ctx.check(set(prod.states[x]['ap']) == {x[1]},
                          'labels of the system')
        else:
            prod = products.OnTheFlyProductAutomaton(ba, ts)
            ctx.check(set(prod.states) == ref['first'],
                      'states at first')
            check_acc(ctx, prod, acc)
            if ctx.flag('step by step'):
                todo = sorted(prod.states, key=str)
                while todo:
                    s, q = todo.pop()
                    before = set(prod.states)
                    new = prod.add_successors(s, q)
                    post = {v for u, v in ref['trans'] if u == (s, q)}
                    ctx.check(set(prod.states) == before | post,
                              'states after adding successors')
                    ctx.check(set(new) == post - before,
                              'new successors')
                    ctx.check(set(prod.states.post([(s, q)])) == post,
                              'successors')
                    check_acc(ctx, prod, acc)
                    todo.extend(sorted(new, key=str))
            else:
                prod.add_all_states()
            check_ba(ctx, prod, acc, ref, 'the product on the fly')
        # operands are not changed
        ctx.check(set(ts.states) == set(ref['label'])
                  and all(ts.states[s]['ap'] == x
                          for s, x in ref['label'].items()),
                  'the system changed')
        ctx.check(set(ba.accepting) == set(acc), 'the automaton changed')
        note(ctx, ref)
    return symx.Harness(
        name, fn, ['blocked', 'empty'] + (
            ['several transitions'] if name in ('automata', 'systems', 'chains') else []))


def check_acc(ctx, prod, acc):
    ctx.check(set(prod.accepting) == {
        x for x in prod.states if x[1] in acc},
        'accepting states so far')


FULL2 = ([(0, 0), (0, 1), (1, 0), (1, 1)], [0])
CHAIN3 = ([(0, 1), (1, 2), (2, 0), (1, 1), (0, 2)], [0])
INITS = ([(0, 1), (1, 1), (1, 0)], [0, 1])
NOINIT = ([(0, 1)], [])


SYSTEMS = [
    (0, 'none'), (1, 'sys'), (2, 'typed'), (3, 'parallel'), (4, 'none'),
    (5, 'none'), (6, 'sys'), (4, 'typed')]


def harnesses(tier):
    if tier == 'thorough':
        return [
            buchi('automata', [(i, 'none') for i in (0, 2, 3, 4)], GUARDS,
                  [FULL2], LABELS),
            buchi('systems', [(i, k) for i in range(7) for k in (
                'none', 'sys', 'parallel', 'typed')], GUARDS[1:5],
                [INITS, NOINIT], LABELS),
            buchi('chains', SYSTEMS, GUARDS[1:5], [CHAIN3], LABELS[:2])]
    return [
        buchi('automata', [(0, 'none')], ['none', 'empty', 'p', 'any'],
              [FULL2], LABELS[:2]),
        buchi('systems', SYSTEMS, ['empty', 'p', 'any'], [INITS, NOINIT],
              LABELS[:2]),
        buchi('letters', [(1, 'typed'), (5, 'none')], GUARDS,
              [([(0, 1), (0, 0)], [0])], LABELS),
        # the system has a proposition that the automaton has not
        buchi('undeclared', [(1, 'none'), (5, 'none')],
              ['none', 'empty', 'p', 'any'], [([(0, 1), (0, 0)], [0])],
              LABELS, ('p', True)),
    ]


BOUNDS = {
    'quick': 'transition systems in 7 shapes with up to 3 states, any labels '
             'from 3, without actions, with one or two action labels per '
             'transition or with two kinds of actions; Buechi automata with '
             '2 states and any guards from 5 on 4 transitions, or from 3 on '
             '3 transitions with 2 or no initial states; any accepting '
             'states; 2 naming schemes',
    'thorough': 'as quick, with all 6 guards, 4 guards, and automata with 3 '
                'states'}
OUTSIDE = (
    'automata that are not based on atomic propositions; the disabled '
    'module `algorithms`; systems larger than the bounds')
ASSUMPTIONS = [
    'a guard {True} allows any letter, as the code documents']
EXPLANATION = (
    'The real products are built for symbolically chosen systems and '
    'automata, and compared with the definition of the product.')
