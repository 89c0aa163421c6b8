"""C24: systems built from descriptions, and their exports."""
import contextlib
import io
import os
import re
import tempfile
import xml.etree.ElementTree as ET

import pydot
import symx
import z3

from tulip import transys as trs
from tulip.transys import automata, machines, transys
from tulip.transys.export import graph2promela, machine2scxml

AP = ['p', 'home']
LABELS = [None, set(), {'p'}, {'home'}, {'p', 'home'}]


def edges(g, *types):
    return sorted(
        (u, v, *(str(d.get(t)) for t in types))
        for u, v, d in g.edges(data=True))


def system(ctx, g, states, initial, ap, labels, trans, *types):
    ctx.check(set(g) == set(states) and len(list(g.states)) == len(
        states), 'states')
    ctx.check(set(g.states.initial) == set(initial), 'initial states')
    ctx.check(set(g.atomic_propositions) - {True} == set(ap),
              'atomic propositions')
    for u in states:
        ctx.check(set(g.nodes[u]['ap']) == set(labels[u] or ()),
                  'label of a state')
    ctx.check(edges(g, *types) == sorted(trans), 'transitions')
    ctx.check(g.is_consistent(), 'consistent labels')


def fts(ctx):
    """Transition systems from tuples."""
    n = ctx.pick('states', [1, 2, 3])
    prefix = ctx.pick('prefix', [None, 's'])
    S = [['a', 'b', 'c'], [4, 0, 7], ['a b', 'b', ('x', 1)]][
        ctx.pick('names', [0, 1, 2]) if n < 3 else 0][:n]

    def name(u):
        return u if prefix is None else f'{prefix}{u}'
    S0 = [u for u in S if ctx.flag(f'initial{u}')] if n == 1 else [
        S[1:], S[:1], []][ctx.pick('initial', range(3))]
    given = S0
    if len(S0) == 1 and not isinstance(S0[0], tuple) and ctx.flag('single'):
        given = S0[0]
    how = ctx.pick('labels', ['none', 'list', 'pairs'])
    labels = dict.fromkeys(S)
    if how != 'none':
        labels.update((u, LABELS[ctx.pick(
            f'label{i}', [0, 1, 2, 4] if i == 0 else [0, 3])])
            for i, u in enumerate(S))
    # without mutable state in common
    L = [None if labels[u] is None else set(labels[u]) for u in S]
    if how == 'none':
        L = None
    elif how == 'pairs':
        L = list(zip(S, L))
    act = ctx.pick('actions', [None, {'go', 'stop'}]) if n < 3 else {'go'}
    pairs = [(0, 0), (0, 1), (1, 0), (2, 1)]
    trans = list()
    for i, j in pairs:
        if max(i, j) < n and ctx.flag(f'edge{i}{j}'):
            trans.append((S[i], S[j]))
            if act == {'go', 'stop'} and i < j and ctx.flag('two'):
                trans.append((S[i], S[j]))
    acts = ['stop' if act and len(act) == 2 and k % 2 else 'go'
            for k in range(len(trans))]
    if act is not None:
        trans = [(u, v, a) for (u, v), a in zip(trans, acts)]
    ctx.note(S=S, S0=given, L=L, act=act, trans=trans, prefix=prefix)
    g = transys.tuple2fts(S, given, set(AP), L, act, trans, 'sys', prefix)
    ctx.check(g.name == 'sys', 'name')
    want = [(name(u), name(v), *(a or ['None'])) for u, v, *a in trans]
    system(ctx, g, [name(u) for u in S],
           [name(u) for u in S0], AP, {name(u): labels[u] for u in S},
           want, 'sys_actions')
    if act is not None:
        ctx.check(set(g.sys_actions) == act, 'actions')
    ctx.label('built')


WORDS = [None, 'p', 'home', {'p'}, {'p', 'home'}, set()]


def sequences(ctx):
    """Lines and cycles."""
    n = ctx.pick('states', [1, 2, 3, 12])
    L = [WORDS[ctx.pick(f'label{i}', range(6) if n < 3 else [1, 2, 4])]
         for i in range(min(n, 3))]
    # long sequences repeat, and differ at the end
    L = (L * 4)[:n - 1] + L[:1]
    cycle = ctx.flag('cycle')
    m = 0 if cycle else ctx.pick('first', [0, 1, 9])
    given = [set(x) if isinstance(x, set) else x for x in L]
    ctx.note(L=L, cycle=cycle, m=m)
    if cycle:
        g = transys.cycle_labeled_with(given)
    else:
        g = transys.line_labeled_with(given, m) if (
            m) else transys.line_labeled_with(given)
    names = [f's{i}' for i in range(m, m + n)]
    sets = [{x} if isinstance(x, str) else set(x or ()) for x in L]
    trans = list(zip(names, names[1:]))
    if cycle:
        trans.append((names[-1], names[0]))
    system(ctx, g, names, [], set().union(*sets),
           dict(zip(names, sets)), trans)
    # initial states by label
    wanted = [[set()], [{'p'}, {'p', 'home'}]][ctx.flag('wanted')]
    wanted = [x for x in wanted if x <= set(g.atomic_propositions)]
    if n > 1:
        g.states.initial.add(names[1])
    transys.add_initial_states(g, [set(x) for x in wanted])
    ctx.check(set(g.states.initial) == {
        u for u, x in zip(names, sets) if x in wanted} | set(names[1:2]),
        'initial states by label')
    ctx.label('built')


def buchi(ctx):
    """Automata from tuples."""
    n = ctx.pick('states', [1, 2, 3])
    prefix = ctx.pick('prefix', [None, 'q'])
    S = ['a', 'b', 'c'][:n] if ctx.flag('names') else [2, 0, 1][:n]
    S0 = [u for u in S if ctx.flag(f'initial{u}')]
    Sa = [u for u in S if ctx.flag(f'accepting{u}')] if n < 3 else S[1:]
    based = ctx.flag('atomic')
    sigma = set(AP) if based else {'x', 'longer'}
    letters = [None, set(), {'p'}, {'p', 'home'}] if based else [
        'x', 'longer']
    trans = list()
    for i, j in [(0, 0), (0, 1), (1, 0), (2, 2)]:
        if max(i, j) >= n or not ctx.flag(f'edge{i}{j}'):
            continue
        k = ctx.pick(f'letter{i}{j}', range(len(letters))) if (
            n < 3 and i == 0) else 1
        trans.append((S[i], S[j], letters[k]))
    ctx.note(S=S, S0=S0, Sa=Sa, trans=trans, based=based, prefix=prefix)
    g = automata.tuple2ba(
        S, S0, Sa, set(sigma), [
            (u, v, set(x) if isinstance(x, set) else x)
            for u, v, x in trans],
        'name', prefix, based)

    def name(u):
        return u if prefix is None else f'{prefix}{u}'
    ctx.check(g.name == 'name', 'name')
    ctx.check(set(g) == set(map(name, S)), 'states')
    ctx.check(set(g.states.initial) == set(map(name, S0)), 'initial states')
    ctx.check(set(g.accepting) == set(map(name, Sa)), 'accepting states')
    ctx.check(set(
        g.atomic_propositions if based else g.alphabet) == sigma, 'alphabet')
    got = [(u, v, d['letter']) for u, v, d in g.edges(data=True)]
    want = [(name(u), name(v), set() if x is None else x)
            for u, v, x in trans]
    ctx.check(len(got) == len(want) and all(x in got for x in want),
              'transitions')
    ctx.label('built')


def games(ctx):
    """Who moves, and colors."""
    cls = ctx.pick('class', ['game', 'labeled', 'parity'])
    n = ctx.pick('states', [0, 1, 2, 3])
    c = ctx.pick('colors', [1, 2, 3]) if cls == 'parity' else 1
    player = [ctx.pick(f'player{i}', [None, 0, 1] if i == 0 else [0, 1]) for i in range(n)]
    if cls == 'game':
        g = transys.GameGraph([], [])
    elif cls == 'labeled':
        g = transys.LabeledGameGraph()
        g.atomic_propositions |= set(AP)
    else:
        g = automata.ParityGame(c)
    color = dict()
    for i in range(n):
        attr = dict() if player[i] is None else dict(player=player[i])
        if cls == 'labeled':
            attr['ap'] = {'p'} if i else {'home'}
        if cls == 'parity':
            k = ctx.pick(f'color{i}', [None, *range(c)] if i == 0 else range(c))
            if k is not None:
                attr['color'] = k
            color[i] = k or 0
        g.add_node(i, **attr)
    loops = ctx.flag('loops')
    for i in range(n):
        for j in range(n):
            if (i + j) % 2 or loops:
                g.add_edge(i, j)
    ctx.note(cls=cls, player=player, color=color)
    for k in (0, 1):
        states = list(g.player_states(k))
        ctx.check(sorted(states) == [
            i for i in range(n) if (player[i] or 0) == k],
            'states of a player')
    for e in g.edges():
        ctx.check(g.edge_controlled_by(e) == (player[e[0]] or 0),
                  'player that controls an edge')
    for i in range(n):
        if cls == 'labeled':
            ctx.check(g.nodes[i]['ap'] == ({'p'} if i else {'home'}),
                      'label of a state')
        elif cls == 'parity':
            ctx.check(g.nodes[i]['color'] == color[i], 'color')
    if cls == 'parity':
        ctx.check(g.max_color == max(color.values(), default=-1),
                  'maximal color')
        try:
            g.add_node('new', color=c)
        except ValueError:
            pass
        else:
            ctx.check(False, 'color that is not declared')
    ctx.label(cls)


# ------------------------------------------------------------ exports


def program(ctx, text):
    """Read statements `goto` of Promela."""
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    text = re.sub(r'printf\s*\(\s*"(?:[^"\\]|\\.)*"\s*\)\s*;?', '', text)
    props = set(re.findall(r'(?:bool|bit)\s+(\w+)\s*;', text))
    head, = re.findall(r'active\s+proctype\s+(\w+)\s*\(\s*\)\s*\{', text)
    body = text[text.index('{', text.index('proctype')) + 1:
                text.rindex('}')]
    parts = re.split(r'(\w+)\s*:(?!:)', body)
    blocks = {None: parts[0]}
    for k, v in zip(parts[1::2], parts[2::2]):
        ctx.check(k not in blocks, 'label of Promela twice')
        blocks[k] = v
    options = dict()
    for k, v in blocks.items():
        v = v.strip().rstrip(';').strip()
        if v in ('false', '0', 'assert(false)'):
            options[k] = []
            continue
        m = re.fullmatch(r'if\b(.*)\bfi', v, flags=re.S)
        ctx.check(m is not None, 'statement of Promela')
        rows = m.group(1).split('::')[1:]
        ctx.check(len(rows) > 0, 'selection without options')
        options[k] = list()
        for row in rows:
            row = row.strip()
            if row.startswith('atomic'):
                row = row[len('atomic'):].strip().strip('{}')
            change = dict(re.findall(
                r'(?<![\w=!<>])(\w+)\s*=(?!=)\s*([^;]*?)\s*;', row))
            change.pop('goto', None)
            target, = re.findall(r'goto\s+(\w+)', row)
            options[k].append((change, target))
    return head, props, options


def promela(ctx):
    """Transition systems as Promela."""
    n = ctx.pick('states', [1, 2, 3])
    S = ['s0', 'at home', 's2'][:n]
    g = trs.FTS()
    props = ctx.pick('propositions', [['p'], AP, []]) if n < 3 else ['p']
    g.atomic_propositions |= set(props)
    label = dict()
    for u in S:
        label[u] = {p for p in props if ctx.flag(f'{u}.{p}')}
        g.states.add(u, ap=set(label[u]))
    S0 = [u for u in S if u != 's2' and ctx.flag(f'initial {u}')] or [S[-1]]
    g.states.initial |= S0
    g.sys_actions |= {'go', 'stop'}
    trans = list()
    for i, j in [(0, 0), (0, 1), (1, 0), (2, 1), (0, 2)]:
        if max(i, j) < n and ctx.flag(f'edge{i}{j}'):
            g.transitions.add(S[i], S[j], sys_actions='go')
            trans.append((S[i], S[j]))
            if (i, j) == (0, 1) and n == 2 and ctx.flag('two'):
                g.transitions.add(S[i], S[j], sys_actions='stop')
    g.name = 'thing'
    how = ctx.pick('how', ['string', 'name', 'file', 'extension']) if (
        n == 1 and len(props) < 2) else 'string'
    ctx.note(label=label, initial=S0, trans=trans, how=how)
    with contextlib.redirect_stdout(io.StringIO()), (
            tempfile.TemporaryDirectory()) as d:
        if how == 'string':
            text = graph2promela.fts2promela(g)
        elif how == 'name':
            text = graph2promela.fts2promela(g, 'other')
        else:
            f = os.path.join(d, 'a.pml' if how == 'extension' else 'a')
            if how == 'extension':
                g.save(f)
            else:
                g.save(f, fileformat='pml')
                f += '.pml'
            ctx.check(os.path.exists(f), 'file')
            with open(f) as fd:
                text = fd.read()
    head, declared, options = program(ctx, text)
    ctx.check(head == ('other' if how == 'name' else 'thing'),
              'name of process')
    ctx.check(declared == set(props), 'declared propositions')
    # steps of the program from labeled states, as formulas
    named = [u.replace(' ', '_') for u in S]
    ctx.check(set(options) == {None, *named}, 'labels of process')
    k, k1 = z3.Int('k'), z3.Int('k1')
    now = {p: z3.Bool(f'now.{p}') for p in props}
    then = {p: z3.Bool(f'then.{p}') for p in props}

    def value(text):
        if text.startswith('!'):
            return z3.Not(value(text[1:].strip()))
        if text in now:
            return now[text]
        ctx.check(text in ('0', '1', 'true', 'false'), 'assigned value')
        return z3.BoolVal(text in ('1', 'true'))

    def program_steps(rows):
        ctx.check(all(v in named for _, v in rows), 'goto a missing label')
        return z3.Or([z3.And(k1 == named.index(v), *(
            then[p] == value(change.get(p, p))
            for p in props)) for change, v in rows])

    def at(u, i, ap):
        return z3.And(i == S.index(u), *(
            ap[p] == (p in label[u]) for p in props))
    given = z3.Or([z3.And(at(u, k, now), at(v, k1, then))
                   for u, v in trans])
    steps = z3.Or([z3.And(k == named.index(i), program_steps(rows))
                   for i, rows in options.items() if i is not None])
    inside = z3.Or([at(u, k, now) for u in S])
    ctx.check(ctx.sat(inside, given != steps) is None, 'steps of process')
    # propositions of processes are initially false
    start = z3.And([z3.Not(x) for x in now.values()])
    ctx.check(ctx.sat(
        start, program_steps(options[None]) != z3.Or([
            at(u, k1, then) for u in S0])) is None,
        'initial states of process')
    ctx.label('process')


def scxml(ctx):
    """Mealy machines as state charts."""
    n = ctx.pick('states', [1, 2, 3])
    g = machines.MealyMachine()
    g.add_inputs(dict(a={0, 1}))
    g.add_outputs(dict(b={0, 1, 2}))
    S = ['s0', 's1', 's2'][:n]
    g.states.add_from(S)
    init = ctx.pick('initial', S)
    g.states.initial.add(init)
    trans = list()
    for i, j in [(0, 0), (0, 1), (1, 0), (2, 1)]:
        if max(i, j) < n and ctx.flag(f'edge{i}{j}'):
            for a in (0, 1):
                if a == 0 or i < j or n < 3 and ctx.flag(f'both{i}{j}'):
                    b = ctx.pick(f'b{i}{j}{a}', [0, 2]) if i == 0 else 1
                    g.transitions.add(S[i], S[j], a=a, b=b)
                    trans.append((S[i], S[j], a, b))
    ctx.note(trans=trans, initial=init)
    if ctx.flag('file'):
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'm.scxml')
            g.save(f)
            with open(f) as fd:
                text = fd.read()
    else:
        text = machine2scxml.mealy2scxml(g)
    try:
        root = ET.fromstring(text)
    except ET.ParseError:
        root = None
    ctx.check(root is not None, 'XML is well formed')
    ns = '{http://www.w3.org/2005/07/scxml}'
    ctx.check(root.tag == f'{ns}scxml', 'root of state chart')
    ctx.check(root.attrib['initial'] == init, 'initial state')
    nodes = root.findall(f'{ns}state')
    ctx.check(sorted(x.attrib['id'] for x in nodes) == S, 'states')
    got = list()
    for x in nodes:
        for t in x.findall(f'{ns}transition'):
            d = dict(re.findall(
                r"['\"]?(\w+)['\"]?\s*(?::|==|=)\s*(\w+)",
                t.attrib['cond']))
            got.append((x.attrib['id'], t.attrib['target'],
                        int(d['a']), int(d['b'])))
    ctx.check(sorted(got) == sorted(trans), 'transitions')
    ctx.label('chart')


def strip(s):
    return s.strip('"')


def dot(ctx):
    """Graphs drawn by GraphViz."""
    kind = ctx.pick('kind', ['fts', 'ba'])
    n = ctx.pick('states', [1, 2, 3])
    S = ['s0', 'a b', 7][:n]
    g = trs.FTS() if kind == 'fts' else trs.BA()
    g.atomic_propositions |= set(AP)
    label = dict()
    for u in S:
        g.states.add(u)
        if kind == 'fts':
            label[u] = LABELS[ctx.pick(f'label{u}', [2, 4] if n == 3 else [1, 2, 4])]
            g.nodes[u]['ap'] = set(label[u])
    S0 = {u for u in S if u == 's0' or ctx.flag(f'initial{u}')} if (
        ctx.flag('initial')) else set()
    g.states.initial |= S0
    acc = set()
    if kind == 'ba':
        acc = {u for u in S if ctx.flag(f'accepting{u}')}
        g.accepting |= acc
    else:
        g.sys_actions |= {'go', 'stop'}
    trans = list()
    for i, j in [(0, 0), (0, 1), (2, 1)]:
        if max(i, j) < n and ctx.flag(f'edge{i}{j}'):
            for k in range(1 + (i == 0 and ctx.flag(f'two{i}{j}'))):
                x = ['go', 'stop'][k] if kind == 'fts' else [
                    {'p'}, {'home'}][k]
                g.add_edge(S[i], S[j], **{
                    'sys_actions' if kind == 'fts' else 'letter': x})
                trans.append((str(S[i]), str(S[j]), (
                    x if kind == 'fts' else list(x)[0])))
    ctx.note(kind=kind, trans=trans, initial=S0, accepting=acc)
    d, = pydot.graph_from_dot_data(g.dot_str())
    nodes = {strip(x.get_name()): x for x in d.get_nodes()}
    for k in ('graph', 'node', 'edge', '\\n'):
        nodes.pop(k, None)
    phantom = {k for k, x in nodes.items() if strip(
        x.get('shape') or '') == 'none'}
    ctx.check(set(nodes) - phantom == set(map(str, S)), 'nodes')
    entry, got = list(), list()
    for e in d.get_edges():
        u, v = strip(e.get_source()), strip(e.get_destination())
        if u in phantom:
            entry.append(v)
            continue
        text = e.get('label') or ''
        got.append((u, v, *re.findall(r'\b(go|stop|p|home)\b', text)))
    ctx.check(sorted(entry) == sorted(map(str, S0)), 'initial states')
    ctx.check(sorted(got) == sorted(trans), 'edges')
    for u in S:
        x = nodes[str(u)]
        if kind == 'fts':
            shown = x.get('label').split('\\n')[-1]
            ctx.check(set(re.findall(r'\b(p|home)\b', shown)) == label[u],
                      'label of a node')
        else:
            ctx.check((strip(x.get('shape')) == 'doublecircle') == (
                u in acc), 'accepting states')
    ctx.label('graph')


BOUNDS = dict(
    quick='up to 3 states (lines and cycles up to 12); '
    '2 atomic propositions, any labels from those '
    'listed in harnesses; up to 5 transitions',
    thorough='as quick')
OUTSIDE = (
    'Systems with more states. Layout and colors of drawings, LaTeX. '
    'Names of states that are equal as text, or that are no identifiers '
    'of Promela (other than spaces).')
ASSUMPTIONS = [
    'Promela: a process starts with propositions false, and follows its '
    'if-statements with goto; the text is read by a parser for this form',
    'a string given as label is the singleton of that proposition']
EXPLANATION = (
    'Constructors of systems and exporters run for every description '
    'within bounds; contents of the constructed graph are compared to the '
    'description, and the exported text is parsed and compared to the '
    'graph.')


def harnesses(tier):
    H = symx.Harness
    return [
        H('fts', fts, ['built']),
        H('sequences', sequences, ['built']),
        H('buchi', buchi, ['built']),
        H('games', games, ['game', 'labeled', 'parity']),
        H('promela', promela, ['process']),
        H('scxml', scxml, ['chart']),
        H('dot', dot, ['graph'])]
