"""C09: running and converting finite-state machines."""
import contextlib
import io
import re
import sys

import symx
import z3

from tulip.transys import machines
from tulip import transys

STATES = ['s1', 's10', 'Sinit', 0, 'a']


class Interval:
    """Port type: integers, membership stays symbolic."""

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi

    def __contains__(self, x):
        return bool((x >= self.lo) & (x <= self.hi)) if isinstance(
            x, symx.SymInt) else self.lo <= x <= self.hi

    def __iter__(self):
        return iter(range(self.lo, self.hi + 1))

    def __len__(self):
        return self.hi - self.lo + 1


def lit(v):
    return symx.lift(v)


def andz(xs):
    return z3.And(z3.BoolVal(True), *xs)


def orz(xs):
    return z3.Or(z3.BoolVal(False), *xs)


DOMS = dict(x=(0, 2), y=(0, 1), u=(0, 2), v=(0, 1))
SIDE = dict(inputs=['x', 'y'], outputs=['u', 'v'])


def ports(names, sym=True):
    return {k: Interval(*DOMS[k]) for k in names}


def symbolic(ctx, name, var):
    return ctx.int(f'{name}.{var}', *DOMS[var])


def mealy_machine(ctx, states, n_edges, ins, outs, kind='', picks=None,
                  initial=0):
    """Real machine and list of its distinct edges."""
    m = machines.MealyMachine()
    m.add_inputs(ports(ins))
    m.add_outputs(ports(outs))
    m.states.add_from(states)
    m.states.initial.add(states[initial])
    edges = list()
    for i in range(n_edges):
        a = picks[i][0] if picks else ctx.pick(f'{kind}e{i}.from', states)
        b = picks[i][1] if picks and len(picks[i]) > 1 else ctx.pick(
            f'{kind}e{i}.to', states)
        d = {k: symbolic(ctx, f'{kind}e{i}', k) for k in ins + outs}
        same = orz(
            andz(lit(d[k]) == lit(f[k]) for k in d)
            for p, q, f in edges if (p, q) == (a, b))
        ctx.assume(z3.Not(same))
        m.transitions.add(a, b, dict(d))
        edges.append((a, b, d))
    return m, edges


def reaction(n_edges):
    def fn(ctx):
        states = STATES[:2] + [0]
        src, picks = ctx.pick('edges', [
            ('s1', [('s1', 's10'), ('s10', 0), ('s1', 's1'), ('s1', 0)]),
            ('s10', [('s1', 's1'), ('s10', 's10'), ('s10', 0), ('s1', 0)]),
            (0, [(0, 's10'), (0, 's10'), ('s10', 0), (0, 's1')])])
        ins = ['x', 'y']
        lazy, outs, given = ctx.pick('call', [
            ('reaction', ['u'], ins), ('reaction', ['u', 'v'], ins),
            ('lazy', ['u', 'v'], ['x']), ('lazy', ['u'], []),
            ('part', ['u'], ['y']), ('lazy', ['v'], ins)])
        m, edges = mealy_machine(ctx, states, n_edges, ins, outs,
                                 picks=picks)
        inp = {k: symbolic(ctx, 'in', k) for k in given}
        enabled = [
            andz([z3.BoolVal(a == src)] + [
                lit(d[k]) == lit(inp[k]) for k in given])
            for a, b, d in edges]
        n = z3.Sum([z3.If(e, 1, 0) for e in enabled])
        asked = dict(inp)
        try:
            if lazy == 'reaction':
                r = m.reaction(src, inp)
            elif lazy == 'lazy':
                r = m.reaction(src, inp, lazy=True)
            else:
                r = m.reactionpart(src, inp)
        except ValueError:
            ctx.label('rejected')
            ctx.check(n != 1, 'rejects an input that one transition matches')
            return
        ctx.label('reacts')
        nxt, out = r
        ctx.note(edges=[(a, b) for a, b, d in edges], got=nxt)
        ctx.check(n == 1, 'reacts though not exactly one transition matches')
        ctx.check(set(out) == set(outs), 'reports the output ports')
        ctx.check(andz(
            z3.Implies(e, andz(
                [z3.BoolVal(b == nxt)] +
                [lit(out[k]) == lit(d[k]) for k in outs]))
            for e, (a, b, d) in zip(enabled, edges)),
            'successor and outputs of the matching transition')
        ctx.check(andz(lit(inp[k]) == lit(asked[k]) for k in asked),
                  'leaves the inputs as they are')
    return symx.Harness('reaction', fn, ['reacts', 'rejected'],
                        opaque_repr=True)


def chain(ctx, m, edges, states, word, start):
    """z3: index of state after each step, or -1 when stuck."""
    cur = z3.IntVal(states.index(start))
    seq = list()
    for inp in word:
        step = list()
        for a, b, d in edges:
            step.append((z3.And(cur == states.index(a), andz(
                lit(d[k]) == lit(inp[k]) for k in inp)), b, d))
        n = z3.Sum([z3.If(c, 1, 0) for c, _, _ in step])
        nxt = z3.IntVal(-1)
        for c, b, _ in step:
            nxt = z3.If(c, states.index(b), nxt)
        nxt = z3.If(n == 1, nxt, -1)
        seq.append((nxt, step))
        cur = nxt
    return seq


def runs(n_edges, length):
    def fn(ctx):
        states = ['s1', 's10', 7]
        ins, outs = ['x'], ['u', 'v']
        via, default = ctx.pick('via', [
            ('guided_run', True), ('run', True), ('guided_run', False)])
        m, edges = mealy_machine(
            ctx, states, n_edges, ins, outs, initial=1,
            picks=[('s10',), ('s10',), ('s1',), ('s1',)])
        start = states[1] if default else states[0]
        word = [dict(x=symbolic(ctx, f'in{i}', 'x')) for i in range(length)]
        seqs = dict(x=[w['x'] for w in word])
        kw = dict(input_sequences=seqs)
        if not default:
            kw['from_state'] = start
        ref = chain(ctx, m, edges, states, word, start)
        ok = andz(n >= 0 for n, _ in ref)
        try:
            if via == 'run':
                trace, out = m.run(**kw)
            else:
                trace, out = machines.guided_run(m, **kw)
        except ValueError:
            ctx.check(z3.Not(ok), 'run rejects inputs with a run')
            ctx.label('rejected')
            return
        ctx.label('ran')
        ctx.check(ok, 'run although some input is not enabled')
        ctx.check(len(trace) == length and set(out) == set(outs) and all(
            len(v) == length for v in out.values()), 'length of the run')
        for i, (nxt, step) in enumerate(ref):
            ctx.check(nxt == states.index(trace[i]), 'states of the run')
            for c, b, d in step:
                ctx.check(z3.Implies(c, andz(
                    lit(out[k][i]) == lit(d[k]) for k in outs)),
                    'outputs of the run')
    return symx.Harness('runs', fn, ['ran', 'rejected'],
                        opaque_repr=True)


def bad_runs():
    def fn(ctx):
        m, edges = mealy_machine(ctx, ['a'], 1, ['x', 'y'], ['u'])
        case = ctx.pick('case', ['missing', 'lengths', 'type'])
        seqs = dict(
            missing=dict(x=[0]), lengths=dict(x=[0, 1], y=[0]),
            type=dict(x=(0,), y=[0]))[case]
        try:
            machines.guided_run(m, from_state='a', input_sequences=seqs)
        except (ValueError, TypeError):
            ctx.label('rejected')
            return
        ctx.check(False, f'{case}: accepted')
    return symx.Harness('bad_runs', fn, ['rejected'],
                        opaque_repr=True)


class Choice:
    """Stand-in for module `random`: the choice is symbolic."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def choice(self, xs):
        self.n += 1
        return self.ctx.pick(f'random{self.n}', list(xs))


def random_runs(n_edges, length):
    def fn(ctx):
        states = ['s1', 's10']
        m, edges = mealy_machine(
            ctx, states, n_edges, ['x'], ['u'], initial=1,
            picks=[(s,) for s in (states * n_edges)[:n_edges]])
        default = ctx.flag('default')
        start = states[1] if default else states[0]
        old = machines.random
        machines.random = Choice(ctx)
        try:
            trace, out = machines.random_run(
                m, None if default else start, length)
        finally:
            machines.random = old
        ctx.label('ran')
        ctx.check(len(trace) == length and len(out['u']) == length,
                  'length of random run')
        cur = start
        for i in range(length):
            ctx.check(orz(
                lit(d['u']) == lit(out['u'][i])
                for a, b, d in edges if (a, b) == (cur, trace[i])),
                'random run follows transitions')
            cur = trace[i]
    return symx.Harness('random_runs', fn, ['ran'],
                        opaque_repr=True)


class Person:
    """Stand-in for standard input, selections are symbolic."""

    def __init__(self, ctx, out, states, most):
        self.ctx = ctx
        self.out = out
        self.states = states
        self.most = most
        self.read = list()

    def readline(self):
        """Choose among the transitions displayed."""
        text = self.out.getvalue()
        self.out.seek(0)
        self.out.truncate()
        offers = dict()
        for line in text.splitlines():
            number = re.match(r'\W*(\d+)\b', line)
            names = [x for x in re.findall(r'\w+', line)
                     if x in self.states]
            if number and names:
                offers[int(number.group(1))] = names[-1]
        n = len(self.read)
        if not offers and self.read:
            offers = self.read[-1][0]
        self.ctx.check(n <= self.most, 'interactive run continues')
        if n == self.most:
            self.read.append((offers, None))
            return '\n'
        what = self.ctx.pick(
            f'line{n}', ['first', 'last', 'stop', 'text', 'beyond'][
                :5 if n < 2 else 2])
        self.ctx.check(bool(offers), 'transitions are displayed')
        chosen = dict(first=min(offers), last=max(offers)).get(what)
        self.read.append((offers, None if what == 'stop' else (
            'again' if chosen is None else offers[chosen])))
        return dict(
            stop='\n', text='what\n', beyond=f'{len(offers)}\n').get(
                what, f'{chosen}\n')


def interactive(n_edges, most):
    def fn(ctx):
        states = ['s1', 's10', 'q0', 'Sinit']
        m, edges = mealy_machine(
            ctx, states[:3], n_edges, ['x'], ['u'], initial=1,
            picks=[('s10',), ('s10',), ('s1',), ('s1', 's10')])
        via = ctx.pick('via', ['run', 'function', 'from'])
        start = 's1' if via == 'from' else 's10'
        out = io.StringIO()
        person = Person(ctx, out, states, most)
        old = sys.stdin
        sys.stdin = person
        try:
            with contextlib.redirect_stdout(out):
                if via == 'run':
                    m.run()
                elif via == 'from':
                    machines.interactive_run(m, from_state=start)
                else:
                    machines.interactive_run(m)
        finally:
            sys.stdin = old
        cur = start
        reads = iter(person.read)
        steps = 0
        while True:
            after = sorted(b for a, b, _ in edges if a == cur)
            if not after:
                ctx.label('terminal')
                break
            item = next(reads, None)
            ctx.check(item is not None, 'asks while transitions remain')
            offers, chosen = item
            ctx.check(sorted(offers.values()) == after,
                      'transitions of the current state are displayed')
            if chosen is None:
                break
            if chosen != 'again':
                cur = chosen
                steps += 1
        ctx.check(next(reads, None) is None, 'stops when asked to')
        if steps > 1:
            ctx.label('moves')
    return symx.Harness('interactive', fn, ['moves', 'terminal'],
                        opaque_repr='all')


def behaviors(machine_edges, initial, length, letter):
    """z3: some run reads and writes the word `letter(i)[port]`.

    @param machine_edges: `(u, v, {port: value})`
    """
    alive = {s: True for s in initial}
    alive = {s: z3.BoolVal(True) for s in initial}
    for i in range(length):
        w = letter(i)
        nxt = dict()
        for a, b, d in machine_edges:
            if a not in alive:
                continue
            c = andz([alive[a]] + [
                lit(d[k]) == w[k] for k in w if k in d])
            nxt.setdefault(b, list()).append(c)
        alive = {b: orz(cs) for b, cs in nxt.items()}
    return orz(alive.values())


class Word:
    def __init__(self, ctx, length, names, least=dict()):
        self.c = [
            {k: ctx.free(z3.Int(f'w{i}.{k}')) for k in names}
            for i in range(length)]
        for row in self.c:
            for k, t in row.items():
                ctx.assume(z3.And(
                    t >= least.get(k, DOMS[k][0]), t <= DOMS[k][1]))

    def __call__(self, i):
        return self.c[i]


def real_edges(m):
    return [(a, b, dict(d)) for a, b, d in m.edges(data=True)]


def snapshot(m):
    return (sorted(map(repr, m.nodes)), sorted(
        (repr(a), repr(b)) for a, b in m.edges()),
        sorted(map(repr, m.states.initial)))


def to_mealy(n_edges, length):
    def fn(ctx):
        states, init = ctx.pick('states', [
            (['s1', 's10'], ['s10']), ([1, 0], [0, 1]),
            (['b', 'ab', 'a'], ['b'])])
        ins, outs = ['x'], ['u', 'v']
        m = machines.MooreMachine()
        m.add_inputs(ports(ins))
        m.add_outputs(ports(outs))
        label = dict()
        for s in states:
            label[s] = {k: symbolic(ctx, f'st{s}', k) for k in outs}
            m.states.add(s, dict(label[s]))
        m.states.initial.add_from(init)
        edges = list()
        for i in range(n_edges):
            a = ctx.pick(f'e{i}.from', states)
            b = ctx.pick(f'e{i}.to', states)
            d = dict(x=symbolic(ctx, f'e{i}', 'x'))
            ctx.assume(z3.Not(orz(
                lit(d['x']) == lit(f['x'])
                for p, q, f in edges if (p, q) == (a, b))))
            m.transitions.add(a, b, dict(d))
            edges.append((a, b, d))
        before = snapshot(m)
        r = machines.moore2mealy(m)
        ctx.check(snapshot(m) == before, 'machine to convert is unchanged')
        ctx.check(set(r.inputs) == set(ins) and set(r.outputs) == set(outs),
                  'ports')
        w = Word(ctx, length, ins + outs)
        ref = [(a, b, dict(d, **label[a])) for a, b, d in edges]
        for k in range(1, length + 1):
            ctx.check(
                behaviors(ref, init, k, w) ==
                behaviors(real_edges(r), list(r.states.initial), k, w),
                'moore2mealy changes behaviors')
        ctx.label('converted')
    return symx.Harness('moore2mealy', fn, ['converted'],
                        opaque_repr=True)


def to_moore(n_edges, length):
    def fn(ctx):
        states = ctx.pick('states', [['s1', 's10'], [1, 0]])
        ins, outs = ['x'], ['u', 'v'][:1 if n_edges < 4 else 2]
        m, edges = mealy_machine(ctx, states, n_edges, ins, outs)
        # outputs can be left unspecified
        more, part = ctx.pick('case', [
            (True, -1), (False, -1), (False, 0), (False, 1)])
        if more:
            m.states.initial.add(states[1])
        init = states if more else states[:1]
        if part >= 0:
            a, b, d = edges[part]
            del d['u']
            for p, q, f in m.edges(data=True):
                if (p, q) == (a, b) and all(f[k] is d[k] for k in d):
                    del f['u']
                    break
        before = snapshot(m)
        r = machines.mealy2moore(m)
        ctx.check(snapshot(m) == before, 'machine to convert is unchanged')
        ctx.check(set(r.inputs) == set(ins) and set(r.outputs) == set(outs),
                  'ports')
        w = Word(ctx, length, ins + outs, dict(u=-1))
        none = {k: -1 for k in outs}
        got = [
            (a, b, {**none, **d, **{k: v for k, v in r.states[b].items()
                                    if k in outs}})
            for a, b, d in real_edges(r)]
        edges = [(a, b, {**none, **d}) for a, b, d in edges]
        for k in range(1, length + 1):
            ctx.check(
                behaviors(edges, init, k, w) ==
                behaviors(got, list(r.states.initial), k, w),
                'mealy2moore changes behaviors')
        ctx.check(len(r.states.initial) > 0, 'initial state')
        ctx.label('converted')
    return symx.Harness('mealy2moore', fn, ['converted'],
                        opaque_repr=True)


def strip(n_edges, length):
    def fn(ctx):
        states = ['s1', 's10']
        ins, outs = ['x', 'y'], ['u', 'v']
        m, edges = mealy_machine(
            ctx, states, n_edges, ins, outs,
            initial=ctx.pick('init', [0, 1]),
            picks=[(states[0],), (states[0],), (states[1],), (states[1],)])
        names = ctx.pick('names', [
            ['y'], ['u'], ('x', 'v'), {'y', 'u', 'v'}, [], ['p']])
        before = snapshot(m)
        r = machines.strip_ports(m, names)
        ctx.check(snapshot(m) == before, 'machine to strip is unchanged')
        keep = [k for k in ins + outs if k not in names]
        ctx.check(
            list(r.inputs) == [k for k in ins if k in keep] and
            list(r.outputs) == [k for k in outs if k in keep], 'ports')
        ctx.check(
            all(set(d) == set(keep) for _, _, d in r.edges(data=True)),
            'labels of remaining ports')
        w = Word(ctx, length, keep)
        for k in range(1, length + 1):
            ctx.check(
                behaviors(edges, list(m.states.initial), k, w) ==
                behaviors(real_edges(r), list(r.states.initial), k, w),
                'strip_ports changes behaviors')
        ctx.label('stripped')
    return symx.Harness('strip_ports', fn, ['stripped'],
                        opaque_repr=True)


def harnesses(tier):
    t = tier == 'thorough'
    return [
        reaction(4), runs(4, 3 if t else 2),
        bad_runs(), random_runs(4, 3 if t else 2),
        interactive(4 if t else 3, 3),
        to_mealy(4 if t else 3, 3), to_moore(4 if t else 3, 3),
        strip(4, 3 if t else 2)]


BOUNDS = {
    'quick': 'machines with 2 to 3 states, up to 3 transitions; '
             'two inputs and two outputs with up to 3 values; words of '
             'length up to 3',
    'thorough': 'up to 4 transitions, words of length up to 3'}
OUTSIDE = ('larger machines; guards given as '
           'functions; drawing')
ASSUMPTIONS = [
    'module random is replaced by a symbolic choice in random_run',
    'interactive runs read symbolic selections in place of standard input, '
    'and the transitions offered are read from the displayed text']
EXPLANATION = (
    'Machines with symbolic labels are built through the public interface; '
    'the solver compares successors, outputs and sets of input-output '
    'words of original and result.')
