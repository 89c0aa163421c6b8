"""C23: probabilistic models as written, read, and checked."""
import itertools
import os
import re
import tempfile
import types

import symx
import z3

from tulip import transys
from tulip.interfaces import stormpy as interface

TOL = 1e-9


# ------------------------------------------------ numerals in the text


class Prob(symx.SymReal):
    """Symbolic probability with a numeral that stands for it in text."""
    __slots__ = ('texts',)

    def __init__(self, t, texts):
        super().__init__(t)
        self.texts = texts

    def numeral(self, t):
        # exact decimals that no other number of the check has
        s = f'0.{7_310_000 + len(self.texts)}'
        self.texts[s] = t
        return s

    def __str__(self):
        return self.numeral(self.t)

    __repr__ = __str__

    def __format__(self, spec):
        m = re.fullmatch(r'0?\.(\d+)f', spec)
        if m:
            # a nearest multiple of the last digit
            unit = z3.RealVal(f'1/{10 ** int(m.group(1))}')
            k = z3.FreshInt('rounded')
            ctx = symx.cur()
            ctx.solver.add(
                2 * (self.t - k * unit) <= unit,
                2 * (k * unit - self.t) <= unit)
            return self.numeral(k * unit)
        m = re.fullmatch(r'\.?(\d+)[ge]', spec)
        if spec not in ('', 'r', 's') and not (m and int(m.group(1)) > 11):
            ctx = symx.cur()
            ctx._inconclusive(f'format {spec}')
        return self.numeral(self.t)


class Numbers:
    def __init__(self, ctx):
        self.ctx = ctx
        self.texts = dict()
        self.count = 0

    def prob(self, name):
        p = self.ctx.real(name, 0, 1)
        if self.ctx.replaying:
            return float(p)
        return Prob(p.t, self.texts)

    def text(self, p):
        return f'{p!r}'

    def value(self, text):
        if text in self.texts:
            return Prob(self.texts[text], self.texts)
        return float(text)


# -------------------------------------------------- the PRISM language

TOKEN = re.compile(
    r'\s*(?:(?P<num>\d+(?:\.\d+)?(?:[eE][+-]?\d+)?(?!\.\d))|'
    r'(?P<id>[A-Za-z_]\w*\'?)|(?P<str>"[^"]*")|'
    r'(?P<op>\.\.|->|!=|<=|>=|=>|[\[\]():;=<>&|!+*/-]))')


class Syntax(Exception):
    pass


class Parser:
    """Programs with one module, as guarded commands."""

    def __init__(self, text, numbers):
        text = re.sub(r'//[^\n]*', '', text)
        self.toks, i = list(), 0
        text = text.rstrip()
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise Syntax(text[i:i + 20])
            self.toks.append(m.group().strip())
            i = m.end()
        self.i = 0
        self.num = numbers

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self, expect=None):
        t = self.peek()
        if t is None or expect is not None and t != expect:
            raise Syntax(f'expected {expect} instead of {t}')
        self.i += 1
        return t

    def accept(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    def program(self):
        p = types.SimpleNamespace(
            kind=self.next(), vars=dict(), commands=list(), labels=dict())
        if p.kind not in ('mdp', 'dtmc'):
            raise Syntax(p.kind)
        while self.peek() is not None:
            t = self.next()
            if t == 'module':
                self.next()
                self.module(p)
            elif t == 'label':
                name = self.next()
                if name[0] != '"' or name in p.labels:
                    raise Syntax(name)
                self.next('=')
                p.labels[name[1:-1]] = self.expr()
                self.next(';')
            else:
                raise Syntax(t)
        return p

    def module(self, p):
        while not self.accept('endmodule'):
            if self.accept('['):
                act = '' if self.peek() == ']' else self.next()
                self.next(']')
                guard = self.expr()
                self.next('->')
                alts = [self.alternative()]
                while self.accept('+'):
                    alts.append(self.alternative())
                self.next(';')
                p.commands.append((act, guard, alts))
                continue
            v = self.next()
            self.next(':')
            if self.accept('bool'):
                dom = [False, True]
            else:
                self.next('[')
                lo = int(self.next())
                self.next('..')
                hi = int(self.next())
                self.next(']')
                dom = list(range(lo, hi + 1))
            init = dom[0]
            if self.accept('init'):
                init = self.expr()(dict())
            self.next(';')
            if init not in dom:
                raise Syntax('initial value')
            p.vars[v] = (dom, init)

    def alternative(self):
        save = self.i
        prob = 1.0
        try:
            q = self.arith()
            self.next(':')
            prob = q(dict())
        except Syntax:
            self.i = save
        assign = dict()
        if not self.accept('true'):
            while True:
                self.next('(')
                v = self.next()
                if not v.endswith("'"):
                    raise Syntax(v)
                self.next('=')
                assign[v[:-1]] = self.expr()
                self.next(')')
                if not self.accept('&'):
                    break
        return prob, assign

    # expressions: functions of the state
    def expr(self):
        a = self.conj()
        while self.accept('|'):
            a = (lambda x, y: lambda s: x(s) or y(s))(a, self.conj())
        return a

    def conj(self):
        a = self.neg()
        while self.accept('&'):
            a = (lambda x, y: lambda s: x(s) and y(s))(a, self.neg())
        return a

    def neg(self):
        if self.accept('!'):
            a = self.neg()
            return lambda s: not a(s)
        return self.comp()

    def comp(self):
        a = self.arith()
        ops = {
            '=': lambda x, y: x == y, '!=': lambda x, y: x != y,
            '<': lambda x, y: x < y, '>': lambda x, y: x > y,
            '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}
        if self.peek() in ops:
            f = ops[self.next()]
            b = self.arith()
            return lambda s: f(a(s), b(s))
        return a

    def arith(self):
        a = self.term()
        while self.peek() in ('+', '-'):
            save, op = self.i, self.next()
            try:
                b = self.term()
            except Syntax:
                self.i = save
                break
            sign = 1 if op == '+' else -1
            a = (lambda x, y, k: lambda s: x(s) + k * y(s))(a, b, sign)
        return a

    def term(self):
        a = self.atom()
        while self.peek() in ('*', '/'):
            op, b = self.next(), self.atom()
            a = (lambda x, y: lambda s: x(s) * y(s))(a, b) if (
                op == '*') else (lambda x, y: lambda s: x(s) / y(s))(a, b)
        return a

    def atom(self):
        t = self.next()
        if t == '(':
            a = self.expr()
            self.next(')')
            return a
        if t in ('true', 'false'):
            return lambda s: t == 'true'
        if re.match(r'\d', t):
            if re.fullmatch(r'\d+', t):
                v = int(t)
            else:
                v = self.num.value(t)
            return lambda s: v
        if re.match(r'[A-Za-z_]\w*$', t):
            return lambda s: s[t]
        raise Syntax(t)


class Chain:
    """Explicit states of a program.

    - `states`: initial one first, in order of exploration
    - `choices[u]`: list of `(action, {target: probability})`
    - `labels[u]`: set of labels
    """

    def __init__(self, program, only_reachable=True):
        names = list(program.vars)
        self.kind = program.kind
        init = tuple(program.vars[v][1] for v in names)
        if only_reachable:
            self.states, todo = [init], [init]
        else:
            self.states = [init] + [
                u for u in itertools.product(
                    *(program.vars[v][0] for v in names)) if u != init]
            todo = list(self.states)
        self.choices, self.labels = dict(), dict()
        while todo:
            u = todo.pop(0)
            env = dict(zip(names, u))
            self.choices[u] = list()
            for act, guard, alts in program.commands:
                if not guard(env):
                    continue
                dist = dict()
                for p, assign in alts:
                    new = {**env, **{k: f(env) for k, f in assign.items()}}
                    v = tuple(new[k] for k in names)
                    for k in names:
                        if new[k] not in program.vars[k][0]:
                            raise Syntax(f'{k} out of range')
                    if v not in self.states:
                        self.states.append(v)
                        todo.append(v)
                    dist[v] = dist[v] + p if v in dist else p
                self.choices[u].append((act, dist))
            if not self.choices[u]:
                raise Syntax('deadlock')
            if program.kind == 'dtmc' and len(self.choices[u]) > 1:
                raise Syntax('more than one command in a chain')
            self.labels[u] = {
                k for k, f in program.labels.items() if f(env)}


# ---------------------------------------------------------- stub of Storm


class Storm:
    """Stands for `stormpy` inside the interface.

    Models are those of the program; answers are arbitrary numbers
    for states of the model, and arbitrary choices.
    """

    def __init__(self, ctx, numbers, last):
        self.ctx, self.numbers = ctx, numbers
        self.calls, self.last = list(), last

    def __enter__(self):
        self.real = interface.stormpy
        kinds = types.SimpleNamespace(DTMC='DTMC', MDP='MDP')
        interface.stormpy = types.SimpleNamespace(
            parse_prism_program=self.parse,
            build_model=self.build,
            parse_properties=self.props,
            model_checking=self.solve,
            storage=types.SimpleNamespace(ModelType=kinds),
            ModelType=kinds)
        return self

    def __exit__(self, *a):
        interface.stormpy = self.real

    def parse(self, path, *a):
        with open(path) as f:
            self.text = f.read()
        return Parser(self.text, self.numbers).program()

    def build(self, program, *a):
        c = Chain(program)
        # order of exploration is up to Storm
        if self.last:
            c.states = c.states[:1] + c.states[:0:-1]
        m = self.model = Model(c, self)
        return m

    def props(self, formula, program=None):
        self.calls.append(('props', formula))
        return [('property', formula)]

    def solve(self, model, prop, only_initial_states=False,
              extract_scheduler=False, **kw):
        self.calls.append(('solve', prop, extract_scheduler))
        assert model is self.model and not only_initial_states
        self.result = Result(self, model, extract_scheduler)
        return self.result


class Model:
    def __init__(self, chain, storm):
        self.chain = chain
        self.model_type = chain.kind.upper()
        self.initial_states = [
            i for i, u in enumerate(chain.states)
            if u == min(chain.states, key=lambda x: chain.choices and
                        list(chain.choices).index(x))]
        self.nr_states = len(chain.states)
        self.states = [StormState(i, u, chain)
                       for i, u in enumerate(chain.states)]


class StormState:
    def __init__(self, i, u, chain):
        self.id = i
        self.u = u
        self.labels = set(chain.labels[u])
        if u == next(iter(chain.choices)):
            self.labels.add('init')
        self.actions = [StormAction(k, d, chain) for k, (_, d) in enumerate(
            chain.choices[u])]

    def __str__(self):
        return str(self.id)

    def __int__(self):
        return self.id


class StormAction:
    def __init__(self, k, dist, chain):
        self.id = k
        self.dist = dist
        self.transitions = [
            StormTransition(chain.states.index(v), p)
            for v, p in sorted(
                dist.items(), key=lambda x: chain.states.index(x[0]))]

    def __str__(self):
        return str(self.id)


class StormTransition:
    def __init__(self, column, p):
        self.column = column
        self._p = p

    def value(self):
        return self._p


class Result:
    def __init__(self, storm, model, extract):
        ctx = storm.ctx
        self.values = [ctx.real(f'answer{i}', 0, 1)
                       for i in range(model.nr_states)]
        self.has_scheduler = extract
        if extract:
            self.choices = [
                ctx.pick(f'choice{i}', range(len(s.actions)))
                for i, s in enumerate(model.states)]
            self.scheduler = types.SimpleNamespace(
                get_choice=lambda s: types.SimpleNamespace(
                    get_deterministic_choice=(
                        lambda: self.choices[s.id]), defined=True))

    def at(self, state):
        return self.values[getattr(state, 'id', state)]

    def get_values(self):
        return list(self.values)


# ------------------------------------------------------------- systems

STATES = [['s0', 's1', 's2'], [1, 2, 0], [('a', 0), ('a', 1), ('b', 0)],
          ['x y', "s'", '']]
ACTIONS = [['go', 'stay'], [1, 0], [('a', 'b'), '']]
LABELS = [[{'p'}, {'q'}, {'p', 'q'}], [set(), {'q'}, {'p'}]]


class System:
    """Chain or decision process with symbolic probabilities."""

    def __init__(self, ctx, numbers, kind, n, names=None, actions=None,
                 edges=None, labels=None, init=None, probs=None,
                 flip=None):
        self.ctx, self.kind, self.n = ctx, kind, n
        self.states = (names or STATES[0])[:n]
        self.actions = (actions or ACTIONS[0]) if kind == 'mdp' else [None]
        self.props = ['p', 'q', 'r']
        if init is None:
            init = ctx.pick('initial', range(n))
        self.init = init
        self.labels = labels
        self.dist = dict()
        for i in range(n):
            for a in range(len(self.actions)):
                if edges is not None:
                    to = edges.get((i, a), ())
                else:
                    to = [j for j in range(n) if ctx.flag(f'edge{i}{a}{j}')]
                if not to:
                    continue
                d = dict()
                for j in to:
                    d[j] = probs(i, a, j) if probs else numbers.prob(
                        f'p{i}.{a}.{j}')
                if numbers is not None and not ctx.replaying:
                    ctx.solver.add(
                        z3.Sum([p.t for p in d.values()]) == 1,
                        *(p.t > 0 for p in d.values()))
                self.dist[i, a] = d
        for i in range(n):
            ctx.assume(any((i, a) in self.dist
                           for a in range(len(self.actions))))
        self.flip = ctx.flag('last transitions first') if (
            flip is None) else flip

    def reachable(self):
        seen, todo = {self.init}, [self.init]
        while todo:
            i = todo.pop()
            for (k, _), d in self.dist.items():
                if k == i:
                    for j in d:
                        if j not in seen:
                            seen.add(j)
                            todo.append(j)
        return seen

    def build(self):
        ts = transys.MarkovDecisionProcess() if self.kind == 'mdp' else (
            transys.MarkovChain())
        ts.states.add_from(self.states)
        ts.states.initial.add(self.states[self.init])
        ts.atomic_propositions.add_from(self.props)
        for s, ap in zip(self.states, self.labels):
            ts.states[s]['ap'] = set(ap)
        if self.kind == 'mdp':
            ts.actions.add_from(self.actions)
        edges = [(i, a, j, p) for (i, a), d in self.dist.items()
                 for j, p in d.items()]
        if self.flip:
            edges.reverse()
        for i, a, j, p in edges:
            attr = dict(probability=p)
            if self.kind == 'mdp':
                attr['action'] = self.actions[a]
            ts.transitions.add(self.states[i], self.states[j], attr)
        return ts

    def text(self, numbers):
        """Program for this system."""
        k = [3, 1, 2][:self.n]
        r = [self.kind, 'module m', f'v : [1..3] init {k[self.init]};']
        rows = list(self.dist.items())
        if self.flip:
            rows.reverse()
        for (i, a), d in rows:
            alts = ' + '.join(
                f"{numbers.text(p)} : (v'={k[j]})" for j, p in d.items())
            act = f'a{a}' if self.kind == 'mdp' else ''
            r.append(f'[{act}] v={k[i]} -> {alts};')
        r.append('endmodule')
        for p in self.props:
            at = [f'v={k[i]}' for i in range(self.n) if p in self.labels[i]]
            r.append(f'label "{p}" = {" | ".join(at) or "false"};')
        return '\n'.join(r)


def close(p, q, tol=TOL):
    d = p - q
    if isinstance(d, (int, float)):
        return z3.BoolVal(abs(d) <= tol)
    return z3.And(symx.lift(d <= tol), symx.lift(d >= -tol))


def zero(p, tol=TOL):
    return close(p, 0, tol)


def same_dist(d, e, match, tol=TOL):
    """`match` maps targets of `d` to those of `e`."""
    r = [close(p, e[match[j]], tol) if match.get(j) in e else zero(p, tol)
         for j, p in d.items()]
    back = {v: k for k, v in match.items()}
    r += [zero(q, tol) for v, q in e.items() if back.get(v) not in d]
    return z3.And(*r) if r else z3.BoolVal(True)


def isomorphic(ref, nodes, init, states, labels, choices, global_actions):
    """Formula that the model is `ref` restricted to `nodes`.

    @param choices: `{state: [(action, {target: probability})]}`
    """
    options = list()
    if len(states) != len(nodes):
        return z3.BoolVal(False)
    for perm in itertools.permutations(states):
        f = dict(zip(nodes, perm))
        if f[ref.init] != init:
            continue
        if any(set(labels[f[i]]) != set(ref.labels[i]) for i in nodes):
            continue
        if not global_actions:
            ok = list()
            for i in nodes:
                mine = [d for (k, _), d in ref.dist.items() if k == i]
                theirs = [d for _, d in choices[f[i]]]
                if len(mine) != len(theirs):
                    ok = [z3.BoolVal(False)]
                    break
                ok.append(z3.Or(*(
                    z3.And(*(same_dist(d, e, f) for d, e in zip(mine, q)))
                    for q in itertools.permutations(theirs))))
            options.append(z3.And(*ok))
            continue
        acts = sorted({a for i in states for a, _ in choices[i]})
        used = sorted({a for i, a in ref.dist})
        if len(acts) != len(used):
            continue
        for q in itertools.permutations(acts):
            g = dict(zip(used, q))
            ok = list()
            for i in nodes:
                mine = {g[a]: d for (k, a), d in ref.dist.items() if k == i}
                theirs = dict(choices[f[i]])
                if set(mine) != set(theirs) or len(theirs) != len(
                        choices[f[i]]):
                    ok = [z3.BoolVal(False)]
                    break
                ok += [same_dist(d, theirs[a], f) for a, d in mine.items()]
            options.append(z3.And(*ok))
    return z3.Or(*options) if options else z3.BoolVal(False)


class Scratch:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory()
        return os.path.join(self.d.__enter__(), 'model.nm')

    def __exit__(self, *a):
        self.d.__exit__(*a)


def read_model(path):
    """Model that Storm itself reads."""
    import stormpy
    m = stormpy.build_model(stormpy.parse_prism_program(path))
    states = [s.id for s in m.states]
    labels = {s.id: set(s.labels) - {'init', 'deadlock'} for s in m.states}
    choices = {s.id: [(a.id, {t.column: t.value() for t in a.transitions})
                      for a in s.actions] for s in m.states}
    init, = m.initial_states
    return states, init, labels, choices


# -------------------------------------------------------------- writing


def pick_labels(ctx, n, free):
    if free:
        return [set(ctx.pick(f'label{i}', [(), ('p',), ('q',), ('p', 'q')]))
                for i in range(n)]
    return ctx.pick('labels', LABELS)[:n]


def write(kind, n, free_labels=False, free_names=False):
    def fn(ctx):
        numbers = Numbers(ctx)
        kw = dict()
        if free_names:
            kw['names'] = ctx.pick('names', STATES)
            kw['actions'] = ctx.pick('actions', ACTIONS) if (
                kind == 'mdp') else None
        if free_labels or free_names:
            kw['edges'] = ctx.pick('edges', [
                {(0, 0): (0, 1), (1, 0): (2 % n,), (2, 0): (0, 1, 2)},
                {(0, 0): (1,), (1, 0): (0, 1), (2, 0): (2,), (0, 1): (
                    2 % n, 0), (2, 1): (0, 1)}])
            kw['edges'] = {
                k: v for k, v in kw['edges'].items()
                if k[0] < n and (kind == 'mdp' or k[1] == 0)}
        ref = System(ctx, numbers, kind, n, labels=None, **kw)
        ref.labels = pick_labels(ctx, n, free_labels) if (
            free_labels or free_names) else LABELS[1][:n]
        ts = ref.build()
        ctx.note(edges=sorted(ref.dist), labels=ref.labels, init=ref.init)
        with Scratch() as path:
            interface.to_prism_file(ts, path)
            with open(path) as f:
                text = f.read()
            if ctx.replaying:
                # program as read by Storm
                nodes = sorted(ref.reachable())
                states, init, labels, choices = read_model(path)
                ctx.check(isomorphic(
                    ref, nodes, init, states, labels, choices, False),
                    'model that is written')
        try:
            program = Parser(text, numbers).program()
            chain = Chain(program, only_reachable=False)
        except Syntax as e:
            ctx.note(text=text, syntax=str(e))
            ctx.check(False, 'model that is written')
        ctx.check(program.kind == kind, 'kind of model')
        ctx.check(isomorphic(
            ref, list(range(n)), chain.states[0], chain.states,
            chain.labels, chain.choices, kind == 'mdp'),
            'model that is written')
        ctx.check(set(program.labels) == set(ref.props), 'propositions')
        if len(ref.reachable()) < n:
            ctx.label('unreachable')
        ctx.label('written')
    return fn


# -------------------------------------------------------------- reading


def compare_system(ctx, ref, nodes, ts):
    kind = transys.MarkovDecisionProcess if ref.kind == 'mdp' else (
        transys.MarkovChain)
    ctx.check(type(ts) is kind, 'kind of system')
    ctx.check(len(ts.states.initial) == 1, 'one initial state')
    init, = ts.states.initial
    states = list(ts.states)
    labels = {s: set(ts.states[s]['ap']) for s in states}
    choices = {s: dict() for s in states}
    for u, v, d in ts.transitions(data=True):
        a = d['action'] if ref.kind == 'mdp' else ''
        e = choices[u].setdefault(a, dict())
        ctx.check(v not in e, 'one transition for each action and target')
        e[v] = d['probability']
    choices = {s: list(c.items()) for s, c in choices.items()}
    if ref.kind == 'mdp':
        used = {a for c in choices.values() for a, _ in c}
        ctx.check(used == set(ts.actions), 'actions')
    ctx.check(isomorphic(
        ref, nodes, init, states, labels, choices, False),
        'model that is read')


def read(kind, n, again=False, variants=range(4)):
    """Read a program, or one that was written."""
    def fn(ctx):
        numbers = Numbers(ctx)
        variant = ctx.pick('variant', variants)
        ref = System(
            ctx, numbers, kind, n, labels=LABELS[variant % 2][:n],
            init=[0, n - 1, 0, n - 1][variant], flip=variant in (0, 1))
        nodes = sorted(ref.reachable())
        if variant == 3:
            ref.labels = [{'p'}] * n
        ctx.note(edges=sorted(ref.dist), labels=ref.labels, init=ref.init)
        with Scratch() as path:
            if again:
                interface.to_prism_file(ref.build(), path)
            else:
                with open(path, 'w') as f:
                    f.write(ref.text(numbers))
            if ctx.replaying:
                ts = interface.to_tulip_transys(path)
            else:
                try:
                    with Storm(ctx, numbers, variant in (0, 3)):
                        ts = interface.to_tulip_transys(path)
                except Syntax as e:
                    ctx.note(syntax=str(e))
                    ctx.check(False, 'model that is written')
        compare_system(ctx, ref, nodes, ts)
        ctx.label('read')
    return fn


# ------------------------------------------------------- model checking


def answers(kind, n, extract, variants=range(4)):
    """Answers of the model checker are for the states of the system."""
    def fn(ctx):
        numbers = Numbers(ctx)
        variant = ctx.pick('variant', variants)
        ref = System(
            ctx, numbers, kind, n, labels=LABELS[variant % 2][:n],
            names=STATES[variant], actions=ACTIONS[variant % 3],
            init=[n - 1, 0, 0, n - 1][variant], flip=variant in (0, 2))
        nodes = sorted(ref.reachable())
        formula = ['P=? [ F "q" ]', 'Pmin=? [ "p" U "q" ]'][variant // 2]
        ctx.note(edges=sorted(ref.dist), labels=ref.labels, init=ref.init)
        ts = ref.build()
        with Scratch() as path, Storm(
                ctx, numbers, variant in (0, 3)) as storm:
            try:
                r = interface.model_checking(ts, formula, path, extract)
            except Syntax as e:
                ctx.note(syntax=str(e))
                ctx.check(False, 'model that is written')
        ctx.check(storm.calls == [
            ('props', formula),
            ('solve', ('property', formula), extract)], 'question')
        prob, policy = r if extract else (r, None)
        result = storm.result
        by_label = {frozenset(s.labels & set(ref.props)): s
                    for s in storm.model.states}
        for i in nodes:
            s = by_label.get(frozenset(ref.labels[i]))
            ctx.check(s is not None, 'states of the model')
            name = ref.states[i]
            ctx.check(close(prob[name], result.at(s)),
                      'probability of a state')
            if not extract:
                continue
            a = policy[name]
            ctx.check(a in ref.actions, 'action of policy')
            mine = ref.dist.get((i, ref.actions.index(a)))
            ctx.check(mine is not None, 'policy selects an enabled action')
            k = result.choices[s.id]
            theirs = s.actions[k].dist
            match = {
                j: by_label[frozenset(ref.labels[j])].u for j in nodes}
            ctx.check(same_dist(mine, theirs, match, 3e-6),
                      'action that the policy selects')
            ctx.label('policy')
        ctx.label('answered')
    return fn


# ------------------------------------------------------ with Storm itself

FRACTIONS = [1 / 3, 0.00002, 0.5]


def reach_value(ref, nodes, targets, mode):
    """Formula over `v` that holds only for reachability probabilities."""
    v = {i: z3.Real(f'v{i}') for i in nodes}
    acts = {i: [a for k, a in ref.dist if k == i] for i in nodes}
    policies = [dict(zip(nodes, c)) for c in itertools.product(
        *(acts[i] for i in nodes))]
    cs, per = list(), list()
    for k, pi in enumerate(policies):
        w = {i: z3.Real(f'w{k}.{i}') for i in nodes}
        can = {i for i in nodes if i in targets}
        while True:
            more = {i for i in nodes if i not in can and any(
                j in can for j in ref.dist[i, pi[i]])}
            if not more:
                break
            can |= more
        for i in nodes:
            if i in targets:
                cs.append(w[i] == 1)
            elif i not in can:
                cs.append(w[i] == 0)
            else:
                d = ref.dist[i, pi[i]]
                cs.append(w[i] == z3.Sum([
                    z3.RealVal(repr(p)) * w[j] for j, p in d.items()]))
        per.append(w)
    for i in nodes:
        cs.append(z3.Or(*(v[i] == w[i] for w in per)))
        cs += [v[i] >= w[i] if mode != 'min' else v[i] <= w[i] for w in per]
    return v, per, policies, cs


def storm(kind, n):
    """End to end, with the model checker."""
    def fn(ctx):
        import stormpy
        if not hasattr(stormpy, 'build_model'):
            raise RuntimeError('stormpy')
        first = ctx.pick('probability', FRACTIONS)
        shapes = {
            'dtmc': [
                {(0, 0): (0, 1, 2), (1, 0): (1,), (2, 0): (2,)},
                {(0, 0): (1, 2), (1, 0): (0, 2), (2, 0): (0, 1)},
                {(0, 0): (1, 0), (1, 0): (2, 0), (2, 0): (2,)}],
            'mdp': [
                {(0, 0): (1, 2), (0, 1): (0, 2), (1, 0): (1,),
                 (1, 1): (0, 2), (2, 0): (2,)},
                {(0, 1): (1, 2), (1, 0): (2, 0), (2, 0): (0,),
                 (2, 1): (1, 0)},
                {(0, 0): (1,), (0, 1): (2,), (1, 1): (1,), (2, 0): (
                    2, 0), (2, 1): (2, 1)}]}[kind]
        edges = ctx.pick('edges', shapes)

        def probs(i, a, j):
            to = edges[i, a]
            if len(to) == 1:
                return 1.0
            p = 1 / 7 if len(to) == 3 else first if i == 0 else 0.25
            return p if to.index(j) < len(to) - 1 else (
                1 - (len(to) - 1) * p)
        ref = System(
            ctx, None, kind, n, edges=edges, probs=probs, flip=False,
            init=ctx.pick('initial', [0, 1]),
            labels=ctx.pick('labels', [
                LABELS[0], LABELS[1], [{'p', 'q'}, {'p'}, {'q'}],
                [{'r'}, set(), {'p'}]]))
        nodes = sorted(ref.reachable())
        ts = ref.build()
        mode = '' if kind == 'dtmc' else ctx.pick('mode', ['min', 'max'])
        extract = kind == 'mdp' and ctx.flag('extract')
        targets = {i for i in nodes if 'q' in ref.labels[i]}
        with Scratch() as path:
            r = interface.model_checking(
                ts, f'P{mode}=? [ F "q" ]', path, extract)
            back = interface.to_tulip_transys(path)
        compare_system(ctx, ref, nodes, back)
        prob, policy = r if extract else (r, None)
        v, per, policies, cs = reach_value(ref, nodes, targets, mode)
        for i in nodes:
            p = z3.RealVal(repr(float(prob[ref.states[i]])))
            tol = z3.RealVal('1/100000')
            bad = z3.Or(v[i] - p > tol, p - v[i] > tol)
            ctx.check(ctx.sat(*cs, bad) is None,
                      'probability of reaching a label')
        if extract:
            pi = {i: ref.actions.index(policy[ref.states[i]])
                  for i in nodes}
            ctx.check(pi in policies, 'policy selects enabled actions')
            w = per[policies.index(pi)]
            bad = z3.Or(*(z3.Or(
                v[i] - w[i] > tol, w[i] - v[i] > tol) for i in nodes))
            ctx.check(ctx.sat(*cs, bad) is None, 'optimal policy')
            ctx.label('optimal')
        ctx.label('solved')
    return fn


BOUNDS = dict(
    quick='writing, and reading: all chains with up to 3 states and '
    'decision processes with 2 states and 2 actions, symbolic '
    'probabilities; model checking: chains with up to 3 states, decision '
    'processes with 2, symbolic answers; Storm itself: 3 states, selected '
    'structures and probabilities',
    thorough='as quick, and decision processes with 3 states and two '
    'actions')
OUTSIDE = (
    'Models that have no choice at some state (deadlocks), or more than '
    'one initial state. States with equal labels, in model checking (they '
    'raise an error). States that are unreachable from the initial state, '
    'when reading or checking. Names of actions are not kept when reading: '
    'actions are numbered at each state. Models other than those that '
    'TuLiP writes, and the modules, constants, and formulas of PRISM.')
ASSUMPTIONS = [
    'Storm is replaced, except in the harness `storm`, by a stub: the '
    'model is that of the program (parser of the used part of the PRISM '
    'language in this check), explored in either of two orders; values '
    'are arbitrary, and so are selected choices',
    'numbers of Storm are exact (floating-point rounding is outside); '
    'probabilities in text are compared up to 1e-9',
    'in the harness `storm` reachability probabilities are the solution '
    'of linear equations that z3 solves exactly; compared up to 1e-5']
EXPLANATION = (
    'Systems with symbolic probabilities are written by the real code; '
    'the text (where numerals stand for symbolic values) is parsed, and '
    'the solver decides that the model is the system, up to names. '
    'Reading and answers (values and policies) are decided similarly.')


def harnesses(tier):
    H = symx.Harness
    thorough = tier == 'thorough'
    few = range(4) if thorough else [0, 3]
    others = range(4) if thorough else [1, 2]
    r = [
        H('write-chain2', write('dtmc', 2), ['written', 'unreachable']),
        H('write-chain3', write('dtmc', 3), ['written', 'unreachable']),
        H('write-mdp2', write('mdp', 2), ['written', 'unreachable']),
        H('write-labels', write('mdp', 3, free_labels=True), ['written']),
        H('write-names-chain', write('dtmc', 3, free_names=True), [
            'written']),
        H('write-names-mdp', write('mdp', 3, free_names=True), ['written']),
        H('read-chain', read('dtmc', 3, variants=few), ['read']),
        H('read-mdp', read('mdp', 2, variants=few), ['read']),
        H('again-chain', read('dtmc', 2, True), ['read']),
        H('again-mdp', read('mdp', 2, True, few), ['read']),
        H('answers-chain', answers('dtmc', 3, False, few), ['answered']),
        H('answers-chain2', answers('dtmc', 2, False), ['answered']),
        H('answers-mdp', answers('mdp', 2, False, few), ['answered']),
        H('policy', answers('mdp', 2, True, others), ['policy']),
        H('storm-chain', storm('dtmc', 3), ['solved']),
        H('storm-mdp', storm('mdp', 3), ['solved', 'optimal'])]
    if thorough:
        r += [
            H('write-mdp3', write('mdp', 3), ['written', 'unreachable']),
            H('again-mdp3', read('mdp', 3, True), ['read'])]
    return r
