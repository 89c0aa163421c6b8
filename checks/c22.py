"""C22: never claims load as the automata that they describe."""
import ast
import contextlib
import io
import os
import tempfile
import types

import symx
import z3

from tulip.interfaces import ltl2ba as mod

_parser = list()


def parser():
    """Generated tables go to a scratch directory."""
    if not _parser:
        cwd = os.getcwd()
        with tempfile.TemporaryDirectory() as d, (
                contextlib.redirect_stderr(io.StringIO())):
            os.chdir(d)
            try:
                _parser.append(mod.Parser())
            finally:
                os.chdir(cwd)
    return _parser[0]


# ------------------------------------------------------------ guards


def boolean(name):
    return z3.Bool(f'v.{name}')


def meaning(guard):
    """Formula for a guard of the parsed automaton."""
    def walk(e):
        match e:
            case ast.BoolOp(op=ast.And()):
                return z3.And(*map(walk, e.values))
            case ast.BoolOp(op=ast.Or()):
                return z3.Or(*map(walk, e.values))
            case ast.UnaryOp(op=ast.Not()):
                return z3.Not(walk(e.operand))
            case ast.Name():
                return boolean(e.id)
            case ast.Constant():
                return z3.BoolVal(bool(e.value))
        raise ValueError(guard)
    return walk(ast.parse(str(guard), mode='eval').body)


def literal(ctx, name, props, nested):
    """Text, formula, and propositions of an operand."""
    kind = ctx.pick(name, ['p', 'not', 'q', 'one'] + (
        ['paren', 'not paren', 'not not'] if nested else []))
    p, q = props
    x = q if kind in ('q', 'not not') else p
    if kind == 'one':
        return '1', z3.BoolVal(True), set()
    if kind in ('p', 'q'):
        return x, boolean(x), {x}
    if kind == 'not':
        return f'!{x}', z3.Not(boolean(x)), {x}
    if kind == 'not not':
        return f'! !{x}', boolean(x), {x}
    s, f, ps = chain(ctx, name, 2, props, False)
    if kind == 'paren':
        return f'({s})', f, ps
    return f'!({s})', z3.Not(f), ps


def chain(ctx, name, n, props, nested=True):
    """Operands joined by operators; conjunction binds tighter."""
    s, f, ps = literal(ctx, f'{name}.0', props, nested)
    text = s
    terms, now = list(), [f]
    for k in range(1, n):
        op = ctx.pick(f'{name}.op{k}', ['&&', '||'])
        s, f, more = literal(
            ctx, f'{name}.{k}', props, nested and n == 2)
        text += f' {op} {s}'
        ps = ps | more
        if op == '||':
            terms.append(z3.And(*now))
            now = list()
        now.append(f)
    terms.append(z3.And(*now))
    return text, z3.Or(*terms), ps


# ------------------------------------------------------------ claims


class Claim:
    """Never claim, as text and as a reference automaton."""

    def __init__(self, formula):
        self.head = f'never {{ /* {formula} */\n'
        self.body = list()
        self.states, self.props = set(), set()
        self.edges = dict()

    def add(self, u, v, guard):
        self.states |= {u, v}
        self.edges.setdefault((u, v), list()).append(guard)

    def cases(self, u, cases):
        s = f'{u}:\n\tif\n'
        for text, formula, props, v in cases:
            s += f'\t:: {text} -> goto {v}\n'
            self.add(u, v, formula)
            self.props |= props
        self.body.append(s + '\tfi;\n')

    def skip(self, u):
        self.body.append(f'{u}:\n\tskip\n')
        self.add(u, u, z3.BoolVal(True))

    def false(self, u):
        self.body.append(f'{u}:\n\tfalse;\n')
        self.states.add(u)

    @property
    def text(self):
        return self.head + ''.join(self.body) + '}\n'


def compare(ctx, ref, states, edges, initial, accepting, props):
    ctx.check(set(states) == ref.states, 'states')
    ctx.check(set(initial) == {
        u for u in ref.states if u.endswith('_init')}, 'initial states')
    ctx.check(set(accepting) == {
        u for u in ref.states if u.startswith('accept')},
        'accepting states')
    ctx.check(set(props) == ref.props, 'atomic propositions')
    got = dict()
    for u, v, d in edges:
        got.setdefault((u, v), list()).append(meaning(d['guard']))
    for k in set(got) | set(ref.edges):
        a = z3.Or(z3.BoolVal(False), *got.get(k, ()))
        b = z3.Or(z3.BoolVal(False), *ref.edges.get(k, ()))
        ctx.check(symx.mk(a == b), 'guard of a transition')


class Translator:
    """Stand-in for the program `ltl2ba`."""

    def __init__(self, text, code=0):
        self.text, self.code, self.args = text, code, list()

    def __enter__(self):
        self.real = mod.subprocess
        me = self

        class Popen:
            def __init__(self, args, **kw):
                me.args.append(args)
                self.returncode = me.code
                self.stdout = types.SimpleNamespace(read=lambda: me.text)

            def wait(self):
                return me.code

            def poll(self):
                return me.code

            def communicate(self, *a, **kw):
                return me.text, None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        ns = types.SimpleNamespace(**{
            k: getattr(self.real, k) for k in dir(self.real)
            if not k.startswith('__')})

        def run(args, **kw):
            me.args.append(args)
            if kw.get('check') and me.code:
                raise self.real.CalledProcessError(me.code, args)
            return types.SimpleNamespace(
                returncode=me.code, stdout=me.text, stderr='')
        ns.call = lambda *a, **kw: 0
        ns.check_call = lambda *a, **kw: 0
        ns.Popen, ns.run = Popen, run
        ns.check_output = lambda args, **kw: run(
            args, check=True, **kw).stdout
        mod.subprocess = ns
        return self

    def __exit__(self, *a):
        mod.subprocess = self.real


NAMES = [('p', 'q'), ('init_p', 'accept'), ('_x1', 'goto1'),
         ('falsehood', 'P'), ('fi_1', 'ifx'), ('skipped', 'never1')]
FORMULAS = ['p', '[] (p -> <> q)', '! (p U q) && X {r}']


def check_all(ctx, ref, through):
    """Parse the claim, or call the translator."""
    p = parser()
    ctx.note(claim=ref.text, through=through)
    if through == 'parser':
        symbols, g, initial, accepting = p.parse(ref.text)
        ctx.check(all(v == 'boolean' for v in symbols.values()), 'types')
        compare(ctx, ref, g, g.edges(data=True), initial, accepting,
                symbols)
        return
    if through == 'second':
        p.parse(FIRST)
        symbols, g, initial, accepting = p.parse(ref.text)
        compare(ctx, ref, g, g.edges(data=True), initial, accepting,
                symbols)
        return
    real = mod.Parser
    mod.Parser = lambda: p
    try:
        with Translator(ref.text) as t:
            ba = mod.ltl2ba('[] p')
    finally:
        mod.Parser = real
    ctx.check(len(t.args) == 1 and any(
        '[] p' in a for a in t.args[0]), 'formula given to translator')
    compare(ctx, ref, ba.states, ba.edges(data=True), ba.states.initial,
            ba.accepting, ba.atomic_propositions)


FIRST = '''never { /* first */
accept_init:
	if
	:: (zz) -> goto T0_S9
	fi;
T0_S9:
	false;
}
'''


def guards(ctx):
    """Claims with any guard."""
    props = NAMES[0]
    n = ctx.pick('operands', [1, 2, 3])
    text, f, ps = chain(ctx, 'g', n, props)
    if ctx.pick('outer', [True, False]):
        text = f'({text})'
    ref = Claim(FORMULAS[0])
    ref.cases('T0_init', [
        (text, f, ps, 'accept_S1'),
        ('(1)', z3.BoolVal(True), set(), 'T0_init')])
    ref.cases('accept_S1', [
        ('(1)', z3.BoolVal(True), set(), 'T0_init')])
    check_all(ctx, ref, 'parser')
    ctx.label('guard')


def graphs(n, deep=False):
    def fn(ctx):
        props = NAMES[ctx.pick('names', range(len(NAMES)))] if (
            n == 1) else NAMES[0]
        through = 'parser' if deep else ctx.pick(
            'through', ['parser', 'translator', 'second'])
        menu = [
            ('(1)', z3.BoolVal(True), set()),
            ('(%s && !%s)' % props, z3.And(
                boolean(props[0]), z3.Not(boolean(props[1]))), set(props)),
            ('(!%s) || (%s)' % props[::-1], z3.Or(
                z3.Not(boolean(props[1])), boolean(props[0])), set(props))]
        menu = menu if n < 3 else menu[:2]
        ref = Claim(FORMULAS[ctx.pick('formula', range(3))
                             if n == 1 else n % 3])
        names = [
            'accept_init' if ctx.flag('accepting0') else 'T0_init']
        for k in range(1, n):
            names.append(
                (f'accept_S{k}' if ctx.flag(f'accepting{k}') else
                 f'T{k % 2}_S{k}') if k < n - 1 else
                ctx.pick('last', ['accept_all', f'T1_S{k + 9}']))
        for k, u in enumerate(names):
            if u == 'accept_all':
                ref.skip(u)
                continue
            cases = list()
            for v in names:
                j = names.index(v)
                options = menu if n < 3 or deep else [menu[(k + j) % 2]]
                g = ctx.pick(f'edge{k}.{j}', [None] + options)
                if g is not None:
                    cases.append((*g, v))
            if n == 1 and cases and ctx.flag('again'):
                cases.append((*menu[0], names[0]))
            if cases:
                ref.cases(u, cases)
                ctx.label('cases')
            else:
                ref.false(u)
        check_all(ctx, ref, through)
    return fn


def fails(ctx):
    """Errors of the translator."""
    code = ctx.int('code', 0, 3)
    if ctx.replaying:
        zero = code == 0
    else:
        zero = bool(code == 0)
        code = 0 if zero else code.concretize()
    real = mod.Parser
    p = parser()
    mod.Parser = lambda: p
    try:
        with Translator(FIRST, code):
            mod.ltl2ba('p')
        ok = True
    except Exception as e:
        ok = False
        if type(e).__name__ == 'AttributeError':
            raise
    finally:
        mod.Parser = real
    ctx.check(ok == zero, 'failure of the translator')
    ctx.label('code')


BOUNDS = dict(
    quick='claims with 1 to 3 states in the format that ltl2ba prints '
    '(if, skip, and false statements), any accepting states, any '
    'transitions, with any of 3 guards (3 states: one guard for each); guards with up to 3 operands and '
    'one level of parentheses, all operators and precedences; six pairs '
    'of names of propositions; a parser used once or again; called '
    'directly or via ltl2ba()',
    thorough='as quick, with any guard out of two for each transition '
    'between three states')
OUTSIDE = (
    'Claims in other formats, and text that is not a claim; the program '
    'ltl2ba itself, which is not installed.')
ASSUMPTIONS = [
    'ltl2ba is replaced by a stand-in that prints the claim, in the format '
    'of print_spin_buchi in its sources']
EXPLANATION = (
    'Claims within bounds are printed and parsed by the real lexer and '
    'parser. States, initial and accepting states, and propositions are '
    'compared, and for each pair of states the solver decides, over all '
    'values of the propositions, that the parsed guards are equivalent to '
    'those of the claim.')


def harnesses(tier):
    r = [
        symx.Harness('guards', guards, ['guard']),
        symx.Harness('one', graphs(1), ['cases']),
        symx.Harness('two', graphs(2), ['cases']),
        symx.Harness('three', graphs(3), ['cases']),
        symx.Harness('fails', fails, ['code'])]
    if tier != 'quick':
        r.append(symx.Harness('any three', graphs(3, True), ['cases']))
    return r
