"""C19: output of solvers loads as the strategy that was printed."""
import io
import json
import os
import tempfile
import types

import symx
import z3

from tulip.interfaces import gr1c, slugs
from tulip.spec import GRSpec

# -------------------------------------------------- printed strategies

VARS = [
    # environment, system
    ([], [('y', 'boolean')]),
    ([('x', 'boolean')], [('n', (0, 3))]),
    ([('n', (1, 2)), ('a', 'boolean')], [('m', (2, 5)), ('y', 'boolean')]),
    ([('b', (0, 1))], [])]
IDS = [['0', '1', '2'], ['0x1E8FA40', '0x1E8FA00', '0x1E8F990'],
       ['7', '30', '3']]


class Strategy:
    """Graph with symbolic values at nodes."""

    def __init__(self, ctx, n, ids, variables, free=True, initial=True):
        self.env, self.sys = variables
        self.names = [k for k, _ in self.env + self.sys]
        self.ids = ids[:n]
        self.values, self.edges = dict(), list()
        self.initial, self.marks = dict(), dict()
        for i, u in enumerate(self.ids):
            for k, dom in self.env + self.sys:
                lo, hi = (0, 1) if dom == 'boolean' else dom
                self.values[u, k] = ctx.int(
                    f'{k}.{i}', lo, hi) if free else (
                        lo + ctx.pick(f'{k}.{i}', range(hi - lo + 1)))
            self.initial[u] = initial and ctx.flag(f'initial{i}')
            self.marks[u] = (
                ctx.int(f'mode{i}', 0, 3), ctx.int(f'rgrad{i}', 0, 3)) if (
                    free) else (i, 2 - i)
            for j, v in enumerate(self.ids):
                if ctx.flag(f'edge{i}{j}'):
                    self.edges.append((u, v))


def compare(ctx, ref, g, key=str, value=lambda x: x):
    ctx.check({key(u) for u in g} == set(ref.ids) and len(g) == len(
        ref.ids), 'nodes')
    got = sorted((key(u), key(v)) for u, v in g.edges())
    ctx.check(got == sorted(ref.edges), 'edges')
    for u, d in g.nodes(data=True):
        state = d['state']
        ctx.check(set(state) == set(ref.names), 'variables of a node')
        for k in ref.names:
            ctx.check(value(state[k]) == ref.values[key(u), k],
                      'value of a variable')


def domains(got, want):
    return {k: v if v == 'boolean' else tuple(v)
            for k, v in dict(got).items()} == dict(want)


# -------------------------------------------------------------- JSON


def json_data(ref):
    def decl(vs):
        return [{k: v if v == 'boolean' else list(v)} for k, v in vs]
    return dict(
        version=1, gr1c='0.13.0', date='2015-10-10 16:56:17', extra='',
        ENV=decl(ref.env), SYS=decl(ref.sys),
        nodes={u: dict(
            state=[ref.values[u, k] for k in ref.names],
            mode=ref.marks[u][0], rgrad=ref.marks[u][1],
            initial=ref.initial[u],
            trans=[b for a, b in ref.edges if a == u]) for u in ref.ids})


class Loads:
    """Text of JSON that stands for data with symbolic values."""

    def __init__(self, mod, data, ctx):
        self.mod, self.data, self.ctx = mod, data, ctx

    def __enter__(self):
        if self.ctx.replaying:
            return json.dumps(self.data, default=lambda x: int(x))
        self.real = self.mod.json
        self.text = 'TEXT'

        def loads(x):
            if not isinstance(x, str):
                raise TypeError
            assert x == self.text
            return self.data

        def load(f):
            return loads(f.read())
        self.mod.json = types.SimpleNamespace(
            loads=loads, load=load, dumps=json.dumps,
            JSONDecodeError=json.JSONDecodeError)
        return self.text

    def __exit__(self, *a):
        if not self.ctx.replaying:
            self.mod.json = self.real


def from_json(n):
    def fn(ctx):
        which = ctx.pick('variables', range(4)) if n < 3 else 1
        ids = IDS[ctx.pick('ids', [0, 1])] if n < 3 else IDS[1]
        ref = Strategy(ctx, n, ids, VARS[which])
        how = ctx.pick('how', ['text', 'file', 'path', 'synthesize']) if (
            n < 3) else 'text'
        data = json_data(ref)
        ctx.note(edges=ref.edges, how=how)
        with Loads(gr1c, data, ctx) as text:
            if how == 'text':
                g = gr1c.load_aut_json(text)
            elif how == 'file':
                g = gr1c.load_aut_json(io.StringIO(text))
            elif how == 'path':
                with tempfile.TemporaryDirectory() as d:
                    f = os.path.join(d, 'a.json')
                    with open(f, 'w') as fd:
                        fd.write(text)
                    g = gr1c.load_mealy(f, ctx.pick(
                        'format', ['json', 'JSON']))
            else:
                with Process(gr1c, text) as p:
                    g = gr1c.synthesize(spec())
                ctx.check(len(p.calls) == 1, 'calls to solver')
        compare(ctx, ref, g)
        ctx.check(domains(g.env_vars, ref.env) and domains(
            g.sys_vars, ref.sys), 'domains of variables')
        ctx.check(set(g.initial_nodes) == {
            u for u in ref.ids if ref.initial[u]}, 'initial nodes')
        for u in ref.ids:
            d = g.nodes[u]
            ctx.check(d.get('mode') == ref.marks[u][0], 'mode')
            ctx.check(d.get('rgrad') == ref.marks[u][1], 'rgrad')
            ctx.check(bool(d.get('initial')) == ref.initial[u], 'initial')
        if ref.edges:
            ctx.label('edges')
    return fn


# --------------------------------------------------------------- XML


def decl(vs):
    return ''.join(
        f'<item key="{k}" value="'
        f'{v if v == "boolean" else "[%d, %d]" % v}" />' for k, v in vs)


SPECS = [
    {}, dict(env_init=['x'], sys_safety=['y &amp; x -&gt; y', 'n &lt; 2']),
    dict(env_prog=['x'], sys_prog=['y', '!y'], sys_init=['y'],
         env_safety=['x'])]
PARTS = ['env_init', 'env_safety', 'env_prog',
         'sys_init', 'sys_safety', 'sys_prog']


class Numbers:
    """Literals in text that stand for symbolic integers.

    Text contains distinct numerals. Conversion of such a numeral to an
    integer in the loading module returns the symbolic integer.
    """

    def __init__(self, mod, ctx):
        self.mod, self.ctx, self.table = mod, ctx, dict()

    def print(self, x):
        if self.ctx.replaying:
            return str(x)
        k = str(1000001 + len(self.table))
        self.table[k] = x
        return k

    def value(self, x):
        if type(x) is int:
            return self.table.get(str(x), x)
        return x

    def __enter__(self):
        if self.ctx.replaying:
            return
        table = self.table

        class integer(int):
            def __new__(cls, *a):
                if len(a) == 1 and isinstance(a[0], str) and (
                        a[0].strip() in table):
                    return table[a[0].strip()]
                return int(*a)
        self.mod.int = integer

    def __exit__(self, *a):
        if not self.ctx.replaying:
            del self.mod.int


def unescape(s):
    return s.replace('&amp;', '&').replace('&gt;', '>').replace('&lt;', '<')


def xml(ref, ns, pretty, items, anno, formulas, extent, num):
    nl = '\n  ' if pretty else ''

    def seq(xs):
        if items:
            return ''.join(f'<litem value="{x}" />' for x in xs)
        return ' '.join(map(str, xs))
    s = '<?xml version="1.0"?>\n<tulipcon%s version="1">' % (
        f' xmlns="{ns}"' if ns else '')
    s += f'{nl}<env_vars>{decl(ref.env)}</env_vars>'
    s += f'{nl}<sys_vars>{decl(ref.sys)}</sys_vars>{nl}<spec>'
    for p in PARTS:
        s += f'<{p}>' + ''.join(
            f'<litem value="{f}" />' for f in formulas.get(p, [])) + f'</{p}>'
    s += '</spec>' + nl
    if extent == 'none':
        return s + '</tulipcon>'
    if extent == 'empty':
        return s + '<aut type="basic" /></tulipcon>'
    s += '<aut type="basic">' + nl
    for u in ref.ids:
        marks = seq(map(num, ref.marks[u])) if anno else ''
        s += f'<node>{nl}<id>{u}</id><anno>{marks}</anno><child_list>'
        s += seq([b for a, b in ref.edges if a == u]) + '</child_list>'
        s += '<state>' + ''.join(
            f'<item key="{k}" value="{num(ref.values[u, k])}" />'
            for k in ref.names) + f'</state>{nl}</node>{nl}'
    return s + f'</aut>{nl}<extra></extra></tulipcon>'


def load_xml(ctx, text, ns, extent):
    if ns != gr1c.DEFAULT_NAMESPACE:
        return gr1c.load_aut_xml(text, namespace=ns)
    if not ctx.flag('file'):
        return gr1c.load_aut_xml(text)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.xml')
        with open(f, 'w') as fd:
            fd.write(text)
        return gr1c.load_mealy(f) if extent == 'aut' else None


def from_xml(ctx):
    n = ctx.pick('nodes', [1, 2])
    which = ctx.pick('variables', [0, 1, 3]) if n == 2 else (
        ctx.pick('variables', range(4)))
    ref = Strategy(
        ctx, n, IDS[ctx.pick('ids', [0, 2])], VARS[which], initial=False)
    formulas = SPECS[ctx.pick('formulas', range(3)) if n == 1 else 1]
    pretty, items, anno = ctx.pick('style', [
        (True, False, False), (False, False, True), (True, True, True),
        (False, True, False)])
    ns = ctx.pick('namespace', [
        gr1c.DEFAULT_NAMESPACE, '', 'http://example.org/ns'])
    extent = ctx.pick('extent', ['aut', 'none', 'empty']) if n == 1 else (
        'aut')
    numbers = Numbers(gr1c, ctx)
    text = xml(ref, ns, pretty, items, anno, formulas, extent, numbers.print)
    ctx.note(text=text)
    with numbers:
        g = load_xml(ctx, text, ns, extent)
    if g is None:
        return
    if extent != 'aut':
        got, none = g
        ctx.check(none is None, 'strategy')
        ctx.check(domains(got.env_vars, ref.env) and domains(
            got.sys_vars, ref.sys), 'domains of variables')
        for p in PARTS:
            ctx.check(list(getattr(got, p)) == [
                unescape(f) for f in formulas.get(p, [])], 'formulas')
        ctx.label('specification')
        return
    ctx.label('strategy')
    compare(ctx, ref, g, value=numbers.value)
    ctx.check(domains(g.env_vars, ref.env) and domains(
        g.sys_vars, ref.sys), 'domains of variables')
    for u in ref.ids:
        d = g.nodes[int(u)]
        for k, x in zip(['mode', 'rgrad'], ref.marks[u]):
            ctx.check(numbers.value(d.get(k)) == (x if anno else -1), 'annotations')


# ------------------------------------------------------------- slugs


def width(lo, hi):
    """Number of bits of `slugs` for a variable."""
    n = 0
    while 2**n <= hi - lo:
        n += 1
    return n


def bit_names(k, dom):
    if dom == 'boolean':
        return [k]
    lo, hi = dom
    return [f'{k}@0.{lo}.{hi}'] + [
        f'{k}@{i}' for i in range(1, width(lo, hi))]


def bits(ctx):
    """Integers from their bits."""
    top = 9
    lo = ctx.int('lo', 0, top)
    hi = ctx.int('hi', 0, top)
    if not ctx.replaying:
        lo, hi = lo.concretize(), hi.concretize()
    ctx.assume(lo < hi)
    w = width(lo, hi)
    vec = [ctx.int(f'bit{i}', 0, 1) for i in range(w)]
    z = ctx.int('flag', 0, 1)
    style = ctx.pick('style', [int, str])
    if not ctx.replaying:
        vec = [v.concretize() for v in vec]
    value = sum(2**i * b for i, b in enumerate(vec)) + lo
    ctx.assume(value <= hi)
    d = {k: style(b) for k, b in zip(bit_names('n', (lo, hi)), vec)}
    d.update(z=z)
    ctx.note(lo=lo, hi=hi, bits=vec)
    r = slugs._bitfields_to_ints(d, dict(n=(lo, hi), z='boolean'))
    ctx.check(set(r) == {'n', 'z'}, 'variables')
    ctx.check(r['n'] == value, 'value of an integer')
    ctx.check(r['z'] == z, 'value of a Boolean')
    ctx.label('value')


def spec():
    return GRSpec(
        env_vars=dict(x='boolean'), sys_vars=dict(n=(1, 4)),
        sys_init=['n = 1'], sys_prog=['n = 2'], moore=False,
        plus_one=False, qinit=r'\A \E')


class Process:
    """Stand-in for solvers that run as other processes."""

    def __init__(self, mod, out='', err='', code=0, version='0.13.0'):
        self.mod, self.out, self.err = mod, out, err
        self.code, self.version, self.calls = code, version, list()
        self.given = list()

    def __enter__(self):
        self.real = self.mod.subprocess
        me = self

        def read(f):
            if hasattr(f, 'read'):
                f.seek(0)
                s = f.read()
                me.given.append(s.decode() if isinstance(s, bytes) else s)

        class Popen:
            def __init__(self, args, stdin=None, **kw):
                me.calls.append(list(args))
                read(stdin)
                self.returncode = me.code
                self.stdout = io.StringIO(me.out)
                self.stderr = io.StringIO(me.err)

            def wait(self, **kw):
                return me.code

            poll = wait

            def communicate(self, text=None, **kw):
                me.given.append(text)
                return me.out, me.err

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        def run(args, input=None, stdin=None, **kw):
            me.calls.append(list(args))
            me.given.append(input)
            read(stdin)
            return types.SimpleNamespace(
                returncode=me.code, stdout=me.out, stderr=me.err)
        ns = types.SimpleNamespace(**{
            k: getattr(self.real, k) for k in dir(self.real)
            if not k.startswith('__')})
        ns.Popen, ns.run = Popen, run
        ns.check_output = lambda *a, **kw: f'gr1c {me.version}\n'
        ns.check_call = lambda *a, **kw: 0
        ns.call = lambda *a, **kw: 0
        self.mod.subprocess = ns
        return self

    def __exit__(self, *a):
        self.mod.subprocess = self.real


class Path:
    """Directory with a file named `slugs`, in place of that program."""

    def __enter__(self):
        self.dir = tempfile.TemporaryDirectory()
        d = self.dir.name
        for f in ('slugs', 'compiler.py'):
            open(os.path.join(d, f), 'w').close()
        self.old = os.environ['PATH'], slugs.SLUGS_COMPILER_PATH
        self.tmp = tempfile.tempdir
        tempfile.tempdir = d
        os.environ['PATH'] = f'{d}:{self.old[0]}'
        slugs.SLUGS_COMPILER_PATH = os.path.join(d, 'compiler.py')

    def __exit__(self, *a):
        os.environ['PATH'], slugs.SLUGS_COMPILER_PATH = self.old
        tempfile.tempdir = self.tmp
        self.dir.cleanup()


def from_slugs(ctx):
    """Strategies that slugs prints, with values as bits."""
    n = ctx.pick('nodes', [1, 2])
    variables = ctx.pick('variables', [VARS[1], VARS[2], (
        [('x', 'boolean')], [('n', (1, 4))])] if n == 1 else [VARS[1]])
    ref = Strategy(
        ctx, n, IDS[ctx.pick('ids', [0, 2])], variables, free=False)
    names = [b for k, dom in ref.env + ref.sys for b in bit_names(k, dom)]
    nodes = dict()
    for u in ref.ids:
        state = list()
        for k, dom in ref.env + ref.sys:
            if dom == 'boolean':
                state.append(ref.values[u, k])
                continue
            v = ref.values[u, k] - dom[0]
            state.extend(v >> i & 1 for i in range(width(*dom)))
        nodes[u] = dict(rank=0, state=state, trans=[
            int(b) for a, b in ref.edges if a == u])
    out = json.dumps(dict(
        version=0, slugs='0.0.1', variables=names, nodes=nodes))
    sp = GRSpec(
        env_vars=dict(ref.env), sys_vars=dict(ref.sys), moore=False,
        plus_one=False, qinit=r'\A \E')
    real = ctx.flag('realizable')
    text = 'is realizable' if real else 'is unrealizable'
    ctx.note(strategy=out)
    code = ctx.pick('code', [0, 1]) if n == 1 else 0
    fail = False
    with Path(), Process(
            slugs, out, f'RESULT: Specification {text}.\n', code) as p:
        try:
            ctx.check(
                slugs.check_realizable(sp) is real, 'realizability')
            ctx.check(not {'--explicitStrategy', '--symbolicStrategy'} & set(
                p.calls[-1]), 'asked for strategy')
            g = slugs.synthesize(sp)
            ctx.check({'--explicitStrategy', '--jsonOutput'} <= set(
                p.calls[-1]), 'not asked for explicit strategy')
        except Exception as e:
            if code == 0:
                raise
            fail = True
    ctx.check(fail == (code != 0), 'error of slugs')
    if fail:
        ctx.label('error')
        return
    if not real:
        ctx.check(g is None, 'strategy when unrealizable')
        ctx.label('unrealizable')
        return
    ctx.label('strategy')
    compare(ctx, ref, g)


def solver(ctx):
    """What gr1c is asked, and its answers."""
    q = ctx.pick('qinit', [r'\A \E', r'\A \A', r'\E \E', r'\E \A'])
    code = ctx.int('code', 0, 3)
    if not ctx.replaying:
        code = code.concretize()
    version = ctx.pick('version', ['0.9.0', '0.13.0', '0.10.2', '0.8.1'])
    sp = GRSpec(
        env_vars=dict(x='boolean'), sys_vars=dict(y='boolean'),
        sys_prog=['y'], moore=False, plus_one=False, qinit=q)
    what = ctx.pick('what', ['realizable', 'synthesize', 'syntax'])
    new = tuple(map(int, version.split('.'))) >= (0, 9, 0)
    data = dict(version=1, ENV=[dict(x='boolean')], SYS=[dict(y='boolean')],
                nodes=dict())
    r = e = None
    with Process(gr1c, json.dumps(data) if code == 0 else 'no', '', code,
                 version) as p:
        ctx.check(gr1c.check_gr1c() is new, 'version of gr1c')
        ctx.check(gr1c.get_version() == tuple(
            map(int, version.split('.'))), 'get_version')
        try:
            if what == 'realizable':
                r = gr1c.check_realizable(sp)
            elif what == 'synthesize':
                r = gr1c.synthesize(sp)
            else:
                r = gr1c.check_syntax('ENV:; SYS:;')
        except Exception as ex:
            e = ex
    ctx.note(qinit=q, code=code, version=version, what=what)
    asked = new and (what == 'syntax' or q != r'\E \A')
    ctx.check((e is None) == asked, 'error', detail=str(e))
    if not asked:
        ctx.label('error')
        ctx.check(not p.calls, 'asked for unsupported initial conditions')
        return
    ctx.check(len(p.calls) == 1 and len(p.given) == 1, 'calls')
    args, = p.calls
    if what != 'syntax':
        ctx.check(args[args.index('-n') + 1] == (
            'ALL_ENV_EXIST_SYS_INIT' if q == r'\A \E' else
            'ONE_SIDE_INIT'), 'initial conditions')
        text = gr1c.translate(sp, 'gr1c')
        ctx.check(p.given[0] == text, 'specification given to gr1c')
    if what == 'synthesize':
        ctx.check((r is None) == (code != 0), 'strategy when unrealizable')
    else:
        ctx.check(r is (code == 0), 'answer of gr1c')
    ctx.label('answer')


def formats(ctx):
    """Files in unknown formats."""
    fmt = ctx.pick('format', ['yaml', 'xml', ''])
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a')
        with open(f, 'w') as fd:
            fd.write('{}')
        try:
            gr1c.load_mealy(f, fmt)
        except ValueError:
            ctx.label('error')
            return
    ctx.check(False, 'no error for unknown format')


# ----------------------------------------------------------- sessions


def session(ctx):
    """Interactive sessions, with a stand-in for the process."""
    env = ctx.pick('env', [[], ['a'], ['b', 'a']])
    sys = ctx.pick('sys', [['y'], ['y', 'x']])
    prompt = ctx.pick('prompt', ['>>> ', ''])
    top = 1 if len(env + sys) > 2 else 2
    state = {k: ctx.int(f'state.{k}', 0, top) for k in sorted(env + sys)}
    move = {k: ctx.int(f'move.{k}', 0, 1) for k in sorted(env)}
    if not ctx.replaying:
        for d in (state, move):
            for k in d:
                d[k] = d[k].concretize()
    what = ctx.pick('what', [
        'iswinning', 'getindex', 'env_next', 'sys_nextfeas', 'sys_nexta',
        'numgoals', 'getvars'])
    sent, lines = list(), list()
    n_goals = ctx.pick('goals', [1, 2]) if what in (
        'getindex', 'sys_nextfeas', 'numgoals') else 1
    k = ctx.pick('moves', [0, 1, 2]) if 'next' in what else 0
    keys = env if what == 'env_next' else sys
    moves = [{v: (i + 2 * j) % 3 for j, v in enumerate(keys)} for i in range(k)]

    def write(s):
        sent.append(s)
        if s == 'numgoals\n':
            lines.append(f'{prompt}{n_goals}\n')
        elif s.startswith('winning'):
            lines.append(prompt + ('True\n' if win else 'False\n'))
        elif s.startswith('getindex'):
            lines.append(f'{prompt}3\n')
        elif s == 'var\n':
            lines.append(f'{prompt}a (0), y (1)\n')
        else:
            rows = [' '.join(str(m[v]) for v in keys) + '\n'
                    for m in moves] + ['---\n']
            rows[0] = prompt + rows[0]
            lines.extend(rows)
    win = ctx.flag('win') if what == 'iswinning' else False
    s = gr1c.GR1CSession(None, sys, env, prompt)
    s.p = types.SimpleNamespace(
        stdin=types.SimpleNamespace(write=write, flush=lambda: None),
        stdout=types.SimpleNamespace(readline=lambda: lines.pop(0)))
    vec = ' '.join(str(state[v]) for v in env + sys)
    mvec = ' '.join(str(move[v]) for v in env)
    goal = ctx.pick('goal', [0, 1, 2]) if n_goals == 2 else 0
    ctx.note(what=what, state=state, move=move, env=env, sys=sys)
    try:
        if what == 'iswinning':
            r, want, cmd = s.iswinning(state), win, f'winning {vec}\n'
        elif what == 'getindex':
            want, cmd = 3, f'getindex {vec} {goal}\n'
            r = s.getindex(state, goal)
        elif what == 'env_next':
            r, want, cmd = s.env_next(state), moves, f'envnext {vec}\n'
        elif what == 'sys_nextfeas':
            want, cmd = moves, f'sysnext {vec} {mvec} {goal}\n'
            r = s.sys_nextfeas(state, move, goal)
        elif what == 'sys_nexta':
            r, want = s.sys_nexta(state, move), moves
            cmd = f'sysnexta {vec} {mvec}\n'
        elif what == 'numgoals':
            r, want, cmd = s.numgoals(), n_goals, 'numgoals\n'
        else:
            r, want, cmd = s.getvars(), 'a (0), y (1)', 'var\n'
    except ValueError:
        ctx.check(goal >= n_goals, 'error for a goal that exists')
        ctx.label('no goal')
        return
    if what in ('getindex', 'sys_nextfeas'):
        ctx.check(goal < n_goals, 'no error for a missing goal')
    ctx.check(sent[-1].split() == cmd.split(), 'sent command')
    ctx.check(r == want, 'answer')
    ctx.check(not lines, 'answer not read')
    ctx.label('answer')


BOUNDS = dict(
    quick='strategies with 1 or 2 nodes (JSON: also 3), any edges, any '
    'values of up to 4 variables (Boolean, or integers in [0..3], [1..2], '
    '[2..5]), any initial nodes and annotations; four styles of XML, three '
    'namespaces; all domains of integers within [0..9] for bits; gr1c '
    'sessions with up to 4 variables with values 0 to 2',
    thorough='as quick')
OUTSIDE = (
    'Negative integers. Text that the solvers do not print. '
    'The solvers themselves, which are not installed. Symbolic strategies '
    'of slugs.')
ASSUMPTIONS = [
    'slugs encodes an integer variable min...max as the bits of its '
    'difference from min, little-endian, in bit_length(max - min) bits, '
    'the first named var@0.min.max (as the compiler of structured slugs '
    'does)',
    'for JSON, the data that json.loads returns has symbolic values in '
    'place of numbers (replay: text and the real json)',
    'for XML, numerals in the text stand for symbolic integers, which int() '
    'called in the loader returns (replay: text with numerals)',
    'gr1c, slugs are replaced by stand-ins that record how they are called']
EXPLANATION = (
    'Loaders run on the printed form of all strategies within bounds; '
    'nodes, edges, domains, and values of the returned graph are those '
    'printed. Values and annotations in JSON stay symbolic.')


def harnesses(tier):
    H = symx.Harness
    return [
        H('json one', from_json(1), ['edges'], opaque_repr='all'),
        H('json two', from_json(2), ['edges'], opaque_repr='all'),
        H('json three', from_json(3), ['edges'], opaque_repr='all'),
        H('xml', from_xml, ['strategy', 'specification'],
          opaque_repr='all'),
        H('bits', bits, ['value']),
        H('slugs', from_slugs, ['strategy', 'unrealizable', 'error']),
        H('solver', solver, ['answer', 'error']),
        H('formats', formats, ['error']),
        H('session', session, ['answer', 'no goal'])]
