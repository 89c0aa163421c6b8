"""C03: rewriting a specification preserves its meaning."""
import io
import itertools

import ltl
import symx
import z3
from ltl import var, num, conj

import tulip.spec.form as form
import tulip.spec.parser as parser
import tulip.spec.transformation as tx
from tulip.spec.form import GRSpec, LTL

PARTS = ('env_init', 'env_safety', 'env_prog',
         'sys_init', 'sys_safety', 'sys_prog')
E, D, S, X, Y, M, N = map(var, 'edsxymn')
WORDS = ['up', 'mid', 'low']
DOMS = dict(
    e='boolean', d='boolean', x=(0, 3), m=list(WORDS),
    s='boolean', y=(0, 3), n=list(WORDS))
ENV = 'edxm'


def at(v, word):
    return ('=', v, ('str', word))


def nxt(f):
    return ('X', f)


POOL = {
    'env_init': [E, ('->', D, ('=', X, num(1))), ('|', ('!', E), D)],
    'env_safety': [
        ('|', nxt(E), D), ('->', S, nxt(('!', E))),
        ('<->', nxt(('<', X, num(2))), E)],
    'env_prog': [('|', E, ('!=', X, num(3))), ('!', D), ('->', S, E)],
    'sys_init': [('|', S, E), ('->', E, ('=', Y, num(2))), ('!', S)],
    'sys_safety': [
        ('->', S, nxt(S)), ('|', E, nxt(('!', S))),
        nxt(('->', E, ('>', Y, num(0))))],
    'sys_prog': [S, ('<->', E, S), ('|', ('=', Y, num(2)), D)]}


def quantify(part, f):
    if part.endswith('safety'):
        return ('G', f)
    if part.endswith('prog'):
        return ('G', ('F', f))
    return f


def meaning(parts, which=PARTS):
    return conj(quantify(p, f) for p in which for f in parts.get(p, ()))


def implication(parts):
    return ('->', meaning(parts, PARTS[:3]), meaning(parts, PARTS[3:]))


def build(doms, parts, **kw):
    return GRSpec(
        env_vars={k: v for k, v in doms.items() if k in ENV},
        sys_vars={k: v for k, v in doms.items() if k not in ENV},
        **{p: [ltl.unparse(f) for f in fs] for p, fs in parts.items()}, **kw)


def word(ctx, doms, k, tag='w'):
    w = ltl.Lasso(k, doms, tag=tag)
    for c in w.consts:
        ctx.free(c)
    for c in w.constraints:
        ctx.assume(c) if ctx.replaying else ctx.solver.add(c)
    return w


def same(ctx, w, f, text, what, key=None):
    """Text `text` (or formula) holds when `f` does."""
    try:
        g = ltl.TULIP.parse(text) if isinstance(text, str) else text
        a, b = w.row(f), w.row(g)
    except ltl.ParseError as e:
        ctx.check(False, f'{what}: not a formula: {e}', key=key)
        return
    ctx.check(a[0] == b[0], f'{what}: differs in meaning', key=key)


def parts_of(spec):
    return {p: list(getattr(spec, p)) for p in PARTS}


def parsed(ctx, spec, what):
    r = dict()
    for p in PARTS:
        try:
            r[p] = [ltl.TULIP.parse(x) for x in getattr(spec, p)]
        except ltl.ParseError as e:
            ctx.check(False, f'{what}: {p}: not a formula: {e}')
    return r


def subst(f, m):
    """Simultaneous substitution."""
    if f[0] == 'var':
        return m.get(f[1], f)
    if f[0] in ('num', 'bool', 'str'):
        return f
    return (f[0],) + tuple(subst(x, m) for x in f[1:])


_UN = {'!': '!', 'X': 'X', 'G': 'G', 'F': 'F', '[]': 'G', '<>': 'F', '-': '-'}


class Misformed(Exception):
    output_is_wrong = True


def from_tree(u):
    """Formula of a syntax tree of the code under test."""
    if hasattr(u, 'value'):
        v = u.value
        if u.type == 'var':
            return var(v)
        if u.type == 'num':
            return num(int(v))
        if u.type == 'bool':
            return ('bool', v in ('True', True))
        if u.type == 'str':
            return ('str', v.strip('"'))
        raise Misformed(f'node {u!r}')
    op = {'&&': '&', '||': '|', '==': '='}.get(u.operator, u.operator)
    args = [from_tree(v) for v in u.operands]
    if op == '-' and len(args) == 1:
        return ('-', num(0), args[0])
    return (op, *args)


def choose(ctx, thorough, names=PARTS):
    """Any mix of parts."""
    parts = dict()
    if thorough:
        count = {p: ctx.pick(f'n.{p}', [0, 1, 2]) for p in PARTS}
    else:
        pair = ctx.pick('parts', list(itertools.combinations(PARTS, 2)))
        rest = ctx.pick('rest', [0, 1])
        count = {
            p: ctx.pick(f'n.{p}', [0, 1, 2]) if p in pair else rest
            for p in PARTS}
    shift = ctx.pick('shift', [0, 1])
    for p in PARTS:
        fs = POOL[p][shift:] + POOL[p][:shift]
        parts[p] = fs[:count[p]]
    return parts


# ------------------------------------------------- whole specifications


def canonical(k, thorough):
    def fn(ctx):
        parts = choose(ctx, thorough)
        doms = {v: d for v, d in DOMS.items() if v not in 'mn'}
        spec = build(doms, parts)
        want = implication(parts)
        w = word(ctx, doms, k)
        ctx.note(text=str(spec))
        same(ctx, w, want, spec.to_canon(), 'to_canon')
        same(ctx, w, want, str(spec), 'str')
        same(ctx, w, want, spec.formula, 'formula')
        # clauses added later
        p = ctx.pick('later', ['none', 'env_safety', 'sys_prog'])
        if p != 'none':
            f = POOL[p][-1]
            getattr(spec, p).append(ltl.unparse(f))
            parts[p] = parts[p] + [f]
            same(ctx, w, implication(parts), spec.to_canon(),
                 'to_canon after a change')
        ctx.label('compared')
    return symx.Harness('canonical', fn, ['compared'])


def copies(k):
    def fn(ctx):
        p = ctx.pick('part', PARTS)
        q = ctx.pick('other', PARTS)
        flags = dict(
            moore=ctx.flag('moore'), plus_one=ctx.flag('plus_one'),
            qinit=ctx.pick('qinit', [r'\A \A', r'\A \E', r'\E \A', r'\E \E']))
        parts = {p: POOL[p][:2]}
        if q != p:
            parts[q] = POOL[q][2:]
        doms = dict(DOMS)
        spec = build(doms, parts, **flags)
        was = parts_of(spec)
        c = spec.copy()
        for name, v in flags.items():
            ctx.check(getattr(c, name) == v, f'copy: option {name}')
        ctx.check(parts_of(c) == was, 'copy: clauses')
        ctx.check((dict(c.env_vars), dict(c.sys_vars)) == (
            dict(spec.env_vars), dict(spec.sys_vars)), 'copy: variables')
        # changes of one, seen by the other
        first, second = (spec, c) if ctx.flag('change original') else (c, spec)
        edit = ctx.pick('edit', [
            'append', 'remove', 'declare', 'domain', 'undeclare', 'option'])
        before = str(second)
        if edit == 'append':
            getattr(first, q).append('e')
        elif edit == 'remove':
            getattr(first, p).pop()
        elif edit == 'declare':
            first.declare('z', env=ctx.flag('env'))
        elif edit == 'domain':
            (first.env_vars if ctx.flag('env') else first.sys_vars)[
                'm' if ctx.flag('env2') else 'n'] = ['other']
            first.env_vars.get('m', list()).append('more')
        elif edit == 'undeclare':
            del first.env_vars['e'], first.sys_vars['s']
        else:
            first.moore = not flags['moore']
            first.qinit = 'changed'
        ctx.check(parts_of(second) == was, 'copy: shares clauses')
        ctx.check(
            {**second.env_vars, **second.sys_vars} == DOMS
            and set(second.env_vars) == set(ENV),
            'copy: shares variables')
        ctx.check(
            (second.moore, second.plus_one, second.qinit) == tuple(
                flags.values()), 'copy: shares options')
        ctx.check(str(second) == before, 'copy: shares text')
        ctx.label('copied')
    return symx.Harness('copies', fn, ['copied'])


def unions(k):
    def fn(ctx):
        flags = dict(
            moore=ctx.flag('moore'), plus_one=ctx.flag('plus_one'),
            qinit=ctx.pick('qinit', [r'\A \A', r'\E \E']))
        p = ctx.pick('part', PARTS)
        q = ctx.pick('other', PARTS)
        a = {p: POOL[p][:ctx.pick('na', [0, 1, 2])]}
        b = {q: POOL[q][-ctx.pick('nb', [1, 2]):]}
        used = {
            x: {v for fs in parts.values() for f in fs
                for v in ltl.variables(f)}
            for x, parts in dict(a=a, b=b).items()}
        da = {v: d for v, d in DOMS.items() if v in used['a'] or v in 'em'}
        db = {v: d for v, d in DOMS.items() if v in used['b'] or v in 'mn'}
        s, t = build(da, a, **flags), build(db, b, **flags)
        was = [(parts_of(z), dict(z.env_vars), dict(z.sys_vars))
               for z in (s, t)]
        u = s | t
        now = [(parts_of(z), dict(z.env_vars), dict(z.sys_vars))
               for z in (s, t)]
        ctx.check(was == now, 'union: changed an operand')
        doms = {**da, **db}
        ctx.check(
            dict(u.env_vars) == {v: d for v, d in doms.items() if v in ENV},
            'union: environment variables')
        ctx.check(
            dict(u.sys_vars) == {
                v: d for v, d in doms.items() if v not in ENV},
            'union: system variables')
        for name, v in flags.items():
            ctx.check(getattr(u, name) == v, f'union: option {name}')
        both = {r: list(a.get(r, ())) + list(b.get(r, ())) for r in PARTS}
        got = parsed(ctx, u, 'union')
        w = word(ctx, doms, k)
        for r in PARTS:
            same(ctx, w, meaning(both, [r]), meaning(got, [r]),
                 f'union: part {r}')
        same(ctx, w, implication(both), u.to_canon(), 'union: text')
        ctx.label('joined')
    return symx.Harness('unions', fn, ['joined'])


def mismatches(k):
    """Unions of specifications that disagree are refused."""
    def fn(ctx):
        side = ctx.pick('side', ['env', 'sys'])
        d = ctx.pick('first', ['boolean', (0, 3), (0, 2), ['a', 'b']])
        e = ctx.pick('second', ['boolean', (0, 3), (1, 3), ['b', 'a']])
        s = GRSpec(**{f'{side}_vars': dict(v=d, w='boolean')})
        t = GRSpec(**{f'{side}_vars': dict(v=e, z='boolean')})
        try:
            u = s | t
        except ValueError:
            ctx.check(d != e, 'union: refused equal domains')
            ctx.label('refused')
            return
        ctx.check(d == e, 'union: accepted different domains')
        ctx.check(
            getattr(u, f'{side}_vars') == dict(
                v=d, w='boolean', z='boolean'), 'union: variables')
        ctx.label('accepted')
    return symx.Harness('mismatches', fn, ['refused', 'accepted'])


# -------------------------------------------------------------- text files


def dumps(k):
    def dom(ctx, name):
        kind = ctx.pick(f'{name}.kind', [
            'absent', 'boolean', 'range', 'set', 'word'])
        if kind == 'absent':
            return None
        if kind == 'range':
            return ctx.pick(f'{name}.range', [(0, 7), (-2, 1), (3, 3)])
        if kind == 'set':
            return ctx.pick(f'{name}.set', [{1, 3, 5}, {-1}, {0, 12}])
        if kind == 'word':
            # several words: see `findings`
            return {'up'}
        return 'boolean'

    def fn(ctx):
        doms = {v: dom(ctx, v) for v in ('e', 's')}
        if ctx.flag('more'):
            doms['long_name2'] = 'boolean'
            doms['d'] = (0, 3)
        doms = {v: d for v, d in doms.items() if d is not None}
        ev = {v: d for v, d in doms.items() if v in ENV}
        sv = {v: d for v, d in doms.items() if v not in ENV}
        how = ctx.pick('how', ['LTL', 'GRSpec', 'edited'])
        formula = ctx.pick('formula', [
            '', 'True', '[](e -> X s) && []<> s',
            '([]<> e) ->\n ([]<> s)'])
        if how == 'LTL':
            spec = LTL(formula, dict(ev), dict(sv))
        else:
            spec = GRSpec(
                env_vars=dict(ev), sys_vars=dict(sv),
                sys_safety=['e -> X s'] if formula else list())
            formula = '[](e -> X s)' if formula else 'True'
            if how == 'edited':
                spec.env_prog.append('e')
                spec.sys_prog.append('s')
                formula = '[]<> e -> %s[]<> s' % (
                    '[](e -> X s) && ' if spec.sys_safety else '')
        text = spec.dumps(timestamp=ctx.flag('timestamp'))
        ctx.note(text=text)
        back = LTL.load(io.StringIO(text)) if ctx.flag(
            'file') else LTL.loads(text)
        ctx.check(dict(back.input_variables) == ev, 'loads: inputs')
        ctx.check(dict(back.output_variables) == sv, 'loads: outputs')
        if how == 'LTL':
            ctx.check(back.formula == formula, 'loads: formula')
        else:
            w = word(ctx, dict(e='boolean', s='boolean'), k)
            same(ctx, w, ltl.TULIP.parse(formula), back.formula,
                 'loads: formula of GRSpec')
        again = LTL.loads(back.dumps())
        ctx.check(
            again.formula == back.formula
            and again.input_variables == back.input_variables
            and again.output_variables == back.output_variables,
            'loads: second round')
        ctx.label('loaded')
    return symx.Harness('dumps', fn, ['loaded'])


def written(k):
    """Text files with comments, blanks, sections in any order."""
    def fn(ctx):
        ins = dict(e='boolean', x=(0, 3))
        outs = dict(s='boolean', y=(-1, 4), v={2, 7})

        def section(vs, name):
            sep = ctx.pick(f'{name}.sep', [' : ', ':'])
            end = ctx.pick(f'{name}.end', [';\n', '; ', ' ;\n'])
            r = ''
            for v, d in vs.items():
                if isinstance(d, tuple):
                    d = f'[{d[0]}, {d[1]}]'
                elif isinstance(d, set):
                    d = '{' + ', '.join(map(str, sorted(d))) + '}'
                    if ' ;' in end:
                        end = ';\n'
                elif ' ;' in end:
                    r += f'{v}{sep}{d};\n'
                    continue
                r += f'{v}{sep}{d}{end}'
            return r
        order = ctx.pick('order', [
            'io', 'oi', 'default', 'o only', 'i only', 'default then i'])
        i = 'INPUT:\n' + section(ins, 'i')
        header = ctx.pick('header', ['OUTPUT:\n', 'OUTPUT: '])
        body = section(outs, 'o')
        o = header + body
        decl = {
            'io': i + o, 'oi': o + i, 'default': body, 'o only': o,
            'i only': i, 'default then i': body + i}[order]
        version = ctx.pick('version', [
            '0\n', '0  # Version\n', '# text\n\n0\n', '  0 # v\n'])
        comment = ctx.pick('comment', ['', ' # remark: x; y\n'])
        formula = '[](e -> X s)'
        text = f'{version}%%\n{comment}{decl}\n%%\n{formula}'
        ctx.note(text=text)
        back = LTL.loads(text)
        ctx.check(
            dict(back.input_variables) == (ins if 'i' in order.replace(
                'default', '').replace('only', '') or order == 'i only'
                else dict()), 'loads: inputs of a written file')
        ctx.check(
            dict(back.output_variables) == (
                dict() if order == 'i only' else outs),
            'loads: outputs of a written file')
        ctx.check(back.formula == formula, 'loads: formula of a written file')
        ctx.label('loaded')
    return symx.Harness('written', fn, ['loaded'])


# -------------------------------------------------------------- rewriting


def strings(k):
    """String constants replaced by positions."""
    def fn(ctx):
        dm = ctx.pick('m', [['a', 'b', 'c'], ['c', 'a', 'b']])
        dn = ctx.pick('n', [['a', 'b', 'c'], ['b', 'c']])
        a = (ctx.pick('op', ['=', '!=']), M, ('str', ctx.pick('vm', dm)))
        if ctx.flag('swap'):
            a = (a[0], a[2], a[1])
        b = ('=', N, ('str', ctx.pick('vn', dn)))
        f = ctx.pick('shape', [
            lambda: a, lambda: ('!', a), lambda: ('&', a, b),
            lambda: ('->', ('G', a), ('X', b)),
            lambda: ('|', b, ('U', a, b)),
            lambda: (a[0], nxt(M), ('str', dm[-1])),
            lambda: ('&', E, ('->', ('=', X, num(1)), a))])()
        tree = tx.Tree.from_recursive_ast(parser.parse(ltl.unparse(f)))
        tx.sub_constants(tree, dict(m=dm, n=dn))
        out = tree.to_recursive_ast()
        ctx.note(out=out.flatten())
        doms = dict(m=(0, len(dm) - 1), n=(0, len(dn) - 1),
                    e='boolean', x=(0, 3))
        w = word(ctx, doms, k)
        # positions in the formula itself
        def pos(f, dom=None):
            if f[0] in ('=', '!='):
                d = dict(m=dm, n=dn).get(
                    next(iter(ltl.variables(f)), None))
                return (f[0],) + tuple(
                    num(d.index(x[1])) if x[0] == 'str' else x
                    for x in f[1:])
            if f[0] in ('var', 'num', 'bool'):
                return f
            return (f[0],) + tuple(map(pos, f[1:]))
        want = pos(f)
        same(ctx, w, want, from_tree(out), 'sub_constants: tree')
        same(ctx, w, want, out.flatten(), 'sub_constants: text')
        # by the specification itself
        spec = GRSpec(
            env_vars=dict(m=dm, e='boolean', x=(0, 3)),
            sys_vars=dict(n=dn), sys_safety=[ltl.unparse(f)])
        spec.str_to_int()
        key, = spec.sys_safety
        same(ctx, w, want, spec._bool_int[key], 'str_to_int')
        ctx.label('compared')
    return symx.Harness('strings', fn, ['compared'])


def quoting(k):
    """Names that are not variables become string constants."""
    def fn(ctx):
        def unquoted(f):
            if f[0] == 'str':
                return var(f[1])
            if f[0] in ('var', 'num', 'bool'):
                return f
            return (f[0],) + tuple(map(unquoted, f[1:]))
        a = (ctx.pick('op', ['=', '!=']), M,
             ('str', ctx.pick('vm', WORDS)))
        b = ('=', N, ('str', ctx.pick('vn', WORDS)))
        f = ctx.pick('shape', [
            lambda: a, lambda: ('&', a, b), lambda: ('&', a, a),
            lambda: ('->', E, ('X', ('|', a, ('!', b)))),
            lambda: ('G', ('F', ('<->', a, ('=', X, num(2))))),
            lambda: ('=', ('str', 'up'), M)])()
        text = ltl.unparse(unquoted(f))
        vs = {v: d for v, d in DOMS.items()}
        out = tx.infer_constants(text, vs)
        ctx.note(out=out)
        w = word(ctx, DOMS, k)
        same(ctx, w, f, out, 'infer_constants')
        ctx.label('quoted')
        # ambiguous names
        clash = ctx.pick('clash', ['none', 'variable', 'own value'])
        if clash == 'none':
            return
        bad = dict(DOMS)
        if clash == 'variable':
            bad['up'] = 'boolean'
        else:
            bad['low'] = list(WORDS)
        try:
            tx.infer_constants(text, bad)
        except Exception:
            ctx.label('ambiguous')
            return
        ctx.check(False, 'infer_constants: ambiguous name accepted')
    return symx.Harness('quoting', fn, ['quoted', 'ambiguous'])


def formula_over(ctx, few):
    """Formula where `s` occurs in several places."""
    op = ctx.pick('op', ['->', 'U', '&'] + few * ['|', '<->', '^'])
    a = ctx.pick('left', [
        S, ('|', E, S), nxt(S)] + few * [('!', S), ('=', Y, num(2))])
    b = ctx.pick('right', [
        ('G', ('->', D, S)), ('&', ('!', S), ('<', Y, X))] + few * [E, S])
    return (op, a, b)


def dependent(k):
    """Boolean variables replaced by formulas."""
    def fn(ctx):
        tree = ctx.flag('tree')
        f = formula_over(ctx, 1 if tree else 0)
        g = ctx.pick('g', [
            D, ('!', D), ('->', D, ('=', Y, num(1))), ('bool', True),
            ('|', S, D), ('<->', E, nxt(D))])
        m = dict(s=g)
        if ctx.flag('two'):
            # simultaneously
            m['e'] = ctx.pick('h', [S, ('&', D, ('!', S)), ('bool', False)])
        want = subst(f, m)
        texts = {v: ltl.unparse(h) for v, h in m.items()}
        w = word(ctx, {v: d for v, d in DOMS.items() if v not in 'mn'}, k)
        if tree:
            tree = tx.Tree.from_recursive_ast(parser.parse(ltl.unparse(f)))
            subs = {
                v: tx.Tree.from_recursive_ast(parser.parse(h))
                for v, h in texts.items()}
            tx.sub_bool_with_subtree(tree, subs)
            out = tree.to_recursive_ast()
            ctx.note(out=out.flatten())
            same(ctx, w, want, from_tree(out), 'sub_bool_with_subtree')
            ctx.label('tree')
            return
        p = ctx.pick('part', PARTS)
        doms = {v: d for v, d in DOMS.items() if v not in 'mn'}
        other = 'sys_prog' if p != 'sys_prog' else 'env_init'
        parts = {p: [f, E], other: [S]}
        spec = build(doms, parts)
        form.replace_dependent_vars(spec, texts)
        got = parsed(ctx, spec, 'replace_dependent_vars')
        for q in PARTS:
            fs = [subst(h, m) for h in parts.get(q, ())]
            ctx.check(len(fs) == len(got[q]),
                      'replace_dependent_vars: number of clauses')
            for h, r in zip(fs, got[q]):
                same(ctx, w, h, r, 'replace_dependent_vars')
        ctx.label('spec')
    return symx.Harness('dependent', fn, ['tree', 'spec'])


def values(k):
    """String values substituted for variables.

    Boolean and integer values: see `findings`.
    """
    def fn(ctx):
        vm, vn = ctx.pick('vm', WORDS), ctx.pick('vn', WORDS)
        a = (ctx.pick('op', ['=', '!=']), M, ('str', ctx.pick('cm', WORDS)))
        b = ('=', ('str', ctx.pick('cn', WORDS)), N)
        f = ctx.pick('shape', [
            a, ('!', a), ('&', a, b), ('->', a, ('|', b, ('!', a)))])
        want = subst(f, dict(m=('str', vm), n=('str', vn)))
        w = word(ctx, DOMS, k)
        if ctx.flag('spec'):
            spec = GRSpec(
                env_vars=dict(m=WORDS), sys_vars=dict(n=WORDS),
                sys_init=[ltl.unparse(f)], env_init=[ltl.unparse(a)])
            spec.parse()
            r = spec.sub_values(dict(m=vm, n=vn))
            ctx.check(
                set(r) == set(spec.sys_init + spec.env_init),
                'sub_values: clauses')
            same(ctx, w, want, from_tree(r[spec.sys_init[0]]),
                 'sub_values of a specification')
            # the specification is the same
            same(ctx, w, f, from_tree(spec.ast(spec.sys_init[0])),
                 'sub_values changed the specification')
            ctx.label('spec')
            return
        tree = tx.Tree.from_recursive_ast(parser.parse(ltl.unparse(f)))
        tx.sub_values(tree, dict(m=vm, n=vn))
        same(ctx, w, want, from_tree(tree.to_recursive_ast()), 'sub_values')
        ctx.label('tree')
    return symx.Harness('values', fn, ['spec', 'tree'])


def initial(k):
    """Initial conditions as a python predicate, at symbolic states."""
    env = [E, ('->', D, ('=', X, num(1))), ('|', ('!', E), ('<', X, num(2))),
           at(M, 'mid'), ('<->', E, ('!=', M, ('str', 'up')))]
    sys = [S, ('->', E, ('>=', Y, X)), ('^', S, D), ('!', ('&', S, E)),
           ('|', at(N, 'low'), ('=', Y, num(3))), ('bool', False)]

    def fn(ctx):
        def some(side, pool):
            n = ctx.pick(f'n.{side}', [0, 1, 2])
            first = ctx.pick(f'{side}.1', pool) if n else None
            second = ctx.pick(f'{side}.2', pool[-2:]) if n == 2 else None
            return [f for f in (first, second) if f is not None]
        parts = dict(env_init=some('env', env), sys_init=some('sys', sys))
        spec = build(DOMS, parts)
        if ctx.flag('other parts'):
            spec.env_prog.append('e')
            spec.sys_safety.append('X(s)')
        code = spec.compile_init(no_str=True)
        state = dict()
        for v, d in DOMS.items():
            if d == 'boolean':
                state[v] = ctx.bit(v)
            else:
                lo, hi = d if isinstance(d, tuple) else (0, len(d) - 1)
                state[v] = ctx.int(v, lo, hi)
        got = eval(code, dict(state))
        w = _State(state)
        want = w.row(('->', conj(parts['env_init']), conj(parts['sys_init'])))
        ctx.check(
            want[0] == bool(got),
            'compile_init: differs from env_init -> sys_init')
        ctx.label('evaluated')
    return symx.Harness('initial', fn, ['evaluated'], opaque_repr=True)


class _State(ltl.Lasso):
    """One position with given values."""

    def __init__(self, state):
        self.k = 1
        self.doms = dict(DOMS)
        self.loop = z3.IntVal(0)
        self.v = {(v, 0): symx.lift(x) for v, x in state.items()}
        self.memo = dict()


def findings(k):
    """Known failures of the real code, each with its own key.

    These inputs are excluded from the other harnesses.
    """
    def case(ctx, key, body):
        try:
            body()
        except symx.Violated as v:
            v.key = key
            raise
        except Exception as e:
            ctx.check(False, f'{type(e).__name__}: {e}', key=key)

    def fn(ctx):
        kind = ctx.pick('kind', [
            'bool', 'int', 'quotes', 'python', 'set', 'list', 'path'])
        w = word(ctx, DOMS, k)

        def values(f, vals, m):
            tree = tx.Tree.from_recursive_ast(parser.parse(ltl.unparse(f)))
            tx.sub_values(tree, vals)
            same(ctx, w, subst(f, m), from_tree(tree.to_recursive_ast()),
                 'sub_values')
        if kind == 'bool':
            v = ctx.flag('v')
            case(ctx, 'sub_values with a Boolean value', lambda: values(
                ('|', E, S), dict(e=v, s=not v),
                dict(e=('bool', v), s=('bool', not v))))
        elif kind == 'int':
            n = ctx.pick('n', [0, 2])
            case(ctx, 'sub_values with an integer value', lambda: values(
                ('<', X, num(1)), dict(x=n), dict(x=num(n))))
        elif kind == 'quotes':
            def body():
                f = ('&', S, at(N, 'up'))
                spec = build(DOMS, dict(sys_init=[f]))
                form.replace_dependent_vars(spec, dict(s='d'))
                same(ctx, w, subst(f, dict(s=D)), spec.sys_init[0],
                     'replace_dependent_vars')
            case(ctx, 'replace_dependent_vars drops quotes', body)
        elif kind == 'python':
            def body():
                spec = build(DOMS, dict(sys_init=[at(N, 'up')]))
                n = ctx.pick('n', WORDS)
                r = eval(spec.compile_init(no_str=False), dict(n=n))
                ctx.check(r == (n == 'up'), 'compile_init with strings')
            case(ctx, 'compile_init with strings drops quotes', body)
        elif kind == 'set':
            def body():
                d = dict(m={'up', 'low'})
                back = LTL.loads(LTL('m = "up"', d).dumps())
                ctx.check(back.input_variables == d, 'set of strings')
            case(ctx, 'dump and load of a set of strings', body)
        elif kind == 'list':
            def body():
                d = dict(m=['up', 'low'])
                back = LTL.loads(LTL('m = "up"', d).dumps())
                ctx.check(back.input_variables == d, 'list of strings')
            case(ctx, 'dump and load of a list of strings', body)
        else:
            def body():
                import os
                import tempfile
                with tempfile.TemporaryDirectory() as folder:
                    p = os.path.join(folder, 'f.spc')
                    with open(p, 'w') as f:
                        f.write(LTL('e', dict(e='boolean')).dumps())
                    back = LTL.load(p)
                ctx.check(back.formula == 'e', 'load of a file')
            case(ctx, 'load from a file name', body)
        ctx.label('tried')
    return symx.Harness('findings', fn)


def harnesses(tier):
    thorough = tier == 'thorough'
    k = 3 if tier == 'quick' else 4
    return [
        canonical(k, thorough), copies(k), unions(k), mismatches(k),
        dumps(k), written(k), strings(k), quoting(k), dependent(k),
        values(k), initial(k), findings(k)]


BOUNDS = {
    'quick': 'specifications with up to two clauses in two parts while the '
             'other four are empty or have one; 3 Boolean, 2 integer, 2 '
             'string variables; formulas with up to 3 nested operators; '
             'lassos with 3 positions and any loop; initial conditions with '
             'up to two clauses on each side, at every state',
    'thorough': 'as quick, but 0 to 2 clauses in every part independently; '
                'lassos with 4 positions'}
OUTSIDE = (
    'larger specifications and formulas; a variable declared for the '
    'environment in one operand of a union and for the system in the other; '
    'substitution of Boolean and integer values, of formulas in clauses with '
    'string constants, files with several string values (known findings)')
ASSUMPTIONS = [
    'meaning of formulas as in the independent parser and lasso semantics '
    'in lib/ltl.py']
EXPLANATION = (
    'The real rewriting functions run on specifications and formulas chosen '
    'by the solver. The text or syntax tree that they return is read by an '
    'independent parser, and for a symbolic ultimately periodic word the '
    'solver decides that it holds exactly when the expected formula does '
    '(the implication, the conjunction, the formula after substitution). '
    'Python code compiled from initial conditions is evaluated at a '
    'symbolic state.')
