"""C02: parsing and translating a formula preserves its meaning."""
import ltl
import symx
from ltl import var, num

import tulip.spec.parser as parser
import tulip.spec.translation as tx

DOMS = {
    'p': 'boolean', 'Xq': 'boolean', 'x': (0, 3), 'U1': (0, 3),
    'n': ['a', 'bb', 'c.d']}
P, Q, X, Y, N = map(var, DOMS)

BOOL = ('&', '|', '->', '<->')
#            dialect: parser, operators supported
DIALECT = {
    'tulip': (ltl.TULIP, dict(
        bin=BOOL + ('^', 'U', 'W', 'V'), un=('!', 'X', 'G', 'F'),
        cmp=('=', '!=', '<', '<=', '>', '>='), ar=('+', '-', '*'),
        string=True, ite=True, neg=True)),
    'gr1c': (ltl.GR1C, dict(
        bin=BOOL, un=('!', 'X', 'G', 'F'),
        cmp=('=', '!=', '<', '<=', '>', '>='), neg=True)),
    'slugs': (ltl.SLUGS, dict(
        bin=BOOL, un=('!', 'X', 'G', 'F'),
        cmp=('=', '!=', '<', '<=', '>', '>='), ar=('+', '-'), neg=True)),
    'jtlv': (ltl.JTLV, dict(
        bin=BOOL + ('U',), un=('!', 'X', 'G', 'F'),
        cmp=('=', '!=', '<', '<=', '>', '>='), neg=True)),
    'promela': (ltl.PROMELA, dict(
        bin=BOOL + ('^', 'U', 'W', 'V'), un=('!', 'X', 'G', 'F'),
        cmp=('=', '!=', '<', '<=', '>', '>='), ar=('+', '-', '*'),
        neg=True)),
    # Boolean and relational operators: see `findings`
    'smv': (ltl.SMV, dict(
        bin=('U',), un=('X', 'G', 'F'), cmp=())),
    'wring': (ltl.WRING, dict(
        bin=BOOL + ('U', 'V'), un=('!', 'X', 'G', 'F'), cmp=())),
    'python': ('python', dict(
        bin=BOOL + ('^',), un=('!',),
        cmp=('=', '!=', '<', '<=', '>', '>='), ar=('+', '-'),
        neg=True)),
}
SPELLS = [
    dict(),
    # other spellings of ! -> <-> != <= : see `findings`
    {'&': '/\\', '|': '\\/', 'G': 'G', 'F': 'F', 'X': 'next',
     'True': 'TRUE', 'False': 'FALSE'},
    {'&': '&', '|': '|', 'True': 'true', 'False': 'false'},
]
FULL = {
    '&': 'and', '|': 'OR', '!': 'not', '->': 'implies', '<->': 'equivalent',
    'G': 'always', 'F': 'Eventually', 'X': 'next', 'U': 'until',
    'W': 'unless', 'V': 'release'}


def convert(f, lang, spell=None, compact=False, full=False):
    """Text -> real parser -> real translator -> text."""
    text = ltl.unparse(f, spell=spell, compact=compact)
    tree = parser.parse(text, full_operators=full)
    if lang == 'tulip':
        out = tree.flatten()
    else:
        kw = dict()
        if lang in ('jtlv', 'wring'):
            kw = dict(
                env_vars={k: v for k, v in DOMS.items() if k in ('p', 'x')},
                sys_vars={k: v for k, v in DOMS.items()
                          if k not in ('p', 'x')})
        out = tx.translate_ast(tree, lang).flatten(**kw)
    return text, out


def reparse(out, lang):
    d = DIALECT[lang][0]
    if d == 'python':
        return ltl.parse_python(out)
    g = d.parse(out)
    return _undecorate(g, lang)


def _undecorate(g, lang):
    if lang == 'jtlv' and g[0] == 'var':
        player, _, name = g[1].partition('.')
        assert player == ('e' if name in ('p', 'x') else 's'), g
        return var(name)
    if lang == 'wring' and g[0] == '=':
        # atoms are (v = 1), with `1` the constant true
        assert g[1][0] == 'var' and g[2] == ('bool', True), g
        return g[1]
    if g[0] in ('var', 'num', 'bool', 'str'):
        return g
    return (g[0],) + tuple(_undecorate(x, lang) for x in g[1:])


ltl.WRING.booleans.update({'0': False, '1': True})


def equivalent(ctx, f, out, lang, text, k):
    try:
        g = reparse(out, lang)
    except ltl.ParseError as e:
        ctx.check(False, f'{lang}: not a formula of the dialect: {out!r} '
                  f'for {text!r}: {e}')
        return
    w = ltl.Lasso(k, DOMS)
    for c in w.consts:
        ctx.free(c)
    for c in w.constraints:
        ctx.assume(c) if ctx.replaying else ctx.solver.add(c)
    try:
        a, b = w.row(f), w.row(g)
    except ltl.ParseError as e:
        ctx.check(False, f'{lang}: ill-typed output {out!r} for {text!r}: {e}')
        return
    ctx.note(text=text, lang=lang, out=out)
    ctx.check(
        a[0] == b[0],
        f'{lang}: {text!r} became {out!r}, which differs in meaning')
    ctx.label('compared')


def atoms(ops):
    r = [P, Q, ('bool', True), ('bool', False)]
    return r


def numeric(ops):
    """Atoms over numbers and strings."""
    r = list()
    for c in ops['cmp']:
        r.append((c, X, Y))
        r.append((c, X, num(2)))
        if ops.get('neg'):
            r.append((c, X, num(-1)))
    return r


def bool_structure(lang, k):
    """Two levels of Boolean and temporal operators over leaves."""
    d, ops = DIALECT[lang]

    def sub(ctx, name):
        kind = ctx.pick(f'{name}.kind', ['leaf', 'un', 'bin'])
        if kind == 'leaf':
            return ctx.pick(f'{name}.leaf', [P, Q])
        if kind == 'un':
            return (ctx.pick(f'{name}.op', ops['un']), Q)
        return (ctx.pick(f'{name}.op', ops['bin']), P, Q)

    def fn(ctx):
        if ctx.flag('root.unary'):
            f = (ctx.pick('op', ops['un']), sub(ctx, 'l'))
        else:
            f = (ctx.pick('op', ops['bin']), sub(ctx, 'l'), sub(ctx, 'r'))
        if lang in ('gr1c', 'slugs') and f[0] == 'X' and f[1][0] == 'X':
            # primes cannot be nested in these dialects
            return
        text, out = convert(f, lang)
        equivalent(ctx, f, out, lang, text, k)
    return symx.Harness(f'structure-{lang}', fn, ['compared'])


def three_level(lang, k):
    """Chains of three operators (associativity and precedence)."""
    d, ops = DIALECT[lang]
    A, B, C, D = P, Q, ('X', P), ('!', Q)
    if lang == 'python':
        C = ('^', P, Q)

    def fn(ctx):
        o1 = ctx.pick('o1', ops['bin'])
        o2 = ctx.pick('o2', ops['bin'])
        o3 = ctx.pick('o3', ops['bin'])
        shape = ctx.pick('shape', range(5))
        f = [
            (o1, (o2, (o3, A, B), C), D),
            (o1, A, (o2, B, (o3, C, D))),
            (o1, (o2, A, B), (o3, C, D)),
            (o1, A, (o2, (o3, B, C), D)),
            (o1, (o2, A, (o3, B, C)), D)][shape]
        text, out = convert(f, lang)
        equivalent(ctx, f, out, lang, text, k)
    return symx.Harness(f'chains-{lang}', fn, ['compared'])


def arithmetic(lang, k):
    d, ops = DIALECT[lang]
    ar = ops.get('ar', ())

    def term(ctx, name, depth=1):
        kinds = ['x', 'y', 'num'] + (['neg'] if ops.get('neg') else [])
        if ar and depth:
            kinds.append('ar')
        if 'X' in ops['un'] and depth:
            kinds.append('next')
        if ops.get('ite') and depth:
            kinds.append('ite')
        kind = ctx.pick(f'{name}.kind', kinds)
        if kind == 'ar':
            return (ctx.pick(f'{name}.op', ar),
                    ctx.pick(f'{name}l', [X, num(12), num(-1)]),
                    ctx.pick(f'{name}r', [Y, num(12), num(-1)]))
        return dict(
            x=X, y=Y, num=num(12), neg=num(-1), next=('X', X),
            ite=('ite', P, X, num(2)))[kind]

    def fn(ctx):
        f = (ctx.pick('cmp', ops['cmp']),
             term(ctx, 'l', 1), term(ctx, 'r', 0))
        if ctx.flag('swap'):
            f = (f[0], f[2], f[1])
        wrap = ctx.pick('wrap', ['none', 'not', 'or'])
        if wrap == 'not':
            f = ('!', f)
        elif wrap == 'or':
            f = ('|', f, Q)
        text, out = convert(f, lang)
        equivalent(ctx, f, out, lang, text, k)
    return symx.Harness(f'arithmetic-{lang}', fn, ['compared'])


def spellings(k):
    """Alternative operator spellings, blanks, keywords as words."""
    ops = DIALECT['tulip'][1]

    def fn(ctx):
        style = ctx.pick('style', [0, 1, 2, 'full'])
        lang = ctx.pick('lang', ['tulip', 'gr1c', 'promela'])
        allowed = DIALECT[lang][1]
        compact = ctx.flag('compact')
        kind = ctx.pick('kind', ['un', 'bin', 'cmp', 'const', 'prime'])
        o2 = ctx.pick('o2', ['|', '&', '->'])
        if kind == 'un':
            f = (ctx.pick('op', allowed['un']), (o2, P, Q))
        elif kind == 'bin':
            f = (o2, (ctx.pick('op', allowed['bin']), P, Q), ('!', P))
        elif kind == 'cmp':
            f = (o2, (ctx.pick('op', allowed['cmp']), X, num(1)), Q)
        elif kind == 'const':
            f = (o2, ('bool', ctx.flag('value')), Q)
        else:
            f = (o2, ('prime', P), ('=', ('prime', X), num(2)))
        full = style == 'full'
        spell = FULL if full else SPELLS[style]
        text, out = convert(f, lang, spell, compact, full)
        equivalent(ctx, f, out, lang, text, k)
    return symx.Harness('spellings', fn, ['compared'])


def findings(k):
    """Known failures of the real code, each with its own key.

    These inputs are excluded from the other harnesses.
    """
    def case(ctx, key, f, lang, spell=None, compact=False):
        text = ltl.unparse(f, spell=spell, compact=compact)
        try:
            text, out = convert(f, lang, spell, compact)
            equivalent(ctx, f, out, lang, text, k)
        except symx.Violated as v:
            v.key = key
            raise
        except Exception as e:
            ctx.check(
                False, f'{lang}: {text!r}: {type(e).__name__}: {e}', key=key)

    def fn(ctx):
        kind = ctx.pick('kind', [
            'spelling', 'string', 'smv', 'wring', 'python', 'nospace'])
        if kind == 'spelling':
            op, s, f = ctx.pick('op', [
                ('!', '~', ('!', P)), ('->', '=>', ('->', P, Q)),
                ('<->', '<=>', ('<->', P, Q)),
                ('!=', '/=', ('!=', X, num(1))),
                ('<=', '=<', ('<=', X, num(1)))])
            case(ctx, f'spelling {s}', f, 'tulip', {op: s})
        elif kind == 'string':
            f = (ctx.pick('cmp', ['=', '!=']), N,
                 ('str', ctx.pick('const', DOMS['n'])))
            f = ctx.pick('wrap', [
                f, ('G', f), ('->', f, ('X', f)), (f[0], ('X', N), f[2])])
            case(ctx, 'string constants', f, 'tulip')
        elif kind == 'smv':
            f = ctx.pick('f', [
                ('!', P), ('bool', True), ('=', X, num(1)),
                ('+', X, num(1))] + [(op, P, Q) for op in BOOL + ('^',)] + [
                (op, X, Y) for op in ('=', '!=', '<', '<=', '>', '>=')])
            if f[0] == '+':
                f = ('=', f, num(2))
            case(ctx, 'smv operators', f, 'smv')
        elif kind == 'wring':
            case(ctx, 'wring xor', ('^', P, Q), 'wring')
        elif kind == 'python':
            case(ctx, 'python multiplication',
                 ('=', ('*', X, num(2)), Y), 'python')
        else:
            f = (ctx.pick('op', ['^', '|']), P, Q)
            case(ctx, 'operator adjacent to identifier', f, 'tulip',
                 {'|': '\\/'}, compact='all')
        ctx.label('tried')
    return symx.Harness('findings', fn)


def harnesses(tier):
    k = 3 if tier == 'quick' else 5
    hs = [spellings(k), findings(k)]
    for lang, (d, ops) in DIALECT.items():
        hs.append(bool_structure(lang, k))
        if tier == 'thorough' or lang in ('tulip', 'python'):
            hs.append(three_level(lang, k))
        if ops['cmp']:
            hs.append(arithmetic(lang, k))
    return hs


BOUNDS = {
    'quick': 'formulas with up to 3 nested operators over 2 Boolean, '
             '2 integer (0..3), 1 string variable; lassos with 3 positions '
             'and any loop',
    'thorough': 'as quick, with chains of 3 binary operators in every '
                'dialect; lassos with 5 positions'}
OUTSIDE = (
    'deeper formulas; division, truncation; longer lassos; input text with '
    'redundant parentheses, comments, newlines')
ASSUMPTIONS = [
    'meaning of each dialect as in the independent parser lib/ltl.py '
    '(precedence of TuLiP syntax from doc/specifications.rst)',
    'integers are mathematical integers']
EXPLANATION = (
    'Symbolic operator choices drive the real lexer, parser and '
    'translators; z3 decides equivalence of input and output formula over '
    'all symbolic lassos.')
