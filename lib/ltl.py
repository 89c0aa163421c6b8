"""Independent formula parser and lasso semantics (z3).

Nothing here is imported from the code under test.
AST: `('var', name)`, `('num', n)`, `('bool', b)`, `('str', s)`, `(op, *args)`
with canonical operators

    ! & | ^ -> <-> ite   X G F U W V   = != < <= > >=   + - * /   (prime = X)
"""
import ast as pyast
import re

import z3


class ParseError(Exception):
    # harnesses parse only what the code under test wrote
    output_is_wrong = True


def var(x):
    return ('var', x)


def num(n):
    return ('num', n)


def conj(xs):
    xs = list(xs)
    if not xs:
        return ('bool', True)
    r = xs[0]
    for x in xs[1:]:
        r = ('&', r, x)
    return r


def disj(xs):
    xs = list(xs)
    if not xs:
        return ('bool', False)
    r = xs[0]
    for x in xs[1:]:
        r = ('|', r, x)
    return r


# ------------------------------------------------------------- tokenizing

_COMMON = {
    '!': '!', '&': '&', '&&': '&', '|': '|', '||': '|', '^': '^',
    '->': '->', '<->': '<->', '=': '=', '==': '=', '!=': '!=',
    '<': '<', '<=': '<=', '>': '>', '>=': '>=', '+': '+', '-': '-',
    '*': '*', '/': '/', '[]': 'G', '<>': 'F', "'": 'prime'}

# binding powers: higher is tighter; (left bp, right bp)
_DEFAULT_INFIX = [
    # lowest to highest: documented TuLiP precedence
    (('<->',), 'l'), (('->',), 'l'), (('^',), 'l'), (('|',), 'l'),
    (('&',), 'l'),
    (('U', 'W', 'V'), 'l'),
    (('=', '!='), 'l'), (('<', '<=', '>', '>='), 'l'),
    (('+', '-'), 'l'), (('*', '/'), 'l')]


class Dialect:
    def __init__(self, symbols, words, infix, prefix, booleans,
                 postfix=('prime',), ite=False, quotes=True, player=False):
        self.symbols = dict(symbols)
        self.words = dict(words)
        self.infix = dict()
        for k, (ops, assoc) in enumerate(infix):
            for op in ops:
                bp = 10 * (k + 1)
                self.infix[op] = (bp, bp + 1) if assoc == 'l' else (bp + 1, bp)
        self.prefix = dict(prefix)
        self.booleans = booleans
        self.postfix = postfix
        self.ite = ite
        self.player = player
        syms = sorted(self.symbols, key=len, reverse=True)
        self.rx = re.compile(
            r'\s*(?:(?P<name>[A-Za-z_][A-Za-z0-9_.:@]*)'
            r'|(?P<num>\d+)'
            r'|(?P<str>"[^"]*")'
            r'|(?P<sym>' + '|'.join(map(re.escape, syms)) + r'|[(),])'
            r')')

    def tokens(self, s):
        pos, out = 0, list()
        s = s.rstrip()
        while pos < len(s):
            m = self.rx.match(s, pos)
            if m is None:
                raise ParseError(f'cannot tokenize {s[pos:]!r} in {s!r}')
            pos = m.end()
            k = m.lastgroup
            v = m.group(k)
            if k == 'name':
                if v in self.words:
                    out.append(('op', self.words[v]))
                elif v in self.booleans:
                    out.append(('bool', self.booleans[v]))
                else:
                    out.append(('name', v))
            elif k == 'num':
                if v in self.booleans:
                    out.append(('bool', self.booleans[v]))
                else:
                    out.append(('num', int(v)))
            elif k == 'str':
                out.append(('str', v[1:-1]))
            elif v in '(),':
                out.append((v, v))
            else:
                out.append(('op', self.symbols[v]))
        out.append(('end', None))
        return out

    def parse(self, s):
        toks = self.tokens(s)
        i = 0

        def peek():
            return toks[i]

        def nxt():
            nonlocal i
            t = toks[i]
            i += 1
            return t

        def expect(k):
            t = nxt()
            if t[0] != k:
                raise ParseError(f'expected {k}, got {t} in {s!r}')

        def expr(rbp):
            k, v = nxt()
            if k == 'name':
                left = ('var', v)
            elif k == 'num':
                left = ('num', v)
            elif k == 'bool':
                left = ('bool', v)
            elif k == 'str':
                left = ('str', v)
            elif k == '(':
                if self.ite and peek() == ('op', 'ite'):
                    nxt()
                    a = expr(0)
                    expect(',')
                    b = expr(0)
                    expect(',')
                    c = expr(0)
                    left = ('ite', a, b, c)
                else:
                    left = expr(0)
                expect(')')
            elif k == 'op' and v == '-' :
                left = expr(95)
                left = ('num', - left[1]) if left[0] == 'num' else (
                    '-', ('num', 0), left)
            elif k == 'op' and v in self.prefix:
                left = (v, expr(self.prefix[v]))
            else:
                raise ParseError(f'unexpected {k} {v} in {s!r}')
            while True:
                k, v = peek()
                if k == 'op' and v in self.postfix:
                    nxt()
                    left = ('X', left)
                    continue
                if k != 'op' or v not in self.infix:
                    break
                lbp, r = self.infix[v]
                if lbp <= rbp:
                    break
                nxt()
                left = (v, left, expr(r - 1))
            return left
        r = expr(0)
        if peek()[0] != 'end':
            raise ParseError(f'trailing {toks[i:]} in {s!r}')
        return r


_TF = {
    'True': True, 'TRUE': True, 'true': True,
    'False': False, 'FALSE': False, 'false': False}
# documented TuLiP syntax: [] and <> bind looser than U, tighter than &
TULIP = Dialect(
    {**_COMMON, '/\\': '&', '\\/': '|', '~': '!', '=>': '->', '<=>': '<->',
     '/=': '!=', '=<': '<='},
    {'X': 'X', 'next': 'X', 'G': 'G', 'F': 'F', 'U': 'U', 'W': 'W',
     'V': 'V', 'R': 'V', 'ite': 'ite'},
    _DEFAULT_INFIX,
    {'!': 105, 'X': 110, 'G': 55, 'F': 55},
    _TF, ite=True)
GR1C = Dialect(
    {k: v for k, v in _COMMON.items()},
    {}, _DEFAULT_INFIX, {'!': 105, 'G': 105, 'F': 105}, _TF)
SLUGS = GR1C
JTLV = Dialect(
    _COMMON, {'next': 'X', 'U': 'U'}, _DEFAULT_INFIX,
    {'!': 105, 'G': 105, 'F': 105, 'X': 105}, _TF)
PROMELA = Dialect(
    {k: v for k, v in _COMMON.items() if k not in ('=', "'")},
    {'X': 'X', 'U': 'U', 'V': 'V', 'W': 'W'},
    [(('<->',), 'l'), (('->',), 'r'), (('|',), 'l'), (('&',), 'l'),
     (('U', 'W', 'V'), 'l'), (('^',), 'l'),
     (('=', '!='), 'l'), (('<', '<=', '>', '>='), 'l'),
     (('+', '-'), 'l'), (('*', '/'), 'l')],
    {'!': 105, 'G': 105, 'F': 105, 'X': 105}, {'true': True, 'false': False})
SMV = Dialect(
    {k: v for k, v in _COMMON.items()
     if k not in ('[]', '<>', '==', "'", '&&', '||', '^')},
    {'X': 'X', 'U': 'U', 'V': 'V', 'G': 'G', 'F': 'F', 'xor': '^'},
    [(('->',), 'r'), (('<->',), 'l'), (('|', '^'), 'l'), (('&',), 'l'),
     (('U', 'W', 'V'), 'l'),
     (('=', '!=', '<', '<=', '>', '>='), 'l'),
     (('+', '-'), 'l'), (('*', '/'), 'l')],
    {'!': 105, 'G': 105, 'F': 105, 'X': 105},
    {'TRUE': True, 'FALSE': False})
WRING = Dialect(
    {'!': '!', '+': '|', '*': '&', '->': '->', '<->': '<->', '^': '^',
     '=': '='},
    {'G': 'G', 'F': 'F', 'X': 'X', 'U': 'U', 'R': 'V', 'V': 'V'},
    [(('<->',), 'l'), (('->',), 'l'), (('|',), 'l'), (('^',), 'l'),
     (('&',), 'l'), (('U', 'V'), 'l'), (('=',), 'l')],
    {'!': 45, 'G': 45, 'F': 45, 'X': 45}, {})


_PYBIN = {
    pyast.Add: '+', pyast.Sub: '-', pyast.Mult: '*', pyast.BitXor: '^',
    pyast.Div: '/', pyast.FloorDiv: '/', pyast.BitAnd: '&', pyast.BitOr: '|'}
_PYCMP = {
    pyast.Eq: '=', pyast.NotEq: '!=', pyast.Lt: '<', pyast.LtE: '<=',
    pyast.Gt: '>', pyast.GtE: '>=', pyast.Is: '=', pyast.IsNot: '!='}


def parse_python(s):
    """AST of a Python expression, by Python's own parser."""
    def conv(u):
        if isinstance(u, pyast.BoolOp):
            op = '&' if isinstance(u.op, pyast.And) else '|'
            r = conv(u.values[0])
            for v in u.values[1:]:
                r = (op, r, conv(v))
            return r
        if isinstance(u, pyast.UnaryOp):
            if isinstance(u.op, pyast.Not):
                return ('!', conv(u.operand))
            if isinstance(u.op, pyast.USub):
                x = conv(u.operand)
                return ('num', - x[1]) if x[0] == 'num' else (
                    '-', ('num', 0), x)
        if isinstance(u, pyast.BinOp):
            return (_PYBIN[type(u.op)], conv(u.left), conv(u.right))
        if isinstance(u, pyast.Compare):
            parts, left = list(), conv(u.left)
            for op, r in zip(u.ops, u.comparators):
                r = conv(r)
                parts.append((_PYCMP[type(op)], left, r))
                left = r
            return conj(parts)
        if isinstance(u, pyast.IfExp):
            return ('ite', conv(u.test), conv(u.body), conv(u.orelse))
        if isinstance(u, pyast.Name):
            return ('var', u.id)
        if isinstance(u, pyast.Constant):
            if isinstance(u.value, bool):
                return ('bool', u.value)
            if isinstance(u.value, int):
                return ('num', u.value)
            if isinstance(u.value, str):
                return ('str', u.value)
        raise ParseError(f'python: {pyast.dump(u)}')
    try:
        t = pyast.parse(s.strip(), mode='eval')
    except SyntaxError as e:
        raise ParseError(f'python: {e}: {s!r}') from e
    return conv(t.body)


def variables(f):
    if f[0] == 'var':
        return {f[1]}
    if f[0] in ('num', 'bool', 'str'):
        return set()
    return set().union(*(variables(x) for x in f[1:]))


# ------------------------------------------------------------- unparsing

_LEVEL = dict()
for _k, (_ops, _) in enumerate(_DEFAULT_INFIX):
    for _op in _ops:
        _LEVEL[_op] = 10 * (_k + 1)
_LEVEL.update({'G': 55, 'F': 55, '!': 105, 'X': 110})
SPELL = {
    '&': '&&', '|': '||', 'G': '[]', 'F': '<>'}


def unparse(f, spell=None, minimal=True, level=0, compact=False):
    """Text in documented TuLiP syntax, with only the needed parentheses.

    With `compact`, no blanks around operators that are not words.
    """
    sp = dict(SPELL)
    if spell:
        sp.update(spell)

    def pad(op):
        # the lexer takes ^ and \ after a name as part of the name
        if compact and not op[0].isalpha() and (
                compact == 'all' or op[0] not in '^\\'):
            return op
        return f' {op} '

    def go(f, lv):
        k = f[0]
        if k == 'var':
            return f[1]
        if k == 'num':
            return str(f[1])
        if k == 'bool':
            return sp.get(str(f[1]), str(f[1]))
        if k == 'str':
            return f'"{f[1]}"'
        if k == 'ite':
            return (f'(ite {go(f[1], 0)}, {go(f[2], 0)}, {go(f[3], 0)})')
        if k == 'prime':
            return f"{go(f[1], 115)}'"
        my = _LEVEL[k]
        op = sp.get(k, k)
        if len(f) == 2:
            s = f'{pad(op)[1:] if not compact else pad(op).lstrip()}{go(f[1], my)}'
            # prefix operators nest to the right without parentheses
        else:
            s = f'{go(f[1], my)}{pad(op)}{go(f[2], my + 1)}'
        if not minimal or my < lv:
            return f'({s})'
        return s
    return go(f, level)


# ------------------------------------------------------------- semantics


class Lasso:
    """Symbolic ultimately periodic word with `k` positions.

    Position `k - 1` is followed by position `loop`, a symbolic integer.
    `doms`: variable name -> 'boolean' | (lo, hi) | list of strings.
    """

    def __init__(self, k, doms, tag='w', strict_dom=True):
        self.k = k
        self.doms = dict(doms)
        self.tag = tag
        self.loop = z3.Int(f'{tag}.loop')
        self.constraints = [self.loop >= 0, self.loop < k]
        self.v = dict()
        self.consts = [self.loop]
        for name, dom in self.doms.items():
            for i in range(k):
                n = f'{tag}.{name}.{i}'
                if dom in ('boolean', 'bool'):
                    t = z3.Bool(n)
                else:
                    t = z3.Int(n)
                    lo, hi = (
                        dom if isinstance(dom, tuple) else (0, len(dom) - 1))
                    self.constraints += [t >= lo, t <= hi]
                self.v[name, i] = t
                self.consts.append(t)
        self.memo = dict()

    def at_succ(self, values, i):
        """Value at the successor of `i`, of a list of per-position terms."""
        if i < self.k - 1:
            return values[i + 1]
        r = values[self.k - 1]
        for j in range(self.k - 2, -1, -1):
            r = z3.If(self.loop == j, values[j], r)
        return r

    def row(self, f):
        """Values of `f` at all positions."""
        key = f
        if key in self.memo:
            return self.memo[key]
        r = self._row(f)
        self.memo[key] = r
        return r

    def _cmp(self, op, f, g):
        a, b = self._terms(f, g)
        if z3.is_bool(a[0]) != z3.is_bool(b[0]):
            raise ParseError(f'type mismatch in {op}: {f} {g}')
        d = {
            '=': lambda x, y: x == y, '!=': lambda x, y: x != y,
            '<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
            '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op]
        return [d(x, y) for x, y in zip(a, b)]

    def _str_dom(self, f):
        while f[0] == 'X':
            f = f[1]
        if f[0] == 'var':
            d = self.doms.get(f[1])
            return d if isinstance(d, list) else None
        return None

    def _terms(self, f, g):
        """Terms of both sides, string constants coded by the domain."""
        if f[0] == 'str' or g[0] == 'str':
            dom = self._str_dom(g if f[0] == 'str' else f)
            if dom is None and f[0] == 'str' and g[0] == 'str':
                c = {f[1]: 0}
                c.setdefault(g[1], 1)
                return ([z3.IntVal(c[f[1]])] * self.k,
                        [z3.IntVal(c[g[1]])] * self.k)
            if dom is None:
                raise ParseError(f'string compared to non-string: {f} {g}')

            def t(x):
                if x[0] == 'str':
                    if x[1] not in dom:
                        raise ParseError(f'{x[1]} not in {dom}')
                    return [z3.IntVal(dom.index(x[1]))] * self.k
                return self.row(x)
            return t(f), t(g)
        return self.row(f), self.row(g)

    def _row(self, f):
        k, K = f[0], self.k
        if k == 'var':
            if f[1] not in self.doms:
                raise ParseError(f'unknown variable {f[1]}')
            return [self.v[f[1], i] for i in range(K)]
        if k == 'num':
            return [z3.IntVal(f[1])] * K
        if k == 'bool':
            return [z3.BoolVal(f[1])] * K
        if k in ('=', '!=', '<', '<=', '>', '>='):
            return self._cmp(k, f[1], f[2])
        if k == 'ite':
            c = self.row(f[1])
            a, b = self._terms(f[2], f[3])
            return [z3.If(x, y, z) for x, y, z in zip(c, a, b)]
        args = [self.row(x) for x in f[1:]]
        if k in '+-*/' and len(args) == 2:
            op = {
                '+': lambda x, y: x + y, '-': lambda x, y: x - y,
                '*': lambda x, y: x * y, '/': lambda x, y: x / y}[k]
            return [op(x, y) for x, y in zip(*args)]
        if k in ('X', 'prime'):
            return [self.at_succ(args[0], i) for i in range(K)]
        for a in args:
            if not z3.is_bool(a[0]):
                raise ParseError(f'Boolean operator {k} on number: {f}')
        if k == '!':
            return [z3.Not(x) for x in args[0]]
        if k in ('&', '|', '->', '<->', '^'):
            op = {
                '&': z3.And, '|': z3.Or, '->': z3.Implies,
                '<->': lambda x, y: x == y, '^': z3.Xor}[k]
            return [op(x, y) for x, y in zip(*args)]
        true = [z3.BoolVal(True)] * K
        false = [z3.BoolVal(False)] * K
        if k == 'F':
            return self._until(true, args[0])
        if k == 'G':
            return [z3.Not(x) for x in self._until(
                true, [z3.Not(y) for y in args[0]])]
        if k == 'U':
            return self._until(*args)
        if k == 'V':
            return [z3.Not(x) for x in self._until(
                [z3.Not(y) for y in args[0]], [z3.Not(y) for y in args[1]])]
        if k == 'W':
            # p W q == q V (p | q)
            p, q = args
            return [z3.Not(x) for x in self._until(
                [z3.Not(y) for y in q],
                [z3.Not(z3.Or(y, z)) for y, z in zip(p, q)])]
        raise ParseError(f'unknown operator {k}')

    def _until(self, p, q):
        """Least fixpoint on the lasso (Biere et al., linear encoding)."""
        K = self.k
        aux = [None] * K
        aux[K - 1] = q[K - 1]
        for i in range(K - 2, -1, -1):
            aux[i] = z3.Or(q[i], z3.And(p[i], aux[i + 1]))
        r = [None] * K
        r[K - 1] = z3.Or(q[K - 1], z3.And(
            p[K - 1], z3.Or(*[
                z3.And(self.loop == j, aux[j]) for j in range(K)])))
        for i in range(K - 2, -1, -1):
            r[i] = z3.Or(q[i], z3.And(p[i], r[i + 1]))
        return r

    def holds(self, f):
        return self.row(f)[0]
