"""C06: exclusivity and finite-domain encodings."""
import ltl
import symx
import z3
from ltl import var

import tulip.synth as synth

NAMES = ['a', 'ab', 'b_1', 'X1', 'a2', 'act.on']


def count(terms):
    return z3.Sum([z3.If(t, 1, 0) for t in terms]) if terms else z3.IntVal(0)


def lasso(ctx, doms):
    w = ltl.Lasso(1, doms)
    for c in w.consts:
        ctx.free(c)
    for c in w.constraints:
        ctx.assume(c)
    return w


def conjunction(w, clauses):
    return z3.And(z3.BoolVal(True), *[
        w.holds(ltl.TULIP.parse(c)) for c in clauses])


def helpers(nmax):
    def fn(ctx):
        f = ctx.pick('helper', ['mutex', 'exactly_one'])
        n = ctx.pick('n', range(0 if f == 'mutex' else 1, nmax + 1))
        kind = ctx.pick('kind', ['names', 'comparisons', 'negated'])
        if kind == 'names':
            items = NAMES[:n]
            doms = {x: 'boolean' for x in items}
        elif kind == 'negated':
            items = [f'!{x} || {NAMES[0]}' for x in NAMES[1:n + 1]]
            doms = {x: 'boolean' for x in NAMES}
        else:
            items = [f'x = {i}' if i % 2 else f'y < {i}' for i in range(n)]
            doms = dict(x=(-1, nmax), y=(0, nmax))
        empties = ctx.flag('empty') if f == 'mutex' else False
        arg = items[:1] + [''] + items[1:] if empties else list(items)
        if ctx.flag('tuple'):
            arg = tuple(arg)
        out = getattr(synth, f)(arg)
        ctx.note(f=f, items=arg, out=out)
        w = lasso(ctx, doms)
        c = count([w.holds(ltl.TULIP.parse(x)) for x in items])
        ctx.check(isinstance(out, list), f'{f}: list of formulas')
        got = conjunction(w, out)
        want = c <= 1 if f == 'mutex' else c == 1
        ctx.check(got == want, f'{f} differs from its meaning')
        ctx.label(f)
    return symx.Harness('helpers', fn, ['mutex', 'exactly_one'])


INTS = [
    [0, 1, 2], [2, 0, 1], [5, 6], [0, 3], [-3, -1, -2], [7], [0], [-1],
    [10, 2, 1], [1, 2, 3, 4, 5]]


def encoding(nmax):
    def fn(ctx):
        kind = ctx.pick('kind', ['str', 'int'])
        if kind == 'str':
            values = NAMES[:ctx.pick('n', range(1, nmax + 1))]
            if ctx.flag('reversed'):
                values = values[::-1]
            bools = ctx.flag('bool')
        else:
            values = ctx.pick('values', INTS)
            bools = False
        must = ctx.pick('must', ['mutex', 'xor', None])
        if kind == 'int' and must is None:
            return
        variables = {'other': 'boolean', 'stat': (0, 3)}
        before = dict(variables)
        ids, constraint = synth.iter2var(
            list(values), variables, 'state', bools, must)
        ctx.note(values=values, must=must, bools=bools, ids=ids,
                 constraint=constraint, variables=variables)
        ctx.check(set(ids) == set(values), 'every value has an encoding')
        ctx.check(
            all(variables.get(k) == v for k, v in before.items()),
            'other variables are kept')
        doms = {k: v for k, v in variables.items() if k not in before}
        booleans = bools or must is None
        ctx.check(
            set(doms) == (set(values) if booleans else {'state'}) and
            (not booleans or all(d == 'boolean' for d in doms.values())),
            'variables for the encoding')
        if kind == 'str' and not booleans:
            ctx.check(
                isinstance(doms['state'], list) and
                len(doms['state']) == len(set(doms['state'])),
                'string values are distinct')
        w = lasso(ctx, doms)
        ats = {v: w.holds(ltl.TULIP.parse(f)) for v, f in ids.items()}
        c = count(list(ats.values()))
        ok = conjunction(w, constraint or [])
        bound = {'mutex': c <= 1, 'xor': c == 1, None: c >= 0}[must]
        ctx.check(z3.Implies(ok, bound),
                  f'{must}: encoding admits other selections')
        if booleans:
            ctx.check(z3.Implies(bound, ok),
                      f'{must}: encoding excludes a selection')
            for v in values:
                ctx.check(ats[v] == w.v[v, 0],
                          'the variable of a value encodes it')
            ctx.label('booleans')
            return
        # each selection is the meaning of some valuation
        base = w.constraints + [ok]
        for v in values:
            ctx.check(
                bool(ctx.sat(*base, ats[v], c == 1)),
                f'{must}: a value has no encoding')
        if must == 'mutex':
            ctx.check(bool(ctx.sat(*base, c == 0)),
                      'mutex: selecting none is not possible')
        ctx.label('variable')
    return symx.Harness('encoding', fn, ['booleans', 'variable'])


def rejected():
    def fn(ctx):
        case = ctx.pick('case', ['mixed', 'boolints', 'exists', 'empty'])
        variables = {'state': 'boolean'}
        if case == 'empty':
            ids, constraint = synth.iter2var(
                [], variables, 's', ctx.flag('bool'),
                ctx.pick('must', ['mutex', 'xor', None]))
            ctx.check(
                not ids and constraint is None and
                variables == {'state': 'boolean'}, 'empty domain')
            ctx.label('empty')
            return
        arg = dict(
            mixed=(['a', 1], variables, 's', False, 'xor'),
            boolints=([0, 1], variables, 's', True, 'xor'),
            exists=(['a', 'b'], variables, 'state', False, 'xor'))[case]
        try:
            synth.iter2var(*arg)
        except (TypeError, ValueError):
            ctx.label('rejected')
            return
        ctx.check(False, f'{case}: accepted')
    return symx.Harness('rejected', fn, ['rejected', 'empty'])


def harnesses(tier):
    n = 4 if tier == 'quick' else 6
    return [helpers(n if n == 4 else 5), encoding(n), rejected()]


BOUNDS = {
    'quick': 'up to 4 names; 10 sets of integers; all valuations',
    'thorough': 'up to 6 names; 10 sets of integers; all valuations'}
OUTSIDE = 'larger sets; names that are not identifiers'
ASSUMPTIONS = [
    'resulting formulas are read by the independent parser lib/ltl.py']
EXPLANATION = (
    'The real helpers build formulas for symbolically chosen sets; z3 '
    'decides their equivalence to counting over all valuations.')
