"""C01: conversions of LTL idioms to GR(1)."""
import itertools

import ltl
import symx
import z3
from ltl import var

import tulip.spec.gr1_fragment as gr1

P, Q, R, S = var('p'), var('q'), var('r'), var('s0')
# (subformula, its text)
FORMS = [
    P, Q, ('!', P), ('&', P, Q), ('|', P, R), ('->', P, Q), ('<->', P, Q),
    ('^', P, Q), ('&', P, ('|', Q, R)), ('!', ('|', P, ('!', R))),
    ('bool', True), ('bool', False)]
SPELL = {'&': '/\\', '|': '\\/', '!': '~', '->': '=>', '<->': '<=>'}


def formula_text(f, ctx, name):
    style = ctx.pick(f'{name}.style', ['minimal', 'spelled', 'paren'])
    if style == 'paren':
        return ltl.unparse(f, minimal=False)
    return ltl.unparse(f, spell=SPELL if style == 'spelled' else None)


def spec_formula(spec, parse):
    """Conjunction of the guarantees, nothing may be assumed."""
    assert not (spec.env_init or spec.env_safety or spec.env_prog)
    return guarantee(spec.sys_init, spec.sys_safety, spec.sys_prog, parse)


def guarantee(init, safety, prog, parse):
    c = [parse(x) for x in init]
    c += [('G', parse(x)) for x in safety]
    c += [('G', ('F', parse(x))) for x in prog]
    return ltl.conj(c)


def conversion(ctx, k, kind, full):
    p = ctx.pick('p', FORMS)
    two = kind in ('response', 'until')
    # unless `full`, vary one of these at a time
    vary = ctx.pick('vary', ['q', 'style', 'aux'])
    q = (ctx.pick('q', FORMS if full or vary == 'q' else [('&', Q, ('!', R))])
         if two else None)
    aux = ctx.pick('aux', [None, 'b', 'pp'] if full or vary == 'aux'
                   else [None])
    kw = dict() if aux is None else dict(aux=aux)
    aux = aux or 'aux'
    if full or vary == 'style':
        pt = formula_text(p, ctx, 'p')
    else:
        pt = ltl.unparse(p)
    qt = ltl.unparse(q) if two else None
    if two and vary == 'style':
        qt = formula_text(q, ctx, 'q')
    if kind == 'response':
        spec = gr1.response_to_gr1(pt, qt, **kw)
        original = ('G', ('->', p, ('F', q)))
    elif kind == 'until':
        spec = gr1.until_to_gr1(pt, qt, **kw)
        original = ('U', p, q)
    elif kind == 'eventually':
        spec = gr1.eventually_to_gr1(pt, **kw)
        original = ('F', p)
    elif kind == 'stability':
        spec = gr1.stability_to_gr1(pt, **kw)
        original = ('F', ('G', p))
    ctx.note(kind=kind, p=pt, q=qt, aux=aux)
    # variables: those of the formula and the auxiliary one, all the
    # system's and Boolean
    names = ltl.variables(original)
    ctx.check(
        not spec.env_vars and dict(spec.sys_vars) == {
            x: 'boolean' for x in names | {aux}},
        f'{kind}: declares variables {spec.env_vars} {spec.sys_vars}')
    form = spec_formula(spec, ltl.TULIP.parse)
    doms = {x: 'boolean' for x in names | {aux}}
    # soundness, over symbolic lassos
    w = ltl.Lasso(k, doms)
    for c in w.consts:
        ctx.free(c)
    for c in w.constraints:
        ctx.assume(c)
    ctx.check(
        z3.Implies(w.holds(form), w.holds(original)),
        f'{kind}: specification allows a behavior that '
        f'violates the formula (p={pt}, q={qt})')
    ctx.label('sound')
    if kind == 'stability':
        return
    # completeness: each behavior of the original variables that satisfies
    # the formula extends with some behavior of the auxiliary variable.
    # The loop is unrolled once more, so that aux need not repeat
    # from the start of the original loop.
    n, loop = ctx.pick('shape', [
        (n, j) for n in range(1, k + 1) for j in range(n)])
    m = 2 * n - loop
    w = ltl.Lasso(m, doms, tag='c')
    fixed = [w.loop == n]
    eqs = list()
    auxs = list()
    for x in sorted(doms):
        for i in range(m):
            v = w.v[x, i]
            if x == aux:
                auxs.append(v)
                continue
            ctx.free(v)
            if i >= n:
                eqs.append((v, w.v[x, i - n + loop]))
    body = w.holds(form)
    orig = w.holds(original)
    sub = eqs + [(w.loop, z3.IntVal(n))]
    body = z3.substitute(body, *sub)
    orig = z3.substitute(orig, *sub)
    options = [
        z3.substitute(body, *[
            (a, z3.BoolVal(b)) for a, b in zip(auxs, bits)])
        for bits in itertools.product([False, True], repeat=len(auxs))]
    ctx.check(
        z3.Implies(orig, z3.Or(*options)),
        f'{kind}: a behavior that satisfies the formula is excluded '
        f'(p={pt}, q={qt})')
    ctx.label('complete')


def split(ctx, k, n):
    """A formula `A -> G`, split into the parts of a specification."""
    atoms = [P, ('&', P, Q), ('|', R, ('!', P)), ('->', P, Q)]
    step = [('->', P, ('X', Q)), ('|', ('X', R), Q), P, ('&', P, ('X', R))]

    def term(name):
        kind = ctx.pick(f'{name}.kind', ['init', 'G', 'GF'])
        if kind == 'init':
            return ctx.pick(f'{name}.b', atoms)
        if kind == 'G':
            return ('G', ctx.pick(f'{name}.c', step))
        return ('G', ('F', ctx.pick(f'{name}.b', atoms)))
    sides = list()
    for side, m in (('a', n[0]), ('g', n[1])):
        ts = [term(f'{side}{i}') for i in range(m)]
        if m == 3 and ctx.flag(f'{side}.shape'):
            f = ('&', ts[0], ('&', ts[1], ts[2]))
        else:
            f = ltl.conj(ts)
        sides.append(f)
    original = ('->', *sides)
    text = ltl.unparse(original)
    # the function needs to know no variables
    parts = [gr1.split_gr1(ltl.unparse(f)) for f in sides]
    ctx.note(text=text, parts=parts)
    w = ltl.Lasso(k, {x: 'boolean' for x in 'pqr'})
    for c in w.consts:
        ctx.free(c)
    for c in w.constraints:
        ctx.assume(c)
    for side, f, d in zip(('assumption', 'guarantee'), sides, parts):
        # an absent part is an empty string
        g = guarantee(*[
            [x for x in d[part] if x] for part in ('init', 'G', 'GF')],
            ltl.TULIP.parse)
        ctx.check(
            w.holds(f) == w.holds(g),
            f'{side} of {text} changed meaning: {d}')
    spec = gr1.str_to_grspec(text)
    for part in ('init', 'safety', 'prog'):
        for side in ('env', 'sys'):
            x = f'{side}_{part}'
            if '' in getattr(spec, x):
                # reported by the harness `findings`
                setattr(spec, x, list(filter(None, getattr(spec, x))))
    a = guarantee(spec.env_init, spec.env_safety, spec.env_prog,
                  ltl.TULIP.parse)
    g = guarantee(spec.sys_init, spec.sys_safety, spec.sys_prog,
                  ltl.TULIP.parse)
    ctx.check(
        z3.And(w.holds(sides[0]) == w.holds(a),
               w.holds(sides[1]) == w.holds(g)),
        f'{text} changed meaning as a specification')
    ctx.label('split')


def findings(ctx):
    """Known failures, each with its own key."""
    text = ctx.pick('text', ['[] p -> [] <> q', 'p -> [] q'])
    spec = gr1.str_to_grspec(text)
    clauses = (
        spec.env_init + spec.env_safety + spec.env_prog +
        spec.sys_init + spec.sys_safety + spec.sys_prog)
    ctx.note(text=text, clauses=clauses)
    ctx.check(
        '' not in clauses,
        f'{text}: the specification contains an empty clause',
        key='empty clause for an absent part')


def harnesses(tier):
    k = 3 if tier == 'quick' else 5
    kc = 3 if tier == 'quick' else 4
    hs = [
        symx.Harness(
            kind, lambda ctx, kind=kind: conversion(
                ctx, kc, kind, tier != 'quick'),
            ['sound'] + (['complete'] if kind != 'stability' else []))
        for kind in ('response', 'eventually', 'until', 'stability')]
    hs.append(symx.Harness('findings', findings))
    sizes = [(1, 2), (2, 1)] + ([(3, 1), (1, 3)] if tier != 'quick' else [])
    for n in sizes:
        hs.append(symx.Harness(
            f'split-{n[0]}-{n[1]}', lambda ctx, n=n: split(ctx, k, n),
            ['split']))
    return hs


BOUNDS = {
    'quick': 'subformulas from 12 forms over 3 Boolean variables in 3 '
             'spellings; lassos with up to 3 positions and any loop (the '
             'auxiliary variable on the loop unrolled once more); split '
             'formulas with up to 3 conjuncts in total',
    'thorough': 'as quick, lassos with up to 4 positions (5 for splitting), '
                'up to 4 conjuncts'}
OUTSIDE = 'longer lassos; formulas over numbers; completeness of stability'
ASSUMPTIONS = [
    'behaviors are ultimately periodic words up to the bound (two '
    'omega-regular properties that differ, differ on such a word, though '
    'perhaps a longer one)',
    'resulting formulas are read by the independent parser lib/ltl.py']
EXPLANATION = (
    'The real conversion runs on symbolic choices of subformulas; z3 decides '
    'soundness over all lassos with auxiliary variable, and completeness '
    'with the auxiliary variable existentially expanded.')
