"""C05: the text written for a solver denotes the specification."""
import itertools
import re

import ltl
import symx
from ltl import var, num, conj

import tulip.spec.translation as tx
from tulip.spec.form import GRSpec

PARTS = ('env_init', 'env_safety', 'env_prog',
         'sys_init', 'sys_safety', 'sys_prog')
E, S, XX, Y, M, N = map(var, ('e', 's', 'x', 'y', 'm', 'n'))
WORDS = ['up', 'mid', 'low']


def at(v, word):
    return ('=', v, ('str', word))


def nxt(f):
    return ('X', f)


# first two clauses of a part are used by harness `sections`
POOL = {
    'env_init': [
        E, ('->', E, ('=', XX, num(1))), at(M, 'mid'),
        ('|', ('!', E), at(M, 'low')), ('<', XX, num(2))],
    'sys_init': [
        ('|', S, E), ('!', S), ('&', at(N, 'up'), ('!=', Y, num(1))),
        ('<->', S, ('<=', Y, num(2))), ('->', at(M, 'low'), at(N, 'mid'))],
    'env_safety': [
        ('|', nxt(E), E), ('->', S, nxt(('!', E))),
        nxt(('|', E, ('=', XX, num(1)))), ('->', E, nxt(at(M, 'low'))),
        ('<->', ('=', ('X', XX), num(2)), ('&', E, S)),
        ('!', nxt(('&', E, at(M, 'up'))))],
    'sys_safety': [
        ('->', S, nxt(S)), ('|', E, nxt(('!', S))),
        ('->', nxt(E), ('>=', ('X', Y), num(1))),
        ('|', at(N, 'mid'), ('!=', ('X', N), ('str', 'mid'))),
        nxt(('<->', S, ('|', E, ('>', Y, num(0))))),
        ('->', ('&', S, E), ('|', nxt(at(N, 'low')), ('!', nxt(E))))],
    'env_prog': [
        E, ('!', E), ('|', S, ('!=', XX, num(3))), at(M, 'up'),
        ('->', S, ('&', E, at(M, 'low')))],
    'sys_prog': [
        S, ('->', E, S), ('=', Y, num(2)), ('!', at(N, 'up')),
        ('<->', at(N, 'low'), ('|', S, E))]}
BOOLEAN = {
    'env_init': [E, ('|', S, E), ('!', E)],
    'sys_init': [('|', S, E), ('!', S), ('<->', S, E)],
    'env_safety': [
        ('|', nxt(E), E), ('->', S, nxt(('!', E))),
        nxt(('|', E, ('!', E)))],
    'sys_safety': [
        ('->', S, nxt(S)), ('|', E, nxt(('!', S))),
        ('!', nxt(('&', E, S)))],
    'env_prog': [E, ('!', E), ('->', S, E)],
    'sys_prog': [S, ('->', E, S), ('!', ('&', S, E))]}
DOMS = dict(
    e='boolean', x=(0, 3), m=list(WORDS),
    s='boolean', y=(0, 3), n=list(WORDS))
ENV = ('e', 'x', 'm')
LANGS = ('gr1c', 'slugs', 'jtlv', 'wring')


def has(f, names):
    return bool(ltl.variables(f) & set(names))


def pool(lang, part):
    if lang == 'wring':
        return BOOLEAN[part]
    if lang == 'slugs':
        return [f for f in POOL[part] if not has(f, 'mn')]
    return POOL[part]


def domains(lang):
    if lang == 'wring':
        return dict(e='boolean', s='boolean')
    if lang == 'slugs':
        return {k: v for k, v in DOMS.items() if k not in 'mn'}
    return dict(DOMS)


def text(f):
    return ltl.unparse(f)


def quantify(part, f):
    if part.endswith('safety'):
        return ('G', f)
    if part.endswith('prog'):
        return ('G', ('F', f))
    return f


def meaning(part, clauses):
    return conj(quantify(part, f) for f in clauses)


def build(doms, parts):
    ev = {k: v for k, v in doms.items() if k in ENV}
    sv = {k: v for k, v in doms.items() if k not in ENV}
    return GRSpec(env_vars=ev, sys_vars=sv, **{
        p: [text(f) for f in fs] for p, fs in parts.items()})


# --------------------------------------------------- reading solver files


class Unreadable(Exception):
    output_is_wrong = True


def read_gr1c(s):
    """Declarations and formula of each part, from a gr1c file."""
    names = dict(
        ENVINIT='env_init', ENVTRANS='env_safety', ENVGOAL='env_prog',
        SYSINIT='sys_init', SYSTRANS='sys_safety', SYSGOAL='sys_prog')
    decl, parts = dict(), {p: list() for p in PARTS}
    seen = set()
    s = re.sub(r'#[^\n]*', '', s)
    body, sep, rest = s.rpartition(';')
    if rest.strip():
        raise Unreadable(f'text after last section: {rest!r}')
    for section in body.split(';'):
        name, sep, body = section.partition(':')
        name = name.strip()
        if not sep or name in seen:
            raise Unreadable(f'section {section!r}')
        seen.add(name)
        if name in ('ENV', 'SYS'):
            decl[name.lower()] = declared(
                body, r"\s+([A-Za-z_]\w*)(?:\s*\[\s*(-?\d+)\s*,"
                      r"\s*(-?\d+)\s*\])?(?=\s|$)")
        elif name in names:
            if body.strip():
                parts[names[name]] = [ltl.GR1C.parse(body.strip())]
        else:
            raise Unreadable(f'unknown section {name!r}')
    if set(decl) != {'env', 'sys'}:
        raise Unreadable('missing declarations')
    return decl, parts


def declared(body, regex):
    r, pos = dict(), 0
    body = body.rstrip()
    rx = re.compile(regex)
    while pos < len(body):
        m = rx.match(body, pos)
        if m is None:
            raise Unreadable(f'declaration {body[pos:]!r}')
        name, lo, hi = m.groups()
        if name in r:
            raise Unreadable(f'{name} declared twice')
        r[name] = 'boolean' if lo is None else (int(lo), int(hi))
        pos = m.end()
    return r


def read_slugs(s):
    """Same, from a structured slugs file."""
    names = dict(
        ENV_INIT='env_init', ENV_TRANS='env_safety',
        ENV_LIVENESS='env_prog', SYS_INIT='sys_init',
        SYS_TRANS='sys_safety', SYS_LIVENESS='sys_prog')
    decl, parts, cur = dict(), dict(), None
    for line in s.splitlines():
        line = line.partition('#')[0].strip()
        if not line:
            continue
        m = re.fullmatch(r'\[(\w+)\]', line)
        if m:
            cur = m.group(1)
            if cur in ('INPUT', 'OUTPUT'):
                name = dict(INPUT='env', OUTPUT='sys')[cur]
                where = decl.setdefault(name, dict())
            elif cur in names:
                where = parts.setdefault(names[cur], list())
            else:
                raise Unreadable(f'section {cur}')
            continue
        if cur is None:
            raise Unreadable(f'no section for {line!r}')
        if cur in ('INPUT', 'OUTPUT'):
            m = re.fullmatch(
                r'(\w+)(?:\s*:\s*(-?\d+)\s*\.\.\.\s*(-?\d+))?', line)
            if m is None or m.group(1) in where:
                raise Unreadable(f'declaration {line!r}')
            where[m.group(1)] = (
                'boolean' if m.group(2) is None
                else (int(m.group(2)), int(m.group(3))))
            continue
        part = names[cur]
        where.append(quantify(part, ltl.SLUGS.parse(line)))
    for p in PARTS:
        parts.setdefault(p, list())
    return decl, parts


def strip_player(f, ev, sv):
    if f[0] == 'var':
        player, dot, name = f[1].partition('.')
        if not dot or name not in dict(e=ev, s=sv).get(player, ()):
            raise Unreadable(f'variable {f[1]}')
        return var(name)
    if f[0] in ('num', 'bool', 'str'):
        return f
    return (f[0],) + tuple(strip_player(x, ev, sv) for x in f[1:])


def read_jtlv(pair, ev, sv):
    r = list()
    for s in pair:
        s = re.sub(r'--[^\n]*', '', s).strip()
        r.append(strip_player(ltl.JTLV.parse(s), ev, sv)
                 if s else ('bool', True))
    return r


def wring_atoms(f):
    if f[0] == '=':
        if f[1][0] != 'var' or f[2] not in (('bool', True), ('num', 1)):
            raise Unreadable(f'atom {f}')
        return f[1]
    if f[0] == 'var':
        raise Unreadable(f'bare variable {f}')
    if f[0] in ('num', 'bool', 'str'):
        return f
    return (f[0],) + tuple(wring_atoms(x) for x in f[1:])


ltl.WRING.booleans.update({'0': False, '1': True})


def positions(dom):
    return (0, len(dom) - 1) if isinstance(dom, list) else dom


def word(ctx, doms, k):
    """Any word over the integer positions of string values."""
    w = ltl.Lasso(k, doms)
    for c in w.consts:
        ctx.free(c)
    for c in w.constraints:
        ctx.assume(c) if ctx.replaying else ctx.solver.add(c)
    return w


def equivalent(ctx, w, f, g, what):
    try:
        a, b = w.row(f), w.row(g)
    except ltl.ParseError as e:
        ctx.check(False, f'{what}: ill-typed text: {e}')
        return
    ctx.check(a[0] == b[0], f'{what}: differs in meaning')


def compare(ctx, spec, doms, parts, lang, k):
    """Write `spec` and compare with clauses `parts`."""
    before = {p: list(getattr(spec, p)) for p in PARTS}
    ev = {a: d for a, d in doms.items() if a in ENV}
    sv = {a: d for a, d in doms.items() if a not in ENV}
    out = tx.translate(spec, lang)
    ctx.note(out=out)
    after = {p: list(getattr(spec, p)) for p in PARTS}
    ctx.check(before == after, f'{lang}: writing changed the clauses')
    ctx.check(
        dict(spec.env_vars) == ev and dict(spec.sys_vars) == sv,
        f'{lang}: writing changed the variables')
    a = conj(meaning(p, parts.get(p, ())) for p in PARTS[:3])
    g = conj(meaning(p, parts.get(p, ())) for p in PARTS[3:])
    try:
        if lang in ('gr1c', 'slugs'):
            decl, got = dict(gr1c=read_gr1c, slugs=read_slugs)[lang](out)
        elif lang == 'jtlv':
            ga, gg = read_jtlv(out, ev, sv)
        else:
            formula = wring_atoms(ltl.WRING.parse(out))
    except (ltl.ParseError, Unreadable) as e:
        ctx.check(False, f'{lang}: not readable by the solver: {e}')
        return
    w = word(ctx, doms, k)
    if lang in ('gr1c', 'slugs'):
        ctx.check(
            decl.get('env') == {v: positions(d) for v, d in ev.items()},
            f'{lang}: declared environment variables')
        ctx.check(
            decl.get('sys') == {v: positions(d) for v, d in sv.items()},
            f'{lang}: declared system variables')
        for p in PARTS:
            want = parts.get(p, ())
            if not want and not got[p]:
                continue
            equivalent(ctx, w, meaning(p, want), conj(got[p]),
                       f'{lang}: part {p}')
    elif lang == 'jtlv':
        equivalent(ctx, w, a, ga, 'jtlv: assumption')
        equivalent(ctx, w, g, gg, 'jtlv: guarantee')
    else:
        equivalent(ctx, w, ('->', a, g), formula, 'wring: formula')
    ctx.label('compared')


# --------------------------------------------------------------- harnesses


def sections(lang, k, thorough):
    """Any mix of empty and nonempty parts, with up to two clauses."""
    def fn(ctx):
        parts = dict()
        if thorough:
            count = {p: ctx.pick(f'n.{p}', [0, 1, 2]) for p in PARTS}
        else:
            pair = ctx.pick('parts', list(itertools.combinations(PARTS, 2)))
            rest = ctx.pick('rest', [0, 1])
            count = {
                p: ctx.pick(f'n.{p}', [0, 1, 2]) if p in pair else rest
                for p in PARTS}
        for p in PARTS:
            parts[p] = pool(lang, p)[:count[p]]
        doms = domains(lang)
        compare(ctx, build(doms, parts), doms, parts, lang, k)
    return symx.Harness(f'sections-{lang}', fn, ['compared'])


def clauses(lang, k):
    """Any clause of a pool, alone, or with another one."""
    def fn(ctx):
        p = ctx.pick('part', PARTS)
        fs = pool(lang, p)
        c = [ctx.pick('clause', fs)]
        other = ctx.pick('other', ['none', 'before', 'after', 'same'])
        more = ctx.pick('more', fs[-2:]) if other != 'none' else None
        if other == 'before':
            c = [more] + c
        elif other == 'after':
            c = c + [more]
        elif other == 'same':
            # occurs also in another part
            q = dict(env_init='sys_init', sys_init='env_init',
                     env_prog='sys_prog', sys_prog='env_prog',
                     env_safety='sys_safety', sys_safety='sys_safety')[p]
            parts = {p: c, q: c + [more] if q != p else c + c}
            doms = domains(lang)
            compare(ctx, build(doms, parts), doms, parts, lang, k)
            return
        parts = {p: c}
        doms = domains(lang)
        compare(ctx, build(doms, parts), doms, parts, lang, k)
    return symx.Harness(f'clauses-{lang}', fn, ['compared'])


def declarations(lang, k):
    """Variables of each kind for each player."""
    def dom(ctx, name):
        kinds = ['absent', 'boolean', 'range']
        if lang == 'gr1c' or lang == 'jtlv':
            kinds.append('words')
        kind = ctx.pick(f'{name}.kind', kinds)
        if kind == 'absent':
            return None
        if kind == 'boolean':
            return 'boolean'
        if kind == 'range':
            return ctx.pick(f'{name}.range', [
                (0, 0), (0, 5), (2, 9), (-3, 4)] if name in 'ey'
                else [(1, 3)])
        return ctx.pick(f'{name}.words', [
            ['a'], ['b', 'a'], ['low', 'c', 'b', 'a']] if name in 'ey'
            else [['c', 'a']])

    def fn(ctx):
        doms, parts = dict(), {p: list() for p in PARTS}
        few = ctx.flag('few')
        for v in ('x', 'e', 's', 'y'):
            if few and v in 'xs':
                continue
            d = dom(ctx, v)
            if d is None:
                continue
            doms[v] = d
            f = var(v)
            if isinstance(d, tuple):
                f = ('=', f, num(max(0, d[1])))
            elif isinstance(d, list):
                f = ('=', f, ('str', d[-1]))
            parts['env_prog' if v in ENV else 'sys_prog'].append(f)
        compare(ctx, build(doms, parts), doms, parts, lang, k)
    return symx.Harness(f'declarations-{lang}', fn, ['compared'])


def words(lang, k):
    """String values, by their position in the domain of the variable."""
    def fn(ctx):
        dm = ctx.pick('m', [['a', 'b', 'c'], ['c', 'a', 'b'], ['b', 'c']])
        dn = ctx.pick('n', [['a', 'b', 'c'], ['b', 'c', 'a']])
        vm, vn = ctx.pick('vm', dm), ctx.pick('vn', dn)
        op = ctx.pick('op', ['=', '!='])
        a = (op, M, ('str', vm))
        b = ('=', N, ('str', vn))
        if ctx.flag('swap'):
            a = (op, ('str', vm), M)
        part, f = ctx.pick('where', [
            ('env_init', a), ('sys_init', ('->', a, b)),
            ('sys_safety', ('->', a, nxt(b))),
            ('sys_safety', ('|', (op, ('X', N), ('str', vn)), a)),
            ('sys_prog', ('&', b, ('!', a)))])
        doms = dict(m=dm, n=dn)
        parts = {part: [f]}
        compare(ctx, build(doms, parts), doms, parts, lang, k)
    return symx.Harness(f'words-{lang}', fn, ['compared'])


def edited(lang, k):
    """A specification that is changed after it was written."""
    def fn(ctx):
        p = ctx.pick('part', PARTS)
        q = ctx.pick('other', PARTS)
        edit = ctx.pick('edit', ['append', 'remove', 'replace', 'union',
                                 'copy', 'domain', 'restore'])
        fs, gs = pool(lang, p), pool(lang, q)
        parts = {r: list() for r in PARTS}
        parts[p].append(fs[0])
        if q != p:
            parts[q].append(gs[0])
        doms = domains(lang)
        spec = build(doms, parts)
        # the text is checked by other harnesses
        tx.translate(spec, ctx.pick('first', sorted({lang, 'jtlv'})))
        if edit == 'append':
            parts[q].append(gs[-1])
            getattr(spec, q).append(text(gs[-1]))
        elif edit == 'remove':
            del parts[p][0]
            del getattr(spec, p)[0]
        elif edit == 'replace':
            parts[q] = [gs[-1]]
            setattr(spec, q, [text(gs[-1])])
        elif edit == 'restore':
            # taken out, something else written, then put back
            kept, spec_p = list(getattr(spec, p)), getattr(spec, p)
            spec_p[:] = [text(fs[-1])]
            tx.translate(spec, lang)
            spec_p[:] = kept
            parts[q].append(gs[-1])
            getattr(spec, q).append(text(gs[-1]))
        elif edit == 'union':
            spec = spec | build(doms, {q: [gs[-1]]})
            parts[q].append(gs[-1])
        elif edit == 'copy':
            spec = spec.copy()
            parts[q].append(gs[-1])
            getattr(spec, q).append(text(gs[-1]))
        else:
            spec.declare('z', env=False)
            doms = dict(doms, z='boolean')
            parts['sys_prog'].append(var('z'))
            spec.sys_prog.append('z')
        compare(ctx, spec, doms, parts, lang, k)
    return symx.Harness(f'edited-{lang}', fn, ['compared'])


def refused(k):
    """Formulas that the part of a specification cannot contain."""
    def fn(ctx):
        part = ctx.pick('part', [
            'env_init', 'sys_init', 'env_prog', 'sys_prog', 'env_safety'])
        lang = ctx.pick('lang', LANGS)
        first = ctx.flag('second')
        bad = ctx.pick('bad', [
            nxt(S), ('->', E, nxt(S)), ('!', nxt(('|', E, S)))])
        cs = [S, bad] if first else [bad]
        spec = build(dict(e='boolean', s='boolean'), {part: cs})
        try:
            tx.translate(spec, lang)
        except AssertionError:
            ctx.label('refused')
            return
        ctx.check(
            False, f'primed variable accepted in {part}',
            key=f'primed variable accepted in {part}')
    return symx.Harness('refused', fn, ['refused'])


def harnesses(tier):
    thorough = tier == 'thorough'
    k = 3 if tier == 'quick' else 4
    hs = [refused(k)]
    for lang in LANGS:
        hs.append(sections(lang, k, thorough))
        hs.append(clauses(lang, k))
        hs.append(edited(lang, k))
        if lang != 'wring':
            hs.append(declarations(lang, k))
        if lang not in ('wring', 'slugs'):
            hs.append(words(lang, k))
    return hs


BOUNDS = {
    'quick': '2 Boolean, 2 integer, 2 string variables; up to two clauses '
             'in two parts, while the other four are empty or have one '
             'clause; clauses from a pool of 5 or 6 per part; lassos with 3 '
             'positions and any loop',
    'thorough': 'as quick, but 0 to 2 clauses in every part independently; '
                'lassos with 4 positions'}
OUTSIDE = (
    'clauses with other operators (translation of each operator: C02); '
    'string variables in slugs files and nonboolean variables in Wring '
    'formulas, which are refused with an error; '
    'files of command-line options of the solvers')
ASSUMPTIONS = [
    'format of gr1c, structured slugs, JTLV, and Wring files as read by the '
    'independent readers in checks/c05.py and lib/ltl.py']
EXPLANATION = (
    'A specification whose parts and clauses are chosen by the solver is '
    'written by the real `translate`. An independent reader turns the text '
    'into declarations and formulas. For a symbolic ultimately periodic '
    'word over all variables (string values as positions), the solver '
    'decides that every part of the text holds exactly when the clauses '
    'of that part hold.')
