"""C16: set containers and type-checked dictionaries."""
import os
import random
import warnings

import symx
import z3

from c09 import Interval, andz, orz, lit

from tulip.transys import mathset as ms

# values of each kind of element
V = 3 if os.environ.get('VERIF_TIER') == 'thorough' else 2
STR = ['a', 'ab', 'b']
KINDS = ['int', 'list', 'str', 'mixed', 'dict', 'tuple', 'set']
UNHASHABLE = {'list', 'mixed', 'dict', 'set'}


class Elem:
    """Element with symbolic value."""

    def __init__(self, ctx, name, kind):
        self.kind = kind
        self.v = ctx.int(f'{name}.value', 0, V - 1)
        v = self.v
        if kind in ('str', 'tuple', 'set') and not isinstance(v, int):
            v = v.concretize()
        self.t = lit(v)
        if kind == 'int':
            self.obj = v
        elif kind == 'list':
            self.obj = [v]
        elif kind == 'str':
            self.obj = STR[v]
        elif kind == 'mixed':
            self.obj = (1, [v])
        elif kind == 'dict':
            self.obj = {'k': v}
        elif kind == 'tuple':
            self.obj = (v, 'a')
        elif kind == 'set':
            self.obj = {v, 9}


def universe(kinds):
    return [(k, v) for k in kinds for v in range(V)]


class Model:
    """Presence of each possible element, as a formula."""

    def __init__(self, kinds, has=None):
        self.kinds = kinds
        self.has = has or {u: z3.BoolVal(False) for u in universe(kinds)}

    def copy(self):
        return Model(self.kinds, dict(self.has))

    def among(self, u, elems):
        return orz(
            e.t == u[1] for e in elems if e.kind == u[0])

    def add(self, elems):
        for u in self.has:
            self.has[u] = z3.Or(self.has[u], self.among(u, elems))

    def remove(self, elems):
        for u in self.has:
            self.has[u] = z3.And(
                self.has[u], z3.Not(self.among(u, elems)))

    def keep(self, elems):
        for u in self.has:
            self.has[u] = z3.And(self.has[u], self.among(u, elems))

    def contains(self, e):
        return orz(
            z3.And(p, e.t == u[1]) for u, p in self.has.items()
            if u[0] == e.kind)

    def size(self):
        return z3.Sum([z3.If(p, 1, 0) for p in self.has.values()] + [
            z3.IntVal(0)])

    def equals(self, o):
        return andz(self.has[u] == o.has[u] for u in self.has)

    def subset(self, o):
        return andz(z3.Implies(self.has[u], o.has[u]) for u in self.has)


def classify(obj):
    """Kind and value of an element that a container returned."""
    if isinstance(obj, str):
        return 'str', z3.IntVal(STR.index(obj))
    if isinstance(obj, list):
        return 'list', lit(obj[0])
    if isinstance(obj, dict):
        return 'dict', lit(obj['k'])
    if isinstance(obj, set):
        [v] = obj - {9}
        return 'set', lit(v)
    if isinstance(obj, tuple):
        if obj[1] == 'a':
            return 'tuple', lit(obj[0])
        return 'mixed', lit(obj[1][0])
    return 'int', lit(obj)


def verify(ctx, s, m, what):
    """Compare contents with the model."""
    items = [classify(x) for x in s]
    ctx.check(len(s) == len(items), f'{what}: size and iteration')
    ctx.check(m.size() == len(items), f'{what}: number of elements')
    ok = list()
    for u, p in m.has.items():
        n = z3.Sum([z3.IntVal(0)] + [
            z3.If(t == u[1], 1, 0) for k, t in items if k == u[0]])
        ok.append(n == z3.If(p, 1, 0))
    ctx.check(andz(ok), f'{what}: elements')


def truth(x):
    return lit(x) if isinstance(x, symx.SymBool) else z3.BoolVal(bool(x))


def container(ctx, name, elems, hashable_only, forms):
    """Elements in a container that the operation accepts."""
    form = ctx.pick(name, forms)
    objs = [e.obj for e in elems]
    if form == 'list':
        return objs
    if form == 'tuple':
        return tuple(objs)
    if form == 'generator':
        return (x for x in objs)
    if form == 'MathSet':
        return ms.MathSet(objs)
    if form == 'set':
        if not hashable_only:
            return objs
        return set(objs)
    raise ValueError(form)


PAIRS = [
    ['int', 'list'], ['mixed', 'int'], ['str', 'dict'],
    ['list', 'mixed'], ['set', 'tuple'], ['int', 'str'],
]
# operations that change `s`
CHANGES = ['add', 'add_from', '|=', 'update', 'remove', '-=', 'pop']
FORMS = ['list', 'generator', 'MathSet', 'set', 'tuple']


def apply(ctx, s, m, op, elems, box, seed=0):
    if op == 'add':
        for e in elems:
            s.add(e.obj)
        m.add(elems)
    elif op == 'add_from':
        s.add_from(box())
        m.add(elems)
    elif op == '|=':
        t = s
        s |= box()
        ctx.check(s is t, '|= in place')
        m.add(elems)
    elif op == 'update':
        s.update(box())
        m.add(elems)
    elif op == '-=':
        t = s
        s -= box()
        ctx.check(s is t, '-= in place')
        m.remove(elems)
    elif op == 'remove':
        e = elems[0]
        there = m.contains(e)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s.remove(e.obj)
        except (ValueError, KeyError):
            ctx.check(z3.Not(there), 'remove: element is present')
            ctx.label('absent')
        else:
            ctx.check(there, 'remove: absent element is reported')
            m.remove([e])
    elif op == 'pop':
        random.seed(seed)
        empty = m.size() == 0
        try:
            x = s.pop()
        except KeyError:
            ctx.check(empty, 'pop: set is not empty')
            ctx.label('pop empty')
            return
        ctx.check(z3.Not(empty), 'pop: set is empty')
        kind, t = classify(x)
        e = type('E', (), dict(kind=kind, t=t))
        ctx.check(m.contains(e), 'pop: element of the set')
        m.remove([e])
    else:
        raise ValueError(op)


def kinds_of(ctx, name, pair, patterns):
    return [pair[i] for i in ctx.pick(name, patterns)]


def history(n_first, patterns, steps, pairs):
    """Construct, change, then compare contents."""
    def fn(ctx):
        pair = ctx.pick('kinds', pairs)
        hashable = not set(pair) & UNHASHABLE
        first = [
            Elem(ctx, f'a{i}', k) for i, k in enumerate(
                kinds_of(ctx, 'first', pair, n_first))]
        m = Model(pair)
        s = ms.MathSet(container(
            ctx, 'form', first, hashable,
            FORMS[:2] if len(first) > 1 else FORMS[2:]))
        m.add(first)
        for j in range(steps):
            op = ctx.pick(f'op{j}', CHANGES)
            if op == 'pop':
                elems = []
            else:
                elems = [
                    Elem(ctx, f'b{j}.{i}', k) for i, k in enumerate(
                        kinds_of(ctx, f'second{j}', pair, patterns))]
            apply(ctx, s, m, op, elems, lambda: container(
                ctx, f'box{j}', elems, hashable,
                FORMS[1:4] if len(elems) > 1 else FORMS[:1]),
                [0, 1, 4][j] if len(first) > 1 else 4)
        verify(ctx, s, m, 'history')
        p = Elem(ctx, 'probe', ctx.pick('probe', pair))
        ctx.check(truth(p.obj in s) == m.contains(p), 'membership')
        ctx.label('checked')
    return symx.Harness(
        f'set history of {steps}', fn,
        ['checked', 'absent'] + ['pop empty'] * ((0,) not in n_first
            and () in n_first), opaque_repr='all')


def binary(patterns, pairs):
    """Operations on two sets."""
    def fn(ctx):
        pair = ctx.pick('kinds', pairs)
        hashable = not set(pair) & UNHASHABLE
        mk = lambda n: [
            Elem(ctx, f'{n}{i}', k) for i, k in enumerate(
                kinds_of(ctx, n, pair, patterns))]
        a, b = mk('a'), mk('b')
        ma, mb = Model(pair), Model(pair)
        s = ms.MathSet([e.obj for e in a])
        ma.add(a)
        mb.add(b)
        op = ctx.pick('op', [
            '|', '-', 'intersection', 'intersects', '==', '!=',
            '*', 'cartesian', 'is_subset', 'self'])
        forms = ['MathSet'] if op in ('==', '!=') else FORMS[:4]
        if op in ('*', 'is_subset', 'self'):
            forms = ['MathSet', 'list']
        t = container(ctx, 'form', b, hashable, forms)
        if op == '|':
            r = s | t
            ma.add(b)
            verify(ctx, r, ma, 'union')
        elif op == '-':
            r = s - t
            ma.remove(b)
            verify(ctx, r, ma, 'difference')
        elif op == 'intersection':
            r = s.intersection(t)
            ma.keep(b)
            verify(ctx, r, ma, 'intersection')
        elif op == 'intersects':
            r = s.intersects(t)
            ctx.check(truth(r) == orz(
                z3.And(ma.has[u], mb.has[u]) for u in ma.has),
                'intersects')
        elif op == '==':
            ctx.check(truth(s == t) == ma.equals(mb), 'equality')
        elif op == '!=':
            ctx.check(truth(s != t) == z3.Not(ma.equals(mb)),
                      'inequality')
        elif op == 'is_subset':
            try:
                r = ms.is_subset(t, s)
            except TypeError:
                ctx.check(False, 'is_subset raises')
            ctx.check(truth(r) == mb.subset(ma), 'inclusion')
        elif op == '*':
            r = s * t
            got = [(classify(x), classify(y)) for x, y in r]
            ok = list()
            for u, p in ma.has.items():
                for w, q in mb.has.items():
                    n = z3.Sum([z3.IntVal(0)] + [
                        z3.If(z3.And(x[1] == u[1], y[1] == w[1]), 1, 0)
                        for x, y in got if (x[0], y[0]) == (u[0], w[0])])
                    ok.append(n == z3.If(z3.And(p, q), 1, 0))
            ctx.check(andz(ok), 'product')
        elif op == 'cartesian':
            c = ms.CartesianProduct()
            c.add(s)
            other = ms.MathSet([e.obj for e in b])
            c.add_from([other])
            p = Elem(ctx, 'p', ctx.pick('p', pair))
            q = Elem(ctx, 'q', ctx.pick('q', pair))
            r = (p.obj, q.obj) in c
            ctx.check(
                truth(r) == z3.And(ma.contains(p), mb.contains(q)),
                'membership in product')
            ctx.check((p.obj,) not in c, 'shorter tuple in product')
            c.remove(s)
            ctx.check(truth([q.obj] in c) == mb.contains(q),
                      'membership after removing a factor')
        elif op == 'self':
            s -= s
            ctx.check(len(s) == 0, 'difference with itself')
            u = ms.MathSet(t)
            u |= u
            verify(ctx, u, mb, 'union with itself')
        ctx.label(op)
        if op not in ('self',):
            ma = Model(pair)
            ma.add(a)
            verify(ctx, s, ma, f'{op}: operand')
        if isinstance(t, ms.MathSet):
            verify(ctx, t, mb, f'{op}: other operand')
    return symx.Harness(
        f'set operations {len(patterns)} {len(pairs)}', fn,
        ['|', '-', 'intersection', 'intersects', '==', '!=', '*',
         'cartesian', 'is_subset', 'self'], opaque_repr='all')


def subset(patterns, pairs, steps):
    """A subset never leaves its superset."""
    def fn(ctx):
        pair = ctx.pick('kinds', pairs)
        hashable = not set(pair) & UNHASHABLE
        sup = [
            Elem(ctx, f'p{i}', k) for i, k in enumerate(
                kinds_of(ctx, 'superset', pair, patterns))]
        msup = Model(pair)
        msup.add(sup)
        big = container(
            ctx, 'superset form', sup, hashable, ['MathSet', 'list', 'set'])
        first = [
            Elem(ctx, f'a{i}', k) for i, k in enumerate(
                kinds_of(ctx, 'first', pair, [(), (0,), (0, 1)]))]
        m = Model(pair)
        m.add(first)
        inside = m.subset(msup)
        try:
            s = ms.SubSet(big, [e.obj for e in first])
        except (ValueError, TypeError):
            ctx.check(z3.Not(inside), 'rejects a subset')
            ctx.label('rejected at start')
            return
        ctx.check(inside, 'accepts elements outside the superset')
        for j in range(steps):
            op = ctx.pick(f'op{j}', ['add', 'add_from', '|=', 'update',
                                     'remove', '-=', '|'])
            n = [(0,), (1,)] if op in ('add', 'remove') else [
                (0, 1), (1, 1), (0,)]
            elems = [
                Elem(ctx, f'b{j}.{i}', k) for i, k in enumerate(
                    kinds_of(ctx, f'second{j}', pair, n))]
            new = m.copy()
            new.add(elems)
            if op in ('remove', '-='):
                apply(ctx, s, m, op, elems, lambda: [
                    e.obj for e in elems])
                continue
            box = lambda: container(
                ctx, f'box{j}', elems, hashable, ['generator', 'MathSet'])
            if op == '|':
                r = s | box()
                verify(ctx, r, new, 'union of subset')
                if isinstance(r, ms.SubSet):
                    ctx.check(new.subset(msup), 'union leaves superset')
                continue
            old = m.copy()
            try:
                apply(ctx, s, m, op, elems, box)
            except (ValueError, TypeError):
                ctx.check(z3.Not(new.subset(msup)),
                          'rejects elements of the superset')
                m = old
                ctx.label('rejected')
            else:
                ctx.check(new.subset(msup),
                          'comes to contain an element outside')
                ctx.label('accepted')
        verify(ctx, s, m, 'subset')
        ctx.check(m.subset(msup), 'inclusion in superset')
    return symx.Harness(
        f'subset {steps}', fn, ['rejected', 'accepted', 'rejected at start'],
        opaque_repr='all')


def power(patterns, pairs):
    def fn(ctx):
        pair = ctx.pick('kinds', pairs)
        base = [
            Elem(ctx, f'p{i}', k) for i, k in enumerate(
                kinds_of(ctx, 'base', pair, patterns))]
        m = Model(pair)
        m.add(base)
        p = ms.PowerSet([e.obj for e in base])
        op = ctx.pick('op', ['in', 'iter', 'change', '+', '=='])
        if op == 'change':
            e = Elem(ctx, 'e', ctx.pick('e', pair))
            if ctx.flag('add'):
                p.math_set.add(e.obj)
                m.add([e])
            else:
                p.math_set -= [e.obj]
                m.remove([e])
        if op == '+':
            more = [
                Elem(ctx, f'q{i}', k) for i, k in enumerate(
                    kinds_of(ctx, 'more', pair, patterns))]
            q = ms.PowerSet([e.obj for e in more])
            r = p + q
            verify(ctx, p.math_set, m, 'sum: operand')
            m.add(more)
            p = r
        if op == '==':
            more = [
                Elem(ctx, f'q{i}', k) for i, k in enumerate(
                    kinds_of(ctx, 'more', pair, patterns))]
            mq = Model(pair)
            mq.add(more)
            q = ms.PowerSet([e.obj for e in more])
            ctx.check(truth(p == q) == m.equals(mq),
                      'equality of power sets')
            return
        verify(ctx, p.math_set, m, 'base of power set')
        k = next(x for x in range(10) if ctx.decide(m.size() == x))
        ctx.check(len(p) == 2**k, 'number of subsets')
        if op == 'iter':
            seen = list()
            for sub in p:
                c = [classify(x) for x in sub]
                row = {u: orz(t == u[1] for kk, t in c if kk == u[0])
                       for u in m.has}
                sub = Model(pair, row)
                ctx.check(sub.subset(m), 'subset of the base')
                ctx.check(sub.size() == len(c), 'no repetition')
                ctx.check(andz(z3.Not(sub.equals(o)) for o in seen),
                          'subsets differ')
                seen.append(sub)
            ctx.check(len(seen) == 2**k, 'all subsets')
            ctx.label('iterated')
            return
        x = [
            Elem(ctx, f'x{i}', kk) for i, kk in enumerate(
                kinds_of(ctx, 'item', pair, [(), (0,), (0, 1), (1,)]))]
        mx = Model(pair)
        mx.add(x)
        form = ctx.pick('item form', ['list', 'tuple', 'MathSet', 'set'])
        objs = [e.obj for e in x]
        if form == 'set' and not set(pair) & UNHASHABLE:
            objs = set(objs)
        elif form == 'tuple':
            objs = tuple(objs)
        elif form == 'MathSet':
            objs = ms.MathSet(objs)
        ctx.check(truth(objs in p) == mx.subset(m), 'member of power set')
        ctx.label('member')
    return symx.Harness(
        'power set', fn, ['member', 'iterated'], opaque_repr='all')


def typed(steps):
    """Values of a typed dictionary stay in the domain of their key."""
    def fn(ctx):
        d = ms.TypedDict()
        lo, hi = 2, 5
        names = {'l', 'left'}
        types = dict(x=Interval(lo, hi), xy=Interval(lo + 1, hi - 1),
                     n=names, any=None)
        ctx.check(len(d) == 0, 'starts empty')
        d['n'] = 'zz' if ctx.flag('bad before') else 'l'
        d.set_types(types)
        ok = d['n'] == 'l'
        ctx.check(d.is_consistent() == ok, 'consistency')
        if not ok:
            try:
                d['n'] = 'left'
            except ValueError:
                ctx.check(False, 'rejects an allowed value')
        model = dict(d)
        for j in range(steps):
            op = ctx.pick(f'op{j}', [
                '[]', 'update', 'update pairs', 'update names',
                'setdefault', '|=', 'two'])
            k = ctx.pick(f'key{j}', ['x', 'n', 'any', 'free'])
            if k == 'n':
                v = ctx.pick(f'v{j}', ['l', 'left', 'lef', ''])
                ok = z3.BoolVal(v in names)
            else:
                v = ctx.int(f'v{j}', 0, 9)
                ok = z3.And(lit(v) >= lo, lit(v) <= hi) if (
                    k == 'x') else z3.BoolVal(True)
            if op == 'setdefault' and k in model:
                ctx.check(z3.BoolVal(True), 'x')
                r = d.setdefault(k, v)
                same(ctx, r, model[k], 'setdefault returns the value')
                continue
            new = dict(model)
            new[k] = v
            try:
                if op == '[]':
                    d[k] = v
                elif op == 'update':
                    d.update({k: v})
                elif op == 'update pairs':
                    d.update([(k, v)])
                elif op == 'update names':
                    d.update(**{k: v})
                elif op == 'setdefault':
                    r = d.setdefault(k, v)
                    same(ctx, r, v, 'setdefault returns the value')
                elif op == '|=':
                    e = d
                    d |= {k: v}
                    ctx.check(e is d, '|= in place')
                else:
                    w = ctx.int(f'w{j}', 0, 9)
                    ok = z3.And(ok, lit(w) > lo, lit(w) < hi)
                    new['xy'] = w
                    d.update({k: v, 'xy': w})
            except ValueError:
                ctx.check(z3.Not(ok), 'rejects an allowed value')
                ctx.label('rejected')
                if op == 'two':
                    # may have accepted one of them
                    break
            else:
                ctx.check(ok, 'holds a value that is not allowed')
                model = new
                ctx.label('accepted')
        else:
            ctx.check(set(d) == set(model), 'keys')
            for k in model:
                same(ctx, d[k], model[k], 'value')
        for k in d:
            v = d[k]
            if k in ('x', 'xy'):
                off = k == 'xy'
                ctx.check(z3.And(lit(v) >= lo + off, lit(v) <= hi - off),
                          'value is in the domain of its key')
            if k == 'n':
                ctx.check(v in names, 'value is in the domain of its key')
        ctx.check(d.is_consistent(), 'consistent after edits')
    return symx.Harness(
        'typed dictionary', fn, ['accepted', 'rejected'],
        opaque_repr='all')


def same(ctx, a, b, what):
    if isinstance(a, str) or isinstance(b, str):
        ctx.check(isinstance(a, str) and a == b, what)
    else:
        ctx.check(lit(a) == lit(b), what)


def harnesses(tier):
    t = tier == 'thorough'
    some = [(), (0, 1), (0, 0, 1)]
    more = [(0, 0), (0, 1), (1, 1, 0), (1,), ()]
    if t:
        return [
            history(more, [(0,), (0, 1), (1, 1)], 1, PAIRS),
            history(some, [(0, 1)], 2, PAIRS[:3]),
            binary(more, PAIRS), subset(some, PAIRS, 1),
            subset([(0, 1)], PAIRS, 2),
            power(more, PAIRS), typed(3)]
    return [
        history([(), (0, 0, 1)], [(0,), (0, 1)], 1, PAIRS[:5]),
        history([(0, 1)], [(1,)], 2, PAIRS[:2]),
        binary([(), (0, 1)], PAIRS), binary([(0, 0, 1)], PAIRS[:2]),
        subset([(0, 1)], PAIRS[:4], 1),
        power([(), (0, 1)], PAIRS[:4]), typed(2)]


BOUNDS = {
    'quick': 'sets of up to 3 elements out of 6 (two kinds of hashable, '
             'unhashable, or mixed elements with 3 values each), 1 change '
             'of each form for every pair of kinds, 2 for two pairs; '
             'dictionaries with 2 updates of integers 0..9 and strings',
    'thorough': 'as quick, more mixtures, 2 changes, 3 updates'}
OUTSIDE = 'equality of a set with a frozen set; elements equal across types'
ASSUMPTIONS = []
EXPLANATION = (
    'The real containers are built and changed with symbolic elements; '
    'contents, membership, size, comparison are compared by the solver '
    'with a formula for the presence of each possible element.')
