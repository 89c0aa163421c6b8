"""C18: gridworlds and their specifications describe the same motion."""
import itertools
import os
import tempfile

import ltl
import numpy as np
import symx
import z3
from ltl import var, num, conj, disj

from c09 import andz, orz

from tulip import gridworld as gwm
from tulip.gridworld import GridWorld

P = ltl.TULIP.parse


def description(rows, size):
    return f'{size[0]} {size[1]}\n' + '\n'.join(rows)


class World:
    """Reference description of a gridworld."""

    def __init__(self, size, walls, init, goals):
        self.size = size
        self.walls = set(walls)
        self.init = set(init)
        self.goals = set(goals)

    def cells(self):
        return list(itertools.product(
            range(self.size[0]), range(self.size[1])))

    def free(self):
        return [x for x in self.cells() if x not in self.walls]

    def text(self):
        def ch(x):
            return ('*' if x in self.walls else 'I' if x in self.init
                    else 'G' if x in self.goals else ' ')
        return description([
            ''.join(ch((i, j)) for j in range(self.size[1]))
            for i in range(self.size[0])], self.size)


def near(x, y):
    return abs(x[0] - y[0]) + abs(x[1] - y[1]) <= 1


def read(text):
    """Reference reader of gridworld descriptions."""
    lines = text.split('\n')
    while not lines[0].strip() or lines[0].strip()[0] == '#':
        lines.pop(0)
    size = tuple(int(x) for x in lines.pop(0).split())
    w = World(size, [], [], [])
    for i, line in enumerate(lines[:size[0]]):
        for j, c in enumerate(line[:size[1]]):
            d = {'*': w.walls, 'I': w.init, 'G': w.goals, ' ': set()}[c]
            d.add((i, j))
    return w


def describes(ctx, g, w, what):
    """Does `g` describe the reference `w`?"""
    ctx.check(tuple(g.size()) == tuple(w.size), f'size of {what}')
    for x in w.cells():
        ctx.check(bool(g.is_empty(x)) == (x not in w.walls),
                  f'obstacles of {what}')
    ctx.check(set(map(tuple, g.init_list)) == w.init,
              f'initial cells of {what}')
    ctx.check(set(map(tuple, g.goal_list)) == w.goals, f'goals of {what}')
    ctx.check(len(g.init_list) == len(w.init), f'initial list of {what}')
    ctx.check(len(g.goal_list) == len(w.goals), f'goal list of {what}')


def part(spec, name):
    xs = getattr(spec, name)
    xs = [xs] if isinstance(xs, str) else list(xs)
    return [P(x) for x in xs if x.strip()]


def whole(spec, side):
    """All constraints of one player, as a formula."""
    return conj(
        part(spec, f'{side}_init')
        + [('G', x) for x in part(spec, f'{side}_safety')]
        + [('G', ('F', x)) for x in part(spec, f'{side}_prog')])


def domains(spec):
    r = dict()
    for d in (spec.env_vars, spec.sys_vars):
        for k, v in d.items():
            r[k] = 'boolean' if v in ('boolean', 'bool') else tuple(v)
    return r


class Names:
    """How cells of a world are written in a specification."""

    def __init__(self, prefix, offset, nonbool, size):
        self.p, self.o, self.nonbool, self.size = prefix, offset, nonbool, size

    def cell(self, x):
        r, c = x[0] + self.o[0], x[1] + self.o[1]
        if self.nonbool:
            return ('&', ('=', var(f'{self.p}_r'), num(r)),
                    ('=', var(f'{self.p}_c'), num(c)))
        return var(f'{self.p}_{r}_{c}')

    def cells(self):
        return list(itertools.product(
            range(self.size[0]), range(self.size[1])))

    def at(self, x):
        """Exactly at `x`."""
        if self.nonbool:
            return self.cell(x)
        return conj([self.cell(x)] + [
            ('!', self.cell(y)) for y in self.cells() if y != x])

    def domains(self):
        if self.nonbool:
            return {
                f'{self.p}_r': (self.o[0], self.o[0] + self.size[0] - 1),
                f'{self.p}_c': (self.o[1], self.o[1] + self.size[1] - 1)}
        return {self.cell(x)[1]: 'boolean' for x in self.cells()}


def motion(w, names):
    """Motions of a reference world."""
    free = w.free()
    r = [('G', disj(
        conj([names.at(x), ('X', disj(
            names.at(y) for y in free if near(x, y)))])
        for x in free))]
    if w.init:
        r.append(disj(names.at(x) for x in sorted(w.init)))
    r += [('G', ('F', names.at(x))) for x in sorted(w.goals)]
    return conj(r)


def equivalent(ctx, k, doms, got, want, assume, msg):
    lasso = ltl.Lasso(k, doms)
    for t in lasso.consts:
        ctx.free(t)
    for c in lasso.constraints:
        ctx.assume(c)
    if assume is not None:
        ctx.assume(lasso.holds(assume))
    a, b = lasso.holds(got), lasso.holds(want)
    if ctx.replaying:
        pass
    elif ctx.sat(*lasso.constraints, b) is not None:
        ctx.label('some motion')
    ctx.check(z3.Implies(a, b), f'{msg} admits another motion')
    ctx.check(z3.Implies(b, a), f'{msg} rejects a motion')


def check_spec(ctx, g, w, k, options):
    nonbool = ctx.flag('integers')
    offset, controlled = ctx.pick('options', options)
    before = tuple(g.offset)
    spec = g.spec(offset=offset, controlled_dyn=controlled, nonbool=nonbool)
    ctx.check(tuple(g.offset) == before, 'offset of the gridworld')
    names = Names(g.prefix, offset, nonbool, w.size)
    mine, other = ('sys', 'env') if controlled else ('env', 'sys')
    doms = {
        k: 'boolean' if v in ('bool', 'boolean') else tuple(v)
        for k, v in getattr(spec, f'{mine}_vars').items()}
    ctx.check(doms == names.domains(), 'variables of the specification')
    ctx.check(not getattr(spec, f'{other}_vars'), 'variables of the other')
    for p in ('init', 'safety', 'prog'):
        ctx.check(not part(spec, f'{other}_{p}'), 'constraints on the other')
    for x in part(spec, f'{mine}_init'):
        ctx.check(not temporal(x), 'initial condition is temporal')
    assume = None
    if not w.init:
        # without initial cells the start is not constrained
        assume = disj(names.at(x) for x in w.free())
    equivalent(ctx, k, names.domains(), whole(spec, mine),
               motion(w, names), assume, 'specification')
    describes(ctx, g, w, 'the gridworld after writing')


def temporal(f):
    return f[0] in 'XFGUWV' or any(
        temporal(x) for x in f[1:] if isinstance(x, tuple))


OPTIONS = [((0, 0), True), ((2, 1), False)]


def motion_harness(name, size, chars, k, extra=False, options=OPTIONS):
    def fn(ctx):
        rows = [
            ''.join(ctx.pick(f'c{i}{j}', chars) for j in range(size[1]))
            for i in range(size[0])]
        w = read(description(rows, size))
        ctx.assume(bool(w.free()))
        g = GridWorld(description(rows, size),
                      prefix='a_b' if rows[0][0] == ' ' else 'Y')
        more = ctx.pick('more', [
            None, 'goal at initial cell', 'change']) if extra else None
        if more == 'goal at initial cell':
            for x in sorted(w.init)[:1]:
                g.goal_list.append(x)
                w.goals.add(x)
        if more == 'change':
            # after loading
            x = (size[0] - 1, size[1] - 1)
            ctx.assume(x not in w.init | w.goals)
            if x in w.walls:
                g.mark_empty((-1, -1))
                w.walls.remove(x)
            else:
                g.mark_occupied((-1, -1))
                w.walls.add(x)
                ctx.assume(bool(w.free()))
        if not w.free():
            return
        check_spec(ctx, g, w, k, options if more is None else options[:1])
        ctx.label('specified')
    return symx.Harness(name, fn, ['specified', 'some motion'])


def symbolic_world(ctx, size):
    g = gwm.unoccupied(size)
    t = {x: ctx.int(f'w{x[0]}{x[1]}', 0, 1)
         for x in itertools.product(range(size[0]), range(size[1]))}
    a = np.empty(size, dtype=object)
    for x, v in t.items():
        a[x] = v
    g.W = a
    return g, {x: symx.lift(v) == 1 if not isinstance(v, int)
               else z3.BoolVal(v == 1) for x, v in t.items()}


def wrap(ctx, name, x, size):
    r = tuple(
        v - n if ctx.flag(f'{name}.negative{k}') else v
        for k, (v, n) in enumerate(zip(x, size)))
    return r


def reach_harness(name, sizes, starts, negative):
    def fn(ctx):
        size = ctx.pick('size', sizes)
        g, wall = symbolic_world(ctx, size)
        cells = list(wall)
        s = ctx.pick('start', cells[:starts])
        t = ctx.pick('stop', cells)
        reach = {x: z3.And(z3.BoolVal(x == s), z3.Not(wall[x]))
                 for x in cells}
        for _ in cells:
            reach = {
                x: z3.And(z3.Not(wall[x]), z3.Or(*[
                    reach[y] for y in cells if near(x, y)]))
                for x in cells}
        if negative:
            a, b = ctx.pick('negative', [
                (tuple(v - n for v, n in zip(s, size)), t),
                (s, (t[0] - size[0], t[1])), (s, (t[0], t[1] - size[1]))])
        else:
            a, b = s, t
        r = bool(g.is_reachable(a, b))
        ctx.check(reach[t] == r, 'reachability')
        ctx.label('reachable' if r else 'unreachable')
        # the query does not change the world
        for x in cells:
            ctx.check(wall[x] == (symx.lift(g.W[x]) == 1),
                      'obstacles after a query')
    return symx.Harness(name, fn, ['reachable', 'unreachable'],
                        opaque_repr='all')


def queries(ctx):
    size = ctx.pick('size', [(2, 2), (1, 3)])
    g, wall = symbolic_world(ctx, size)
    cells = list(wall)
    x = ctx.pick('cell', cells)
    key = wrap(ctx, 'cell', x, size)
    ctx.check(wall[x] == (not g.is_empty(key)), 'emptiness of a cell')
    ctx.check(tuple(g.size()) == size, 'size')
    inside = x == key
    ctx.check((not g.is_empty(key, extend=True)) ==
              (wall[x] if inside else z3.BoolVal(True)),
              'emptiness of a cell, without wrapping')
    far = (x[0] + (size[0] if inside else 0), x[1] + size[1])
    ctx.check(not g.is_empty(far, extend=True), 'cells outside')
    for bad in (far, (-size[0] - 1, 0), (0, -size[1] - 1)):
        for f in (lambda: g[bad], lambda: g.state(bad),
                  lambda: g.is_reachable(bad, x),
                  lambda: g.is_reachable(x, bad)):
            try:
                f()
            except ValueError:
                continue
            ctx.check(False, 'cell out of bounds accepted')
    # names of cells, and states
    offset, prefix = ctx.pick('option', [((0, 0), 'Y'), ((2, 1), 'a_b')])
    nonbool = ctx.flag('integers')
    g.prefix = prefix
    names = Names(prefix, (0, 0), nonbool, size)
    here = P(g.__getitem__(key, nonbool=nonbool))
    after = P(g.__getitem__(key, use_next=True, nonbool=nonbool))
    lasso = ltl.Lasso(2, names.domains())
    for t in lasso.consts:
        ctx.free(t)
    for c in lasso.constraints:
        ctx.assume(c)
    ctx.check(lasso.holds(here) == lasso.holds(names.cell(x)),
              'name of a cell')
    ctx.check(lasso.holds(after) == lasso.holds(('X', names.cell(x))),
              'name of a cell at the next step')
    if not nonbool:
        ctx.check(gwm.extract_coord(g.__getitem__(key, nonbool=False)) ==
                  (prefix,) + x, 'coordinates of a name')
    st = g.state(key, offset=offset, nonbool=nonbool)
    nm = Names(prefix, offset, nonbool, size)
    ctx.check(set(st) == set(nm.domains()), 'variables of a state')
    ctx.check(only_at(st, nm, cells, x), 'state of a cell')
    # changes
    if ctx.flag('occupy'):
        g.mark_occupied(key)
        new = True
    else:
        g.mark_empty(key)
        new = False
    for y in cells:
        ctx.check((not g.is_empty(y)) == (
            z3.BoolVal(new) if y == x else wall[y]),
            'obstacles after a change')
    ctx.label('queried')


def only_at(state, names, cells, x):
    r = True
    for y in cells:
        f = names.cell(y)
        if names.nonbool:
            v = all(state[z[1][1]] == z[2][1] for z in f[1:])
        else:
            v = bool(state[f[1]])
        r = r and v == (y == x)
    return r


# ----------------------------------------------------------------- text


def layout(ctx, size, chars, tag=''):
    return [''.join(ctx.pick(f'{tag}{i}{j}', chars) for j in range(size[1]))
            for i in range(size[0])]


def text_harness(size, chars):
    def fn(ctx):
        rows = layout(ctx, size, chars)
        form, how, lp, prefix = ctx.pick('form', [
            ('plain', 'new', '', 'Y'), ('comments', 'new', '% ', 'other'),
            ('short0', 'loads', '', 'Y'), ('short1', 'new', '', 'Y'),
            ('long', 'loads', '# ', 'Y'), ('crlf', 'load', '', 'Y'),
            ('comments', 'load', '', 'Y')])
        head = f'{size[0]} {size[1]}'
        lines = [head] + rows
        if form == 'comments':
            lines = ['# a 2', '', '  # 3 3', f' {size[0]}\t{size[1]} '] + rows
        if form.startswith('short'):
            n = int(form[-1])
            lines = [head] + rows[:-1] + ([rows[-1][:n]] if n else [])
        if form == 'long':
            lines = [head] + [x + '  ' for x in rows] + ['*' * size[1]]
        text = '\n'.join(lines)
        w = read(text)
        if form == 'crlf':
            text = '\r\n'.join(lines) + '\r\n'
        if how == 'new':
            g = GridWorld(text, prefix=prefix)
            ctx.check(g.prefix == prefix, 'prefix')
        elif how == 'loads':
            g = GridWorld.loads(text)
        else:
            with tempfile.TemporaryDirectory() as d:
                with open(os.path.join(d, 'w.txt'), 'w', newline='') as f:
                    f.write(text)
                g = GridWorld.load(os.path.join(d, 'w.txt'))
        describes(ctx, g, w, 'the loaded gridworld')
        out = g.dumps(line_prefix=lp)
        ctx.check(all(x.startswith(lp) for x in out.splitlines()),
                  'prefix of lines')
        out = '\n'.join(x[len(lp):] for x in out.splitlines())
        describes(ctx, GridWorld.loads(out), w, 'the dumped gridworld')
        x = read(out)
        ctx.check((x.size, x.walls, x.init, x.goals) ==
                  (w.size, w.walls, w.init, w.goals), 'dumped text')
        ctx.label('dumped')
    return symx.Harness('text', fn, ['dumped'])


def copies(size, chars):
    def fn(ctx):
        w = read(description(layout(ctx, size, chars), size))
        g = GridWorld(w.text(), prefix='Z')
        if ctx.flag('goal at initial cell'):
            ctx.assume(bool(w.init))
            for x in sorted(w.init)[:1]:
                g.goal_list.append(x)
                w.goals.add(x)
        g.offset = (1, 2) if (0, 0) in w.walls else (0, 0)
        c = g.copy()
        describes(ctx, c, w, 'a copy')
        ctx.check(c.prefix == 'Z', 'prefix of a copy')
        ctx.check(tuple(c.offset) == tuple(g.offset), 'offset of a copy')
        ctx.check(g == c and c == g and not g != c, 'copy is equal')
        one, two = (g, c) if ctx.flag('original') else (c, g)
        change = ctx.pick('change', ['cell', 'initial', 'goals', 'offset'])
        if change == 'cell':
            x = (0, size[1] - 1)
            if x in w.walls:
                one.mark_empty(x)
            else:
                one.mark_occupied(x)
        elif change == 'initial':
            one.init_list.append((0, 1))
        elif change == 'goals':
            one.goal_list.append((0, 1))
        else:
            one.offset = (3, 3)
        if change != 'offset':
            ctx.check(one != two and not one == two,
                      'changed copy is different')
        describes(ctx, two, w, 'what was not changed')
        ctx.check(two.offset != (3, 3), 'offset of what was not changed')
        ctx.label('copied')
    return symx.Harness('copies', fn, ['copied'])


def empty_copy(ctx):
    a = GridWorld(prefix=ctx.pick('prefix', ['Y', 'Z']))
    b = a.copy()
    ctx.check(b.W is None and b.prefix == a.prefix, 'copy of an empty one')
    ctx.check(tuple(b.size()) == (0, 0), 'size of an empty one')
    ctx.check(a == b and not a != b, 'empty ones are equal')
    c = gwm.unoccupied((2, 2))
    ctx.check(a != c and c != a and not a == c and not c == a,
              'empty one is different')
    ctx.label('copied')


def equality(sizes, chars):
    def fn(ctx):
        one = ctx.pick('size one', sizes)
        two = ctx.pick('size two', sizes)
        a = read(description(layout(ctx, one, chars, 'a'), one))
        b = read(description(layout(ctx, two, chars, 'b'), two))
        ga = GridWorld(a.text(), prefix='Z')
        gb = GridWorld(b.text())
        same = (a.size, a.walls, a.init, a.goals) == (
            b.size, b.walls, b.init, b.goals)
        ctx.check((ga == gb) is same or bool(ga == gb) == same, 'equality')
        ctx.check(bool(ga != gb) == (not same), 'difference')
        ctx.label('same' if same else 'different')
    return symx.Harness('equality', fn, ['same', 'different'])


def subworlds(ctx):
    size = ctx.pick('size', [(2, 2), (1, 3)])
    g, wall = symbolic_world(ctx, size)
    extend = ctx.flag('extend')
    sub = (ctx.pick('height', [1, 4] if extend else [1, 2, 0]),
           ctx.pick('width', [2, 4] if extend else [1, 2, 3]))
    lo = -3 if extend else -1
    off = (ctx.pick('row', list(range(lo, 4))),
           ctx.pick('column', list(range(lo, 4))))
    g.init_list = [(0, 0)]
    g.goal_list = [(1, 1)]
    fits = all(0 <= off[k] and off[k] + sub[k] <= size[k] and sub[k] > 0
               for k in range(2))
    try:
        s = g.dump_subworld(sub, offset=off, prefix='S', extend=extend)
    except ValueError:
        ctx.check(not extend and not fits, 'subworld refused')
        ctx.label('refused')
        return
    ctx.check(extend or fits, 'subworld outside the gridworld')
    ctx.check(tuple(s.size()) == sub, 'size of subworld')
    ctx.check(s.prefix == 'S', 'prefix of subworld')
    ctx.check(not s.init_list and not s.goal_list, 'cells of subworld')
    for i in range(sub[0]):
        for j in range(sub[1]):
            y = (i + off[0], j + off[1])
            e = s.is_empty((i, j))
            ctx.check((not e) == wall.get(y, z3.BoolVal(True)),
                      'obstacles of subworld')
    # independent of the original
    for i in range(sub[0]):
        for j in range(sub[1]):
            s.mark_occupied((i, j))
    for y in wall:
        ctx.check((not g.is_empty(y)) == wall[y], 'obstacles of original')
    ctx.label('extracted')


def scaling(ctx):
    size = ctx.pick('size', [(1, 2), (2, 2)])
    w = read(description(layout(ctx, size, ' *IG'), size))
    g = GridWorld(w.text(), prefix='Z')
    if ctx.flag('goal at initial cell'):
        ctx.assume(bool(w.init))
        for x in sorted(w.init)[:1]:
            g.goal_list.append(x)
            w.goals.add(x)
    xf, yf = ctx.pick('factors', [(1, 2), (3, 1), (2, 2)])
    s = g.scale(xf=xf, yf=yf)
    new = World((size[0] * yf, size[1] * xf), [], [], [])
    new.walls = {x for x in new.cells()
                 if (x[0] // yf, x[1] // xf) in w.walls}
    new.init = {(x[0] * yf, x[1] * xf) for x in w.init}
    new.goals = {(x[0] * yf, x[1] * xf) for x in w.goals}
    describes(ctx, s, new, 'a scaled gridworld')
    ctx.check(s.prefix == 'Z', 'prefix of a scaled gridworld')
    describes(ctx, g, w, 'the gridworld after scaling')
    ctx.label('scaled')


# ----------------------------------------------------------- generators


class Draw:
    """Stand-in for random numbers: symbolic choices."""

    def __init__(self, ctx, limit):
        self.ctx, self.n, self.limit = ctx, 0, limit

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        if low >= high:
            raise ValueError('low >= high')
        self.n += 1
        self.ctx.assume(self.n <= self.limit)
        return self.ctx.pick(f'random{self.n}', list(range(low, high)))

    def sample(self, xs, k):
        xs = list(xs)
        if k > len(xs):
            raise ValueError('Sample larger than population')
        r = list()
        for _ in range(k):
            i = self.randint(0, len(xs))
            r.append(xs.pop(i))
        return r

    def __enter__(self):
        self.old = np.random.randint, gwm.random.sample
        np.random.randint = self.randint
        gwm.random.sample = self.sample
        return self

    def __exit__(self, *a):
        np.random.randint, gwm.random.sample = self.old


def connected(w, x, y):
    seen, todo = {x}, [x]
    while todo:
        u = todo.pop()
        for v in w.free():
            if near(u, v) and v not in seen:
                seen.add(v)
                todo.append(v)
    return x not in w.walls and y in seen


def reference(g):
    w = World(tuple(g.size()), [], g.init_list, g.goal_list)
    w.walls = {x for x in w.cells() if not g.is_empty(x)}
    return w


def random_worlds(sizes, limit):
    def fn(ctx):
        size = ctx.pick('size', sizes)
        ni = ctx.pick('initial', [1, 0, 2])
        ng = ctx.pick('goals', [1, 0])
        nt = ctx.pick('trolls', [0, 1])
        blocks = ctx.pick('blocks', [0, 1, 2])
        n = size[0] * size[1]
        ctx.assume(ni + ng + nt + blocks <= n)
        feasible = ctx.flag('feasible')
        with Draw(ctx, ni + ng + nt + blocks + (limit if feasible else 0)):
            r = gwm.random_world(
                size, wall_density=blocks / n, num_init=ni, num_goals=ng,
                prefix='Z', ensure_feasible=feasible, num_trolls=nt)
        trolls = list()
        if nt:
            r, trolls = r
        w = reference(r)
        ctx.check(w.size == tuple(size) and r.prefix == 'Z', 'random size')
        ctx.check(len(w.walls) == blocks, 'number of random obstacles')
        ctx.check(len(w.init) == len(r.init_list) == ni,
                  'number of random initial cells')
        ctx.check(len(w.goals) == len(r.goal_list) == ng,
                  'number of random goals')
        ctx.check(len(trolls) == nt, 'number of random trolls')
        centers = {tuple(t[0]) for t in trolls}
        marked = w.walls, w.init, w.goals, centers
        ctx.check(not any(a & b for a, b in itertools.combinations(
            marked, 2)), 'random cells are disjoint')
        for s in marked:
            ctx.check(s <= set(w.cells()), 'random cells are in the grid')
        ctx.check(all(t[1] == 1 for t in trolls), 'radius of random trolls')
        if feasible:
            for x, y in itertools.combinations(
                    sorted(w.init | w.goals), 2):
                ctx.check(connected(w, x, y), 'feasible random gridworld')
            ctx.label('feasible')
        ctx.label('generated')
    return symx.Harness('random', fn, ['generated', 'feasible'])


def passages(sizes):
    def fn(ctx):
        size = ctx.pick('size', sizes)
        width = ctx.pick('width', [1, 2])
        ni = ctx.pick('initial', [1, 2])
        ng = ctx.pick('goals', [1, 2])
        top = ctx.pick('top', [None, 1])
        with Draw(ctx, 9):
            g = gwm.narrow_passage(
                size, passage_width=width, num_init=ni, num_goals=ng,
                ptop=top, prefix='Z')
        w = reference(g)
        ctx.check(w.size == tuple(size) and g.prefix == 'Z',
                  'size of narrow passage')
        ctx.check(len(w.init) == len(g.init_list) == ni,
                  'number of initial cells')
        ctx.check(len(w.goals) == len(g.goal_list) == ng,
                  'number of goals')
        ctx.check(not w.walls & (w.init | w.goals), 'marked cells are free')
        cols = {x[1] for x in w.walls}
        ctx.check(bool(cols) and cols == set(
            range(min(cols), max(cols) + 1)), 'columns of the passage')
        ctx.check(all(x[1] < min(cols) for x in w.init), 'initial zone')
        ctx.check(all(x[1] > max(cols) for x in w.goals), 'final zone')
        for c in cols:
            rows = [i for i in range(size[0]) if (i, c) not in w.walls]
            ctx.check(len(rows) == width, 'width of the passage')
            ctx.check(rows == list(range(rows[0], rows[0] + width)),
                      'rows of the passage')
            if top is not None:
                ctx.check(rows[0] == top, 'top of the passage')
        for x in w.init:
            for y in w.goals:
                ctx.check(connected(w, x, y), 'passage connects the zones')
        ctx.label('generated')
    return symx.Harness('passage', fn, ['generated'])


# --------------------------------------------------------------- trolls


def troll_harness(name, layouts, trolls, k, modes):
    def fn(ctx):
        size, rows = ctx.pick('world', layouts)
        w = read(description(rows, size))
        which = ctx.pick('trolls', trolls)
        for c, _ in which:
            ctx.assume(c in w.free())
        anywhere = ctx.flag('anywhere')
        nonbool = ctx.pick('integers', modes)
        g = GridWorld(w.text())
        lists = ctx.flag('moves')
        got = gwm.add_trolls(
            g, [(c, r) for c, r in which], prefix='T',
            start_anywhere=anywhere, nonbool=nonbool,
            get_moves_lists=lists)
        spec, moves = got if lists else (got, None)
        describes(ctx, g, w, 'the gridworld with trolls')
        yn = Names('Y', (0, 0), nonbool, size)
        doms = yn.domains()
        ctx.check(
            {k: tuple(v) if isinstance(v, (tuple, list)) else 'boolean'
             for k, v in spec.sys_vars.items()} == doms,
            'variables of the gridworld with trolls')
        env, sys_ = list(), [motion(w, yn)]
        tdoms = dict()
        for n, (c, r) in enumerate(which):
            lo = max(0, c[0] - r), max(0, c[1] - r)
            hi = min(size[0] - 1, c[0] + r), min(size[1] - 1, c[1] + r)
            sz = hi[0] - lo[0] + 1, hi[1] - lo[1] + 1
            rel = {(x[0] - lo[0], x[1] - lo[1]) for x in w.walls
                   if all(lo[k] <= x[k] <= hi[k] for k in range(2))}
            tw = World(sz, rel, [], [(c[0] - lo[0], c[1] - lo[1])])
            tw.init = set(tw.free()) if anywhere else set(tw.goals)
            tn = Names(f'T_{n}', lo, nonbool, sz)
            tdoms.update(tn.domains())
            env.append(motion(tw, tn))
            for x in tw.free():
                y = x[0] + lo[0], x[1] + lo[1]
                # cells, not exact positions: Boolean ones are exclusive
                sys_.append(('G', ('!', ('X', (
                    '&', yn.cell(y), tn.cell(x))))))
            if moves is not None:
                ctx.check(len(moves) == len(which), 'number of moves lists')
                for x in tw.free():
                    ctx.check(any(
                        set(m) == set(tn.domains()) and
                        only_at(m, tn, tw.cells(), x)
                        for m in moves[n]), 'moves of a troll')
                for m in moves[n]:
                    ctx.check(set(m) == set(tn.domains()) and any(
                        only_at(m, tn, tw.cells(), x)
                        for x in tw.cells()), 'states of a troll')
        ctx.check(
            {k: tuple(v) if isinstance(v, (tuple, list)) else 'boolean'
             for k, v in spec.env_vars.items()} == tdoms,
            'variables of trolls')
        lasso = ltl.Lasso(k, {**doms, **tdoms})
        for t in lasso.consts:
            ctx.free(t)
        for c in lasso.constraints:
            ctx.assume(c)
        e, s = lasso.holds(whole(spec, 'env')), lasso.holds(
            whole(spec, 'sys'))
        we, ws = lasso.holds(conj(env)), lasso.holds(conj(sys_))
        ctx.check(z3.Implies(e, we), 'trolls move otherwise')
        ctx.check(z3.Implies(we, e), 'trolls are restricted')
        # about motions of trolls
        start = lasso.holds(disj(yn.at(x) for x in w.free())) \
            if not w.init else z3.BoolVal(True)
        ctx.check(z3.Implies(z3.And(we, start, s), ws),
                  'gridworld with trolls admits another motion')
        ctx.check(z3.Implies(z3.And(we, start, ws), s),
                  'gridworld with trolls rejects a motion')
        if not ctx.replaying and ctx.sat(
                *lasso.constraints, we, ws) is not None:
            ctx.label('joint motion')
        ctx.label('specified')
    return symx.Harness(name, fn, ['specified', 'joint motion'])


def findings(ctx):
    """Defects recorded in known_findings.json."""
    ctx.label('checked')
    g = GridWorld('1 2\nI*')
    g.goal_list.append((0, 0))
    h = GridWorld.loads(g.dumps())
    ctx.check(set(h.goal_list) == {(0, 0)},
              'goal at an initial cell is lost in the dumped text',
              key='goal at an initial cell')


LAYOUTS = [
    ((2, 2), ['I ', ' G']), ((2, 2), ['I*', ' G']),
    ((2, 3), ['I  ', ' *G']), ((3, 2), ['  ', '* ', 'GI']),
    ((1, 3), ['I G']), ((2, 3), ['   ', '   ']), ((3, 3), ['I  ', ' * ', '  G'])]
TROLLS = [[((0, 1), 1)], [((1, 0), 0)], [((0, 0), 2)], [((1, 1), 1)],
          [((0, 2), 1)], [((2, 1), 1)]]
PAIRS = [[((0, 0), 1), ((1, 1), 0)], [((0, 1), 0), ((0, 0), 0)],
         [((1, 0), 1), ((0, 1), 1)]]

BOUNDS = dict(
    quick='worlds of 2x2 with every combination of empty, obstacle, '
    'initial, goal cells, 1x3 and 2x3 with obstacles; motions of lassos '
    'with at most 4 positions (3 with trolls); reachability in grids of '
    'up to 3x3, 1x4, 2x4 with symbolic cells; 1 or 2 trolls of radius up '
    'to 2; generated worlds of up to 2x3, every outcome of random draws',
    thorough='as quick, with worlds of 2x3 with every kind of cell, lassos '
    'of 5 positions, reachability in 3x4 grids')
OUTSIDE = (
    'Larger grids, motions that are not lassos of the stated length; '
    'plotting, animation, and pretty printing; specifications of worlds '
    'without any free cell; the starting cell when a world has no initial '
    'cells (the specification does not constrain it).')
ASSUMPTIONS = [
    'outcomes of random numbers are arbitrary (stand-ins for '
    'numpy.random.randint and random.sample)',
    'with ensure_feasible at most 2 rejected draws',
    'obstacle matrices in queries, subworlds are numpy object arrays of '
    'symbolic integers 0 or 1']
EXPLANATION = (
    'Worlds are built from text with symbolic choices of cells, or with '
    'matrices of symbolic integers; the methods of GridWorld run on them. '
    'Formulas of the returned specification are parsed by an own parser, '
    'and z3 decides that they and the definition of motion in the grid '
    'hold on the same lassos. Reachability is compared to a fixpoint.')


def harnesses(tier):
    quick = tier == 'quick'
    hs = [
        motion_harness(
            'motion 2x2', (2, 2), ' *IG', 3 if quick else 4, extra=True),
        motion_harness('motion 1x3', (1, 3), ' *IG', 3 if quick else 4),
        motion_harness('motion 2x3', (2, 3), ' *' if quick else ' *I', 4),
        reach_harness('reach', [(2, 2), (1, 4), (4, 1), (2, 3)], 6, True),
        reach_harness('reach 3x3', [(3, 3)], 5, False),
        reach_harness('reach 2x4', [(2, 4), (4, 2)], 3, False),
        symx.Harness('queries', queries, ['queried'], opaque_repr='all'),
        text_harness((2, 2), ' *IG'),
        copies((2, 2), ' *IG'),
        symx.Harness('empty copy', empty_copy, ['copied']),
        equality([(1, 2), (2, 1)], ' *IG'),
        symx.Harness('subworlds', subworlds, ['extracted', 'refused'],
                     opaque_repr='all'),
        symx.Harness('scaling', scaling, ['scaled']),
        random_worlds([(2, 2), (1, 3), (2, 3)] if not quick
                      else [(1, 3), (2, 2)], 2),
        passages([(3, 3), (4, 3)] + ([] if quick else [(3, 6)])),
        troll_harness('trolls', LAYOUTS, TROLLS, 3, [True, False]),
        troll_harness('two trolls', LAYOUTS[:3] if quick else LAYOUTS,
                      PAIRS, 3, [True, False]),
        symx.Harness('findings', findings, ['checked'])]
    if not quick:
        hs += [reach_harness('reach 3x4', [(3, 4)], 4, False),
               motion_harness('motion 3x3', (3, 3), ' *', 3)]
    return hs
