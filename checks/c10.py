"""C10: exported controller code."""
import os

import symx
import z3

from c09 import andz, orz, lit

from tulip import dumpsmach
from tulip.transys import machines

# input domains, output domains
SIGNATURES = [
    (dict(x=[0, 1, 2]), dict(y=[0, 1])),
    (dict(b=[0, 1], a=[-1, 0]), dict(y=[10, -1])),
    (dict(s=['a', 'ab']), dict(t=["b", "it's", 'b\\n'])),
    (dict(k=[10, 9, 1]), dict(output=[0, 1], z=['l', 'r'])),
    (dict(), dict(y=[0, 1], q=['u', 'v'])),
    (dict(output=[0, 1], self=[1, 2]), dict(_output=[0, 1])),
]
# (states, edges, start)
SHAPES = [
    (['Sinit', 1, 0], [('Sinit', 1), ('Sinit', 0), (1, 'Sinit'), (0, 1)],
     None),
    ([0, 'Sinit', 5], [('Sinit', 5), (5, 0), (5, 5), (0, 'Sinit')], None),
    (['b', 'Sinit', 'a'], [('a', 'a'), ('a', 'b'), ('a', 'b'),
                           ('Sinit', 'a')], 'a'),
    ([7, 3, 'Sinit'], [('Sinit', 7), (7, 'Sinit'), (7, 3), ('Sinit', 3)],
     3),
]


def make(ctx, ins, outs, shape):
    states, edges, start = shape
    m = machines.MealyMachine()
    m.add_inputs({k: set(v) for k, v in ins.items()})
    m.add_outputs({k: set(v) for k, v in outs.items()})
    m.states.add_from(states)
    m.states.initial.add('Sinit')
    done = list()
    # with 2, transitions omit some outputs, as after `mask_outputs`
    shift = ctx.pick('outputs', [1, 2])
    for i, (a, b) in enumerate(edges):
        if not ins and any(p == a for p, _, _ in done):
            continue
        d = {k: ctx.pick(f'e{i}.{k}', v) for k, v in ins.items()}
        for j, (k, v) in enumerate(outs.items()):
            d[k] = v[(i + j * shift + (i // 2) * shift) % len(v)]
            if shift == 2 and (i + j) % 2:
                d.pop(k)
        if any(p == a and all(f[k] == d[k] for k in ins)
               for p, _, f in done):
            # transitions are deterministic
            ctx.assume(z3.BoolVal(False))
        m.transitions.add(a, b, dict(d))
        done.append((a, b, d))
    return m, done, start


def value(ctx, name, dom):
    """Symbolic integer, or choice among strings."""
    if isinstance(dom[0], str):
        return ctx.pick(name, dom)
    v = ctx.int(name, min(dom) - 1, max(dom) + 1)
    return v


def same(p, q):
    if isinstance(p, str) or isinstance(q, str):
        return z3.BoolVal(isinstance(p, str) and isinstance(q, str)
                          and p == q)
    return lit(p) == lit(q)


def export(sigs, shapes, length):
    def fn(ctx):
        k = ctx.pick('signature', sigs)
        ins, outs = SIGNATURES[k]
        shape = SHAPES[ctx.pick('shape', shapes)]
        m, edges, start = make(ctx, ins, outs, shape)
        kw = dict() if start is None else dict(start=start)
        start = start or 'Sinit' if start != 0 else start
        name = 'TulipStrategy'
        if k % 2:
            name = kw['classname'] = 'Ctrl2'
        if k == 3:
            path = os.path.join(os.getcwd(), f'ctrl{os.getpid()}.py')
            dumpsmach.write_python_case(path, m, **kw)
            with open(path) as f:
                code = f.read()
        else:
            code = dumpsmach.python_case(m, **kw)
        ns = dict()
        exec(compile(code, '/repo/tulip/generated', 'exec'), ns)
        obj = ns[name]()
        ctx.check(list(obj.input_vars) == list(ins),
                  'names of input variables')
        cur = start
        other = ns[name]()
        returned = list()
        first = None
        for i in range(length):
            inp = {v: value(ctx, f'in{i}.{v}', d) for v, d in ins.items()}
            hit = [
                andz([z3.BoolVal(a == cur)] +
                     [same(d[v], inp[v]) for v in ins])
                for a, b, d in edges]
            can = orz(hit)
            try:
                if i % 2:
                    out = obj.move(*inp.values())
                else:
                    out = obj.move(**inp)
            except ValueError:
                ctx.check(z3.Not(can), 'rejects an input with a transition')
                ctx.check(any(a == cur for a, _, _ in edges),
                          'dead end reported as invalid input')
                ctx.label('rejected')
                continue
            except RuntimeError:
                ctx.check(not any(a == cur for a, _, _ in edges),
                          'reports a dead end where transitions exist')
                ctx.label('dead end')
                return
            ctx.check(can, 'accepts an input without transition')
            nxt = [(b, d) for h, (a, b, d) in zip(hit, edges)
                   if ctx.decide(h)]
            ctx.check(len(nxt) == 1, 'deterministic')
            cur, d = nxt[0]
            if i == 0:
                first = inp, {v: d[v] for v in outs if v in d}
            returned.append((out, {v: d[v] for v in outs if v in d}))
            for out, expected in returned:
                ctx.check(set(out) == set(expected), 'names of outputs')
                ctx.check(andz(same(out[v], expected[v])
                               for v in expected),
                          'outputs differ from the transition')
            if len(expected) < len(outs):
                ctx.label('masked')
        # instances are independent
        if first is not None:
            inp, expected = first
            out = other.move(**inp)
            ctx.check(set(out) == set(expected),
                      'names of outputs of a second instance')
            ctx.check(andz(same(out[v], expected[v]) for v in expected),
                      'outputs of a second instance')
        ctx.label('ran')
    return symx.Harness(
        'export', fn, ['ran', 'rejected', 'dead end', 'masked'],
        # only error messages contain symbolic values
        opaque_repr='all')


def harnesses(tier):
    t = tier == 'thorough'
    return [export(range(6), range(4), 3 if t else 2)]


BOUNDS = {
    'quick': 'machines with 3 states and 4 transitions in 4 shapes, '
             '6 signatures of ports with up to 3 values; 2 steps with any '
             'integer input around the domains',
    'thorough': 'as quick, 3 steps'}
OUTSIDE = 'larger machines; transitions labeled with a part of the inputs'
ASSUMPTIONS = ['machines are deterministic']
EXPLANATION = (
    'The real exporter writes code for symbolically labeled machines; the '
    'generated class runs on symbolic inputs and its outputs and errors '
    'are compared by the solver with the transitions of the machine.')
