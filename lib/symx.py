"""Forking symbolic execution of real Python code with z3.

The code under test runs in CPython, unmodified.  Its inputs are either
proxies (`SymBool`, `SymInt`, `SymReal`) that build z3 terms, or native
objects assembled from *symbolic choices*.  Whenever the code under test
needs the truth value of a proxy, the engine asks z3 which outcomes are
feasible under the current path condition and explores each of them
(depth first, by re-execution).  At the end of a path the harness states
verification conditions: z3 decides whether they hold for every value of
the remaining symbolic variables under the path condition.

A satisfiable negation is turned into native values, and the harness is
run again, on those, without the engine's proxies (`ReplayCtx`), against
the same code.  Only what reproduces there is reported.
"""
import json
import math
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback

import z3


class Infeasible(BaseException):
    """Current path has an unsatisfiable condition."""


class Inconclusive(BaseException):
    """Solver answered `unknown`, or a budget ran out."""


class Violated(BaseException):
    def __init__(self, msg, key, values, detail=None):
        self.msg = msg
        self.key = key
        self.values = values
        self.detail = detail


_CTX = None


def cur():
    return _CTX


# ---------------------------------------------------------------- proxies


def lift(x):
    """z3 term of `x`."""
    if isinstance(x, (SymBool, SymInt, SymReal)):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        n, d = x.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
    if type(x).__module__ == 'numpy':
        return lift(x.item())
    return x


def _is_num(x):
    return (
        isinstance(x, (int, float, SymInt, SymReal)) or
        type(x).__module__ == 'numpy' and getattr(x, 'ndim', 1) == 0)


def mk(t):
    if z3.is_bool(t):
        return SymBool(t)
    if z3.is_int(t):
        return SymInt(t)
    return SymReal(t)


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _CTX.decide(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == lift(o))
        if isinstance(o, int):
            return mk(z3.If(self.t, 1, 0) == o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.t))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return SymBool(z3.And(self.t, lift(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, lift(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, lift(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        if _CTX.opaque_repr:
            return '<symbolic>'
        return repr(bool(self))

    def __add__(self, o):
        return mk(z3.If(self.t, 1, 0)) + o

    __radd__ = __add__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class _SymNum:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        if isinstance(o, SymBool):
            o = mk(z3.If(o.t, 1, 0))
        if not _is_num(o):
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            # symbolic numbers are finite
            r = f(0.0, o)
            if r != r:
                _CTX._inconclusive('product with infinity')
            return r
        a, b = self.t, lift(o)
        if z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
        elif z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        return mk(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return mk(- self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.t >= 0, self.t, - self.t))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return _CTX.decide(self.t != 0)

    def __hash__(self):
        return hash(self.concretize())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def concretize(self):
        return _CTX.concretize(self.t)

    def __repr__(self):
        # log messages print dictionaries of values
        if _CTX.opaque_repr:
            return '<symbolic>'
        return repr(self.concretize())

    def __str__(self):
        if _CTX.opaque_repr == 'all':
            return '<symbolic>'
        return str(self.concretize())

    def __format__(self, spec):
        if _CTX.opaque_repr == 'all':
            return '<symbolic>'
        return format(self.concretize(), spec)


class SymInt(_SymNum):
    __slots__ = ()

    def __int__(self):
        return self.concretize()

    __index__ = __int__

    def __float__(self):
        return float(self.concretize())

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mk(self.t / o)
        return self.concretize() // int(o)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mk(self.t % o)
        return self.concretize() % int(o)

    def __rfloordiv__(self, o):
        return o // self.concretize()

    def __rmod__(self, o):
        return o % self.concretize()


class SymReal(_SymNum):
    __slots__ = ()

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)


# ---------------------------------------------------------------- contexts


class Stats:
    FIELDS = (
        'paths', 'infeasible', 'branch_queries', 'vc', 'aux_queries',
        'nontrivial', 'known')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = dict()
        self.samples = list()
        self.known_keys = dict()

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, v in o.known_keys.items():
            self.known_keys.setdefault(k, v)


def _val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    raise Inconclusive(f'cannot read model value {v}')


class BaseCtx:
    """What harnesses use; both engine and replay implement it."""

    def bit(self, name):
        raise NotImplementedError

    def int(self, name, lo, hi):
        raise NotImplementedError

    def pick(self, name, options):
        """Symbolic choice of an element of a list (decided by forking)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        k = self.int(name, 0, len(options) - 1)
        if isinstance(k, SymInt):
            lo, hi = 0, len(options) - 1
            while lo < hi:
                mid = (lo + hi) // 2
                if self.decide(k.t <= mid):
                    hi = mid
                else:
                    lo = mid + 1
            k = lo
        return options[k]

    def flag(self, name):
        """Symbolic bit, decided immediately by forking."""
        return bool(self.bit(name))

    def subset(self, name, items):
        return [x for i, x in enumerate(items) if self.flag(f'{name}.{i}')]


class SymCtx(BaseCtx):
    replaying = False

    def __init__(self, prefix, stats, timeout_ms, known, frontier_depth=None):
        self.prefix = prefix
        self.pos = 0
        self.trace = list()
        self.pending = list()
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', int(os.environ.get('VERIF_SEED', '1')) % 2**30)
        self.timeout_ms = timeout_ms
        self.vars = dict()
        self.cache = dict()
        self.known = known
        self.notes = list()
        self.frontier_depth = frontier_depth
        self.forks = 0
        self.handover = False
        # raised inside code that may swallow every exception
        self.dead = False
        self.inconclusive = None

    # symbolic inputs
    def _reg(self, name, t):
        if name in self.vars:
            raise RuntimeError(f'duplicate symbolic input {name}')
        self.vars[name] = t
        return t

    def bit(self, name):
        return SymBool(self._reg(name, z3.Bool(name)))

    def int(self, name, lo, hi):
        t = self._reg(name, z3.Int(name))
        self.solver.add(t >= lo, t <= hi)
        return SymInt(t)

    def real(self, name, lo=None, hi=None):
        t = self._reg(name, z3.Real(name))
        if lo is not None:
            self.solver.add(t >= lo)
        if hi is not None:
            self.solver.add(t <= hi)
        return SymReal(t)

    def free(self, t):
        """Register a z3 constant used only in verification conditions."""
        self._reg(str(t), t)
        return t

    def note(self, **kw):
        self.notes.append(kw)

    def label(self, name):
        """Count that a path reached this point (vacuity guard)."""
        self.stats.labels[name] = self.stats.labels.get(name, 0) + 1

    def _infeasible(self):
        self.dead = True
        raise Infeasible()

    def _inconclusive(self, msg):
        self.dead = True
        self.inconclusive = msg
        raise Inconclusive(msg)

    def _check(self, *a):
        if self.dead:
            raise Infeasible()
        t0 = time.perf_counter()
        r = self.solver.check(*a)
        self.stats.solver_s += time.perf_counter() - t0
        return r

    # path steering
    def assume(self, c):
        c = lift(c)
        if c is True:
            return
        self.solver.add(c)
        self.stats.branch_queries += 1
        r = self._check()
        if r == z3.unsat:
            self._infeasible()
        if r != z3.sat:
            self._inconclusive('assume: unknown')

    def decide(self, c, tag=None):
        if self.dead:
            raise Infeasible()
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if tag is None and key in self.cache:
            return self.cache[key][1]
        nc = z3.Not(c)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
            self.trace.append(self.prefix[self.pos])
            self.pos += 1
            self.solver.add(c if v else nc)
        else:
            self.stats.branch_queries += 2
            r1 = self._check(c)
            r0 = self._check(nc)
            if z3.unknown in (r1, r0):
                self._inconclusive('branch: unknown')
            if r1 == z3.unsat and r0 == z3.unsat:
                self._infeasible()
            both = r1 == z3.sat and r0 == z3.sat
            v = r1 == z3.sat
            if both:
                self.pending.append(self.trace + [(tag, False)])
            self.solver.add(c if v else nc)
            self.trace.append((tag, v))
            self.pos += 1
            self.forks += both
            if both and self.frontier_depth is not None and (
                    self.forks >= self.frontier_depth):
                # hand this subtree over to a worker
                self.pending.append(list(self.trace))
                self.handover = True
                self._infeasible()
        self.cache[key] = (c, v)
        return v

    def concretize(self, t):
        """Native value of `t`: forks over its feasible values.

        The candidate is stored with the decision, so that re-execution
        of the prefix tries the same candidates in the same order.
        """
        t = z3.simplify(t)
        while True:
            if z3.is_int_value(t):
                return t.as_long()
            if z3.is_rational_value(t):
                return t.as_fraction()
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][0]
            else:
                self.stats.aux_queries += 1
                r = self._check()
                if r == z3.unsat:
                    self._infeasible()
                if r != z3.sat:
                    self._inconclusive('concretize: unknown')
                v = _val(self.solver.model(), t)
            w = z3.IntVal(v) if z3.is_int(t) else z3.RealVal(str(v))
            if self.decide(t == w, tag=v):
                return v

    # verification conditions
    def check(self, claim, msg, key=None, detail=None, extra=()):
        """Require `claim` for all values of symbolic variables on this path."""
        self.stats.vc += 1
        if isinstance(claim, (bool,)) or type(claim).__name__ == 'bool_':
            if claim:
                return
            neg = z3.BoolVal(True)
        else:
            claim = lift(claim)
            if z3.is_true(claim):
                return
            neg = z3.Not(claim)
            self.stats.nontrivial += 1
        r = self._check(neg, *extra)
        if r == z3.unsat:
            return
        if r != z3.sat:
            self._inconclusive(f'VC unknown: {msg}')
        m = self.solver.model()
        values = {k: _val(m, t) for k, t in self.vars.items()}
        raise Violated(msg, key or msg, values, detail)

    def sat(self, *cs):
        """Is the conjunction satisfiable (own solver, closed query)?"""
        return closed_sat(self.stats, cs, self.timeout_ms)


def closed_sat(stats, cs, timeout_ms=60000):
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*cs)
    t0 = time.perf_counter()
    r = s.check()
    stats.solver_s += time.perf_counter() - t0
    stats.vc += 1
    stats.nontrivial += 1
    if r == z3.unknown:
        raise Inconclusive('closed query: unknown')
    return s.model() if r == z3.sat else None


class ReplayCtx(BaseCtx):
    """Native re-execution with the values of a counterexample."""
    replaying = True

    def __init__(self, values):
        self.values = values
        self.stats = Stats()
        self.notes = list()
        self.failed = None
        self.terms = dict()
        self.timeout_ms = 120000
        self.known = ()

    def bit(self, name):
        return bool(self.values.get(name, False))

    def int(self, name, lo, hi):
        return int(self.values.get(name, lo))

    def real(self, name, lo=None, hi=None):
        return self.values.get(name, 0)

    def free(self, t):
        self.terms[str(t)] = t
        return t

    def note(self, **kw):
        self.notes.append(kw)

    def label(self, name):
        pass

    def assume(self, c):
        if not self._eval(c):
            raise Infeasible()

    def decide(self, c):
        return self._eval(c)

    def _eval(self, c):
        c = lift(c)
        if isinstance(c, bool) or type(c).__name__ == 'bool_':
            return bool(c)
        sub = list()
        for k, t in self.terms.items():
            v = self.values.get(k, 0)
            if z3.is_bool(t):
                w = z3.BoolVal(bool(v))
            elif z3.is_int(t):
                w = z3.IntVal(int(v))
            else:
                w = z3.RealVal(str(v))
            sub.append((t, w))
        c = z3.simplify(z3.substitute(c, *sub))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(z3.Not(c))
        r = s.check()
        if r == z3.unknown:
            raise Inconclusive('replay: unknown')
        return r == z3.unsat

    def check(self, claim, msg, key=None, detail=None, extra=()):
        if not self._eval(claim):
            raise Violated(msg, key or msg, self.values, detail)

    def sat(self, *cs):
        return closed_sat(self.stats, cs)


# ---------------------------------------------------------------- explorer


class Harness:
    """`fn(ctx)`; `labels` that at least one path must reach."""

    def __init__(self, name, fn, labels=(), timeout_ms=60000,
                 opaque_repr=False):
        self.opaque_repr = opaque_repr
        self.name = name
        self.fn = fn
        self.labels = tuple(labels)
        self.timeout_ms = timeout_ms


def _repo_frame(tb):
    for f in traceback.extract_tb(tb):
        if '/repo/tulip/' in f.filename or 'site-packages' in f.filename and (
                '/verif' not in f.filename):
            return True
    return False


def _run_one(h, ctx):
    """Run harness; translate real-code exceptions to violations."""
    global _CTX
    old = _CTX
    _CTX = ctx
    ctx.opaque_repr = h.opaque_repr
    try:
        h.fn(ctx)
    except Exception as e:
        if getattr(ctx, 'dead', False):
            raise Infeasible()
        tb = e.__traceback__
        # text produced by the code under test that is not a formula
        bad_output = getattr(e, 'output_is_wrong', False)
        if not bad_output and not _repo_frame(tb):
            raise
        where = [
            f'{f.filename.replace("/repo/", "")}:{f.lineno}:{f.name}'
            for f in traceback.extract_tb(tb)][-3:]
        if ctx.replaying:
            values = ctx.values
        else:
            r = ctx._check()
            if r != z3.sat:
                raise Inconclusive('exception path: no model')
            m = ctx.solver.model()
            values = {k: _val(m, t) for k, t in ctx.vars.items()}
        raise Violated(
            f'raised {type(e).__name__}: {e}',
            f'raise:{type(e).__name__}', values,
            dict(where=where))
    finally:
        _CTX = old


def _explore(h, prefixes, stats, known, max_viol, deadline,
             grow_to=None, slice_end=None):
    """Explore the subtrees of the given prefixes, depth first.

    With `grow_to`, breadth first, returning the open prefixes
    as soon as there are that many.
    """
    viol = list()
    todo = list(prefixes)
    n = 0
    while todo:
        n += 1
        if grow_to is None and n == 3:
            # calls are counted along the first paths only
            sys.setprofile(None)
        if grow_to is not None and len(todo) >= grow_to:
            break
        if slice_end is not None and time.time() > slice_end:
            break
        if time.time() > deadline:
            raise Inconclusive('time budget ran out')
        prefix = todo.pop(0 if grow_to is not None else -1)
        ctx = SymCtx(
            prefix, stats, h.timeout_ms, known,
            None if grow_to is None else 1)
        done = True
        try:
            _run_one(h, ctx)
            done = not ctx.dead
        except Infeasible:
            done = False
        except Violated as v:
            if ctx.inconclusive:
                raise Inconclusive(ctx.inconclusive)
            if ctx.dead:
                stats.infeasible += not ctx.handover
                todo.extend(ctx.pending)
                continue
            if v.key in known:
                if v.key in stats.known_keys:
                    stats.known += 1
                    todo.extend(ctx.pending)
                    continue
                stats.known_keys[v.key] = v.values
            viol.append((h.name, v.msg, v.key, v.values, v.detail, ctx.notes))
            if sum(v[2] not in known for v in viol) >= max_viol:
                return viol, todo
        if ctx.inconclusive:
            raise Inconclusive(ctx.inconclusive)
        todo.extend(ctx.pending)
        if ctx.handover:
            continue
        if done:
            stats.paths += 1
            if len(stats.samples) < 3 and ctx.notes:
                stats.samples.append(dict(
                    harness=h.name, notes=ctx.notes[-1]))
        else:
            stats.infeasible += 1
    return viol, todo


_HS = None
_PROFILE = None


def _unit(args):
    """Explore subtrees; hand back what is left after a slice of time.

    The first unit of a harness (`grow_to`) opens up its tree.
    """
    i, prefixes, known, max_viol, deadline, grow_to, slice_s = args
    stats = Stats()
    calls = dict()
    try:
        if _PROFILE is not None:
            sys.setprofile(_PROFILE(calls))
        viol, left = _explore(
            _HS[i], prefixes, stats, known, max_viol, deadline,
            grow_to=grow_to,
            slice_end=None if slice_s is None else time.time() + slice_s)
        return ('ok', i, stats, (viol, left), calls)
    except Inconclusive as e:
        return ('inconclusive', i, stats, f'{_HS[i].name}: {e}', calls)
    except Infeasible:
        return ('error', i, stats, 'Infeasible escaped', calls)
    except Exception:
        return ('error', i, stats, traceback.format_exc(), calls)
    finally:
        sys.setprofile(None)


def explore(harnesses, known=(), nproc=None, budget_s=800, max_viol=3,
            grow_to=60, profile=None, seen=None):
    """Explore all harnesses.

    @param profile: function that returns a profiler, which counts
        called functions in the given dict
    @param seen: dict where these counts are added
    @return: `(stats_by_harness, violations, errors)`
    """
    global _HS, _PROFILE
    _HS = harnesses
    _PROFILE = profile
    nproc = nproc or min(8, os.cpu_count() or 1)
    deadline = time.time() + budget_s
    per = {h.name: Stats() for h in harnesses}
    viols, errors = list(), list()
    results = queue.SimpleQueue()
    pool = mp.get_context('fork').Pool(nproc) if nproc > 1 else None
    todo = list()
    active = 0

    def submit(i, prefixes, grow, slice_s):
        nonlocal active
        args = (i, prefixes, known, max_viol, deadline, grow, slice_s)
        active += 1
        if pool is None:
            todo.append(args)
            return
        pool.apply_async(
            _unit, (args,), callback=results.put,
            error_callback=lambda e: results.put(
                ('error', i, Stats(), repr(e), dict())))
    for i in range(len(harnesses)):
        submit(i, [[]], grow_to, 4)
    while active:
        if pool is None:
            r = _unit(todo.pop(0))
        else:
            try:
                r = results.get(timeout=max(1, deadline + 90 - time.time()))
            except queue.Empty:
                errors.append('time budget ran out (no answer)')
                break
        active -= 1
        kind, i, stats, out, calls = r
        per[harnesses[i].name].merge(stats)
        for k, n in calls.items():
            if seen is not None:
                seen[k] = seen.get(k, 0) + n
        if kind != 'ok':
            errors.append(f'{harnesses[i].name}: {kind}: {out}')
            continue
        v, left = out
        viols.extend(v)
        if sum(x[2] not in known for x in viols) > 12:
            break
        if sum(x[2] not in known for x in v) >= max_viol:
            continue
        # the oldest are the largest subtrees
        for p in left:
            submit(i, [p], None, 1.5)
    if pool is not None:
        pool.terminate()
        pool.join()
    return per, viols, errors
