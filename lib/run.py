"""Run the check of one property, or replay a counterexample.

run.py C01              tier from $VERIF_TIER (quick | thorough)
run.py --replay FILE    exit 1 if the counterexample reproduces natively
"""
import collections
import fractions
import importlib
import json
import logging
import os
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.path.insert(0, REPO)
# z3 comes from the verification tools; everything else from the venv
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

import symx

OUT = None


def say(s):
    OUT.write(s + '\n')
    OUT.flush()


def _quiet():
    """Keep the code under test from writing to our stdout."""
    global OUT
    OUT = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def _enc(v):
    if isinstance(v, fractions.Fraction):
        return {'frac': str(v)}
    return v


def _dec(v):
    if isinstance(v, dict) and 'frac' in v:
        f = fractions.Fraction(v['frac'])
        return int(f) if f.denominator == 1 else f
    return v


def load(prop, tier):
    import tulip
    assert os.path.realpath(tulip.__file__).startswith(REPO), tulip.__file__
    mod = importlib.import_module(prop.lower())
    return mod, mod.harnesses(tier)


def known_findings(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return list()
    with open(path) as f:
        entries = json.load(f)['known']
    return [e for e in entries if e['property'] == prop]


def replay(path):
    _quiet()
    with open(path) as f:
        d = json.load(f)
    os.chdir(tempfile.mkdtemp(prefix='verif-replay-'))
    mod, hs = load(d['property'], d['tier'])
    h = {h.name: h for h in hs}[d['harness']]
    values = {k: _dec(v) for k, v in d['values'].items()}
    ctx = symx.ReplayCtx(values)
    try:
        symx._run_one(h, ctx)
    except symx.Violated as v:
        say(f'REPRODUCED {d["property"]} {h.name}: {v.msg}')
        for n in ctx.notes:
            say(f'  {n}')
        if v.detail:
            say(f'  {v.detail}')
        say(f'KEY {v.key}')
        return 1
    except symx.Infeasible:
        say('NOT REPRODUCED: assumption fails natively')
        return 0
    except symx.Inconclusive as e:
        say(f'INCONCLUSIVE {e}')
        return 3
    say('NOT REPRODUCED')
    return 0


def main(prop):
    _quiet()
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.chdir(scratch)
    known = known_findings(prop)
    try:
        mod, hs = load(prop, tier)
    except Exception:
        say('ERROR: cannot load:\n' + traceback.format_exc())
        return 2
    # functions of the real code that run (measured while growing the
    # exploration frontier)
    seen = collections.Counter()

    def profile(calls):
        def prof(frame, event, arg):
            if event == 'call':
                c = frame.f_code
                if '/repo/tulip/' in c.co_filename:
                    k = (c.co_filename[len(REPO) + 1:], c.co_qualname)
                    calls[k] = calls.get(k, 0) + 1
        return prof
    only = os.environ.get('VERIF_ONLY')
    if only:
        hs = [h for h in hs if h.name in only.split(',')]
    budget = getattr(mod, 'BUDGET', {'quick': 600, 'thorough': 840})[tier]
    budget = int(os.environ.get('VERIF_BUDGET', budget))
    per, viols, errors = symx.explore(
        hs, budget_s=budget,
        known=tuple(e['key'] for e in known),
        profile=profile, seen=seen)
    total = symx.Stats()
    for st in per.values():
        total.merge(st)
    n_viol = 0
    nonrepro = list()
    done_keys = set()
    known_hit = dict()
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for name, msg, key, values, detail, notes in viols:
        k = (name, key)
        if k in done_keys:
            continue
        done_keys.add(k)
        if n_viol >= 5:
            break
        fname = os.path.join(rdir, f'{prop}-{n_viol + len(nonrepro)}.json')
        with open(fname, 'w') as f:
            json.dump(dict(
                property=prop, harness=name, tier=tier, message=msg, key=key,
                values={a: _enc(b) for a, b in values.items()},
                detail=repr(detail), notes=[repr(n) for n in notes]),
                f, indent=1)
        r = subprocess.run(
            [os.path.join(ROOT, 'run.sh'), '--replay', fname],
            capture_output=True, text=True, timeout=600)
        if r.returncode != 1:
            nonrepro.append((name, msg, r.stdout[-2000:], r.stderr[-2000:]))
            continue
        hit = [e for e in known if e['key'] == key]
        if hit:
            known_hit[key] = hit[0]
            continue
        n_viol += 1
        say(f'  {name}: {msg}\n' + r.stdout)
        say(f'VIOLATION property={prop} replay={fname}')
    for key in total.known_keys:
        for e in known:
            if e['key'] == key:
                known_hit[key] = e
    for e in known_hit.values():
        say(f'KNOWN-FINDING: property={prop} {e["what"]}')
    # vacuity guard: labels that some path must reach
    for h in hs:
        for lb in h.labels:
            if not per[h.name].labels.get(lb) and not errors and not viols:
                errors.append(f'{h.name}: no path reached "{lb}"')
        if not per[h.name].paths and not errors and not viols:
            errors.append(f'{h.name}: no feasible path')
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation=(
                'Solver-based checking: symbolic execution of the real code '
                'in /repo with z3; every branch on symbolic input and every '
                'final assertion is decided by z3, within the bounds below. '
                + getattr(mod, 'EXPLANATION', '')),
            evaluations=total.paths,
            distinct_nontrivial=total.nontrivial,
            rule=('evaluations: feasible paths of the real code that were '
                  'executed to the end; distinct_nontrivial: verification '
                  'conditions that needed the solver (not already closed '
                  'terms); paths differ in their branch decisions'),
            samples=[repr(s) for s in total.samples] or
                [f'{h.name}: paths {per[h.name].paths}' for h in hs],
            bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict)
                else mod.BOUNDS,
            outside=getattr(mod, 'OUTSIDE', ''),
            infeasible_paths=total.infeasible,
            branch_queries=total.branch_queries,
            concretization_queries=total.aux_queries,
            verification_conditions=total.vc,
            solver_s=round(total.solver_s, 3),
            solver='z3 ' + __import__('z3').get_version_string(),
            per_harness={
                n: dict(paths=s.paths, infeasible=s.infeasible, vc=s.vc,
                        solver_vc=s.nontrivial, solver_s=round(s.solver_s, 3),
                        reached=s.labels)
                for n, s in per.items()},
            functions_encoded=sorted(
                f'{a}:{b}' for a, b in seen),
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=n_viol)
    edir = os.path.join(ROOT, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    subprocess.run(['/bin/rm', '-rf', scratch])
    for e, k in collections.Counter(errors).items():
        say(f'ERROR: {e}' + (f' ({k} times)' if k > 1 else ''))
    for n in nonrepro:
        say(f'ERROR: counterexample does not reproduce: {n}')
    say(f'{prop} {tier}: paths {total.paths}, VCs {total.vc} '
        f'({total.nontrivial} by solver), solver {total.solver_s:.1f} s, '
        f'wall {wall:.1f} s, violations {n_viol}')
    if n_viol:
        return 1
    if errors or nonrepro:
        return 2
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        rc = replay(sys.argv[2])
    else:
        rc = main(sys.argv[1])
    OUT.flush()
    os._exit(rc)
