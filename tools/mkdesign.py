"""Write DESIGN.md: text below, and facts from checks, findings, seeds."""
import ast
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
props = [json.loads(x) for x in open('properties.jsonl')]
manifest = json.load(open('MANIFEST.json'))
findings = json.load(open('known_findings.json'))
na = {d['property']: d['reason'] for d in manifest['not_applicable']}

HEAD = '''# Design

Generated by `tools/mkdesign.py`, from text in that file, the checks,
`known_findings.json`, and `seeded/`.

## Approach

TuLiP is Python, so the real code is executed symbolically **by Python
itself**: `lib/symx.py` is an engine for symbolic execution by proxies and
re-execution (as in "peer architecture" symbolic execution). A check is a
module `checks/cNN.py` with harnesses. A harness is a function of a context
`ctx` from which it draws symbolic inputs: Booleans, integers in ranges,
reals, choices from a menu (a symbolic integer that indexes the menu). It
calls the public interface of `tulip`, imported from `/repo`, with these
values. `SymInt`, `SymReal`, `SymBool` carry z3 terms through the code.
Whenever the code branches on a symbolic value (`__bool__`), or needs a
native value (`__index__`, `__hash__`), the engine asks z3 which outcomes are
feasible under the path condition, takes one, and schedules the other:
all feasible paths get explored, each exactly once, by re-execution with the
recorded decisions (8 processes share the tree). Nothing is sampled: when the
time budget runs out before the tree is exhausted, or z3 answers `unknown`,
the check ends with an error (exit 2), never with "held".

At the end of a path the property is an assertion over the symbolic values
(`ctx.check`): z3 proves `path condition => claim`, or gives a counterexample.
Larger claims are closed queries (`ctx.sat`), e.g. "no lasso satisfies one
formula and not the other", where the lasso is entirely symbolic.

Every run imports the current tree of `/repo`; nothing about the code is
cached or modeled in advance. There is no separate encoding that could go
stale: the encoding *is* the execution. Evidence lists the functions of tulip
that were executed symbolically (`functions_encoded`), numbers of paths,
branch queries, verification conditions, and solver time.

**Counterexamples** are values of the symbolic inputs. `run.py` first runs the
harness natively with these values in a fresh process (`ReplayCtx`: no proxies,
no stubs wherever possible), and reports a VIOLATION only if the claim fails
(or the same exception is raised) there too. A counterexample that does not
reproduce is an error of the check (exit 2). `./run.sh --replay FILE`
re-runs it.

**Vacuity**: each harness lists labels that some path must reach; a harness
that no longer reaches one of them is an error.

**Exceptions**: an exception from tulip (or from a package that it calls) on
a path is a violation, unless the harness expects it.

**Known findings** have stable keys; a violation with a listed key is printed
as KNOWN-FINDING and does not hide others: the main harnesses exclude the
input that triggers it, and a separate harness `findings` contains it.

## Reference semantics (oracles)

- `lib/ltl.py`: own lexer, parsers (TuLiP syntax, gr1c, slugs, JTLV, Promela,
  SMV, Wring, python), and evaluation of LTL over symbolic lassos (positions
  with symbolic values, symbolic loop), as z3 formulas.
- own definitions of games, machines, products, bisimulation, motions in
  grids, affine dynamics, Markov chains in the checks, written from the
  documentation, not from the code.

## What bounds mean here

Each property is decided within stated bounds (below, and in `evidence/`).
Structure (numbers of states, shapes of graphs) is enumerated by forking on
symbolic Booleans, so each path has concrete structure and symbolic contents
(values of variables, costs, probabilities, labels, continuous states, whole
infinite behaviors); data are decided by the solver. Where matrices are
concrete menus (C20, C21: the code calls numerical libraries), states, inputs
and disturbances remain symbolic reals.

## Limits of the method in this repository

- C extensions (`polytope` through `cvxopt`/`scipy`, `omega`/`dd`, `gr1py`,
  `stormpy`) can not be executed symbolically: they run on concrete data, or
  are replaced by stand-ins that return arbitrary symbolic answers within
  their contract (stated for each check under assumptions).
- External programs (gr1c, slugs, lily, ltl2ba) are not installed: stand-ins
  record how they are called and print arbitrary answers in their format.
- Printing, plotting, animation, and logging are outside (other than exported
  text, C10, C18, C19, C22-C24).
- `tulip/transys/algorithms.py` is disabled legacy code (raises errors when
  called), and is outside.

## Defects, repaired and recorded

`vcheck` treats paths that contain a directory `spec` as tests, so commits may
not touch `tulip/spec/`: defects there are recorded as known findings.
All other defects found were repaired in `/repo` by commits `fix: ...`
(%(fixed)d entries below).

## False alarms corrected on the way

- C12: a Buechi guard `{True}` is documented as "any letter".
- C14, C15: rounding of floats is outside; costs are exact, and plans end when
  the goal is first reached with accepting rules, which the first version of
  C15 did not state.
- C17: unlabeled transitions match every searched label, as documented.
- C08: gr1py and omega crash or misjudge when the assumptions can block the
  environment (their limits, not those of tulip); such specifications are
  outside for these solvers. `plus_one` assumptions about next values of the
  system are outside for gr1py.
- C20: a disturbance set with empty interior that is not empty is ignored by
  the code; the property was restricted to sets with interior.
- C21: conservative `get_input` with N > 1 may find no trajectory although the
  transition exists (documented as conservative): allowed.
- C23: Storm numbers the initial state first; a stub that did not was wrong.
- C07, C13, C18: set and dictionary orders: comparisons in checks are
  independent of order.

## Refactorings

Checks call the public interface and compare results up to order and naming
wherever the documentation does not fix them. Stand-ins replace names of
imported modules inside the module under test (`numpy` in
`tulip.abstract.feasible`, `stormpy`, `subprocess`, `random`, `json`, solvers),
only those listed under assumptions; a refactoring that moves such an import
elsewhere would end in an error, not in an alarm.

## Cost

Quick checks take 3-90 s each on 8 cores; thorough checks up to 14 minutes.

'''

SEEDS = '''## Planted bugs

Each is in `seeded/<id>/` with a demonstration. All of them keep the stable
tests passing. Column "caught": the check of the property reports a VIOLATION
(quick tier).

| planted bug | what it breaks | needs | caught by |
| --- | --- | --- | --- |
'''


def attr(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(
                n.targets[0], 'id', '') == name:
            v = n.value
            if isinstance(v, ast.Call):
                return {k.arg: ast.literal_eval(k.value) for k in v.keywords}
            return ast.literal_eval(v)


out = [HEAD % dict(fixed=len(findings['fixed']))]
out.append('## Properties\n')
for p in props:
    i = p['id']
    out.append(f'### {i} {p["title"]}\n')
    out.append(p['statement'] + '\n')
    if i in na:
        out.append(f'**Not applicable**: {na[i]}\n')
        continue
    t = ast.parse(open(f'checks/{i.lower()}.py').read())
    out.append('- **Why tests cannot**: ' + p['why_tests_cant'])
    out.append('- **Code**: ' + '; '.join(
        m['where'] for m in p['anchors']['mechanism']))
    out.append('- **Method**: ' + attr(t, 'EXPLANATION'))
    b = attr(t, 'BOUNDS')
    out.append('- **Bounds (quick)**: ' + b['quick'])
    out.append('- **Bounds (thorough)**: ' + b['thorough'])
    out.append('- **Outside**: ' + attr(t, 'OUTSIDE'))
    for a in attr(t, 'ASSUMPTIONS'):
        out.append('- **Assumption**: ' + a)
    for d in findings['known']:
        if d['property'] == i:
            out.append(f'- **Known finding** `{d["key"]}`: {d["what"]}')
    for d in findings['fixed']:
        _, q, commit, what = d.split(' ', 3)
        if q == f'property={i}':
            out.append(f'- **Fixed** in {commit}: {what}')
    out.append('')
out.append(SEEDS.rstrip('\n'))
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    out.append(f'| {name} | {d["what_it_breaks"]} | {d["needs"]} | '
               f'{d.get("caught_by", d["property"])} |')
with open('DESIGN.md', 'w') as f:
    f.write('\n'.join(out) + '\n')
