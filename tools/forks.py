"""Where does a harness fork?  forks.py C09 reaction [paths]"""
import collections, os, sys, traceback
sys.argv = sys.argv
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + '/lib')
import run, symx
mod, hs = run.load(sys.argv[1], os.environ.get('VERIF_TIER', 'quick'))
h = {h.name: h for h in hs}[sys.argv[2]]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 300
where = collections.Counter()
old = symx.SymCtx.decide
def decide(self, c, tag=None):
    k = self.forks
    r = old(self, c, tag)
    if self.forks > k:
        st = [f'{f.filename.split("/")[-1]}:{f.lineno}' for f in traceback.extract_stack()[:-1] if 'symx' not in f.filename][-2:]
        where[' > '.join(st)] += 1
    return r
symx.SymCtx.decide = decide
todo = [[]]; st = symx.Stats()
import io
while todo and n:
    n -= 1
    ctx = symx.SymCtx(todo.pop(), st, 60000, ())
    try: symx._run_one(h, ctx)
    except symx.Infeasible: pass
    except symx.Violated as v: print(v.msg)
    todo.extend(ctx.pending)
for k, v in where.most_common(15): print(v, k)
