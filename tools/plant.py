"""Plant a bug: python3 plant.py SPECFILE

SPECFILE: python defining id, prop, file(s), edits [(file, old, new)], demo (python text),
needs, breaks. Creates seeded/<id>, confirms in a scratch copy, and runs the check.
"""
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
# tree to plant in, its tests, and how to run a check against it
REPO = os.environ.get('PLANT_REPO', '/tmp/w/repo')
TESTS = os.environ.get('PLANT_TESTS', 'bash /tmp/tstw.sh').split()
CHECK = os.environ.get('PLANT_CHECK', '/tmp/vw.sh')
exec(open(sys.argv[1]).read(), ns)
skip_tests = '--fast' in sys.argv
for b in ns['BUGS']:
    only = [a for a in sys.argv[2:] if not a.startswith('--')]
    if only and b['id'] not in only:
        continue
    d = os.path.join(here, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='plant')
    repo = os.path.join(w, 'repo')
    subprocess.check_call(['git', '-C', REPO, 'diff', '--quiet'])
    subprocess.check_call(['cp', '-a', REPO, repo])
    for f, old, new in b['edits']:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/sh\nhere=$(cd "$(dirname "$0")" && pwd)\n'
        'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
        'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'meta.json'), 'a').write('\n')
    shutil.rmtree(w)
    def demo():
        r = subprocess.run([os.path.join(d, 'demo.sh')], cwd=REPO, capture_output=True, text=True)
        return r.returncode, r.stderr.strip().splitlines()[-1:]
    ok = demo()
    subprocess.check_call(['git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff')])
    try:
        bad = demo()
        tests = 'skipped' if skip_tests else subprocess.run(TESTS, capture_output=True, text=True).stdout.strip().splitlines()[-1:]
        r = subprocess.run([CHECK, b['prop']], capture_output=True, text=True, cwd=here)
        viol = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    finally:
        subprocess.check_call(['git', '-C', REPO, 'checkout', '--', '.'])
    print(b['id'], '| demo clean', ok[0], '| demo bug', bad, '| tests', tests, '| check rc', r.returncode, viol[:1], r.stdout.strip().splitlines()[-1:] if not viol else '', flush=True)
    if ok[0] or not bad[0]:
        print('   DEMO WRONG', ok, bad)
