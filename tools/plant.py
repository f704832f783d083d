#!/usr/bin/env python3
"""plant.py <id> : verify a planted bug in a scratch copy of /repo (patch applies, builds, stable tests pass, demo 0 / nonzero)

development tool only; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'seeded', sys.argv[1])
tests = '--notests' not in sys.argv
w = tempfile.mkdtemp(prefix='plant_')
try:
    repo = os.path.join(w, 'repo')
    shutil.copytree('/repo', repo, symlinks=True)
    dd = os.path.join(w, 'd')
    shutil.copytree(D, dd)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo, PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    env.pop('PYTHONPATH')

    def demo():
        p = subprocess.run(['bash', os.path.join(dd, 'demo.sh')], cwd=repo, env=env, capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-400:]
    a = demo()
    subprocess.run(['git', 'apply', os.path.join(D, 'patch.diff')], cwd=repo, check=True)
    b = demo()
    print('demo unchanged', a[0], a[1].strip()[-150:])
    print('demo patched  ', b[0], b[1].strip()[-250:])
    ok = a[0] == 0 and b[0] != 0
    if tests:
        out = os.path.join(w, 'junit.xml')
        e2 = dict(env, PYTHONPATH=repo)
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=120', '-W', 'ignore',
                        '-o', 'junit_family=xunit2', '--junitxml=' + out, 'tests'], cwd=repo, env=e2, capture_output=True)
        res = os.path.join(w, 'r.json')
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', res, 'junit:' + out], check=True, capture_output=True)
        r = json.load(open(res))
        base = json.load(open('/opt/vp/BASELINE.json'))
        passed = set(r['passed'])
        st = base.get('stable') or base.get('passed')
        miss = [x for x in st if x not in passed]
        print('stable tests failing:', len(miss), miss[:4])
        ok = ok and not miss
    print('VALID' if ok else 'INVALID')
finally:
    shutil.rmtree(w)
