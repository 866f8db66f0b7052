#!/usr/bin/env python3
"""mkseed.py SPEC.py... : make /verif/seeded/<id>/ from a spec: PROPERTY, NEEDS,
BREAKS, EDITS=[(file, old, new)], DEMO (python text; mini.py lies beside).
Keeps it only if tests pass with the patch and the demo tells the trees apart."""
import sys, os, subprocess, shutil, json, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
BASE = json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def one(spec):
    g = {}; exec(open(spec).read(), g)
    sid = os.path.basename(spec)[:-3]
    d = os.path.join(V, 'seeded', sid)
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    sh(f'cp -a /repo {w}/r'); r = f'{w}/r'
    try:
        for f, old, new in g['EDITS']:
            p = os.path.join(r, f); s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'git -C {r} diff').stdout
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(g['DEMO'].lstrip('\n'))
        shutil.copy(f'{HERE}/seedlib/mini.py', f'{d}/mini.py')
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nPY=python3; [ -x /opt/venv/bin/python ] && PY=/opt/venv/bin/python\nPYTHONPATH="$PWD:$D" PYTHONDONTWRITEBYTECODE=1 exec $PY "$D/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
        a = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300); b = sh(f'bash {d}/demo.sh', cwd=r, timeout=300)
        ok = a.returncode == 0 and b.returncode != 0
        if not ok: print(sid, 'DEMO', a.returncode, b.returncode, a.stderr[-800:], b.stdout[-300:]); shutil.rmtree(d); return False
        t = sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_hypothesis --noconftest --hypothesis-seed=0 --benchmark-disable --timeout=120 -o junit_family=xunit2 --junitxml={w}/j.xml tests/test_json.py tests/test_jsonpatch.py tests/test_jsonpointer.py tests/test_uri.py tests/test_catalog.py tests/test_benchmarks.py; /usr/bin/python3 /opt/vp/results.py {w}/o.json junit:{w}/j.xml', cwd=r,
               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=f'{r}:/opt/vp/pytest_plugins'))
        o = json.load(open(f'{w}/o.json')); bad = [x for x in BASE['stable'] if x not in o.get('passed', [])] if 'passed' in o else [x for x in BASE['stable'] if o.get(x) != 'passed']
        if bad: print(sid, 'TESTS FAIL', bad[:3]); shutil.rmtree(d); return False
        print(sid, 'ok; demo says:', (b.stderr or b.stdout).strip().splitlines()[-1:])
        return True
    finally:
        shutil.rmtree(w)
for s in sys.argv[1:]: one(s)
