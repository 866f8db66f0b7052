#!/usr/bin/env python3
"""refrun.py [IDS...]: behaviour-preserving rewrites of tools/refactors/specs.py;
prints whether the proofs still go through (in a scratch copy)"""
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); g = {}
exec(open(f'{H}/refactors/specs.py').read(), g)
def one(t):
    i, prop, edits = t
    d = tempfile.mkdtemp(prefix='rf-', dir='/tmp')
    try:
        shutil.copytree('/repo/jschon', d + '/jschon')
        for f, a, b in edits:
            s = open(f'{d}/{f}').read(); assert a in s, (i, f, a); open(f'{d}/{f}', 'w').write(s.replace(a, b, 1))
        r = subprocess.run([shutil.which('python3-vt'), f'{H}/proofonly.py', prop], env=dict(os.environ, PYVC_REPO=d, VERIF_REPO=d), capture_output=True, text=True)
        return i, prop, (r.stdout.strip().split('\n') or ['?'])[-1][:260] or r.stderr[-300:]
    finally: shutil.rmtree(d)
jobs = [(i, p, e) for i, ps, e in g['R'] for p in ps if not sys.argv[1:] or i in sys.argv[1:]]
with ThreadPoolExecutor(int(os.environ.get('REF_J', 7))) as ex:
    for r in ex.map(one, jobs): print(*r, flush=True)
