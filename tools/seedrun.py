#!/usr/bin/env python3
"""seedrun.py [IDS...]: run each seeded bug's check against a scratch copy"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(f'{V}/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'; p = json.load(open(f'{d}/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='sr-', dir='/tmp')
    try:
        subprocess.run(f'cp -a /repo {w}/r && git -C {w}/r apply {d}/patch.diff', shell=True, check=True)
        q = subprocess.run([f'{V}/check.py', p], capture_output=True, text=True, env=dict(os.environ, PYVC_REPO=f'{w}/r', VERIF_REPO=f'{w}/r'))
        print(i, p, 'rc', q.returncode, '|', (q.stdout.strip().splitlines() or [q.stderr[-300:]])[-1][:160], '|', [l.strip()[:110] for l in q.stdout.splitlines() if 'not discharged' in l or 'undecided:' in l][:2], flush=True)
    finally: shutil.rmtree(w)
