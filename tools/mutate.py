"""Self-test of the verifier: small mutations of one source file of the code
under test (in a scratch copy); prints which survive the proof.
MUT_REPLAY=<seconds> runs the bounded search first and lists what only the proof finds.
usage: mutate.py PROP FILE [start line [end line]]   (relative to /repo)"""
import ast, sys, os, shutil, subprocess, tempfile, copy, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, file = sys.argv[1], sys.argv[2]
lo = int(sys.argv[3]) if len(sys.argv) > 3 else 1
hi = int(sys.argv[4]) if len(sys.argv) > 4 else 10**6
src = open('/repo/' + file).read()
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
def muts(tree):
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or not (lo <= n.lineno <= hi): continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            for c in CMP[type(n.ops[0])]:
                old = n.ops[0]; n.ops[0] = c(); yield n.lineno, f'{type(old).__name__}->{c.__name__}'; n.ops[0] = old
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            n.value = not n.value; yield n.lineno, f'const {n.value}'; n.value = not n.value
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            n.value += 1; yield n.lineno, f'const {n.value}'; n.value -= 1
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            old = n.op; n.op = ast.Sub() if isinstance(old, ast.Add) else ast.Add(); yield n.lineno, 'add/sub'; n.op = old
        if isinstance(n, ast.BoolOp):
            old = n.op; n.op = ast.And() if isinstance(old, ast.Or) else ast.Or(); yield n.lineno, 'and/or'; n.op = old
            vs = n.values
            for i in range(len(vs)):
                n.values = vs[:i] + vs[i+1:]
                if len(n.values) == 1: n.values = n.values * 2
                yield n.lineno, f'drop operand {i}'
            n.values = vs
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            n.op = ast.UAdd(); 
            yield n.lineno, 'drop not'; n.op = ast.Not()
        if isinstance(n, ast.If):
            t = n.test; n.test = ast.UnaryOp(ast.Not(), t); ast.fix_missing_locations(n); yield n.lineno, 'negate if'; n.test = t
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.Module):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.For, ast.If, ast.Delete, ast.Continue, ast.Break)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        b[i] = ast.Pass(lineno=s.lineno, col_offset=0); yield s.lineno, f'delete {ast.unparse(s)[:60]!r}'; b[i] = s
tree = ast.parse(src)
out = []
for line, what in muts(tree):
    out.append((line, what, ast.unparse(tree).replace('(+', '(not not ')))
tmp = tempfile.mkdtemp(prefix='mut', dir='/tmp')
def one(j):
    line, what, code = j
    d = tempfile.mkdtemp(dir=tmp)
    shutil.copytree('/repo/jschon', d + '/jschon')
    open(os.path.join(d, file), 'w').write(code)
    try:
        compile(code, 'x', 'exec')
    except SyntaxError:
        return line, what, 'syntax'
    if b := os.environ.get('MUT_REPLAY'):       # the bounded search first
        for seed in ('1', '2'):
            try: rc = subprocess.run(['timeout', '90', '/opt/venv/bin/python', '-m', 'replay.run', prop, '--budget', b, '--seed', seed, '--n0', seed], cwd=HERE, env=dict(os.environ, VERIF_REPO=d, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1'), capture_output=True).returncode
            except Exception: rc = 1
            if rc: shutil.rmtree(d); return line, what, 'KILLED by the search'
    r = subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'proofonly.py'), prop], env=dict(os.environ, PYVC_REPO=d, VERIF_REPO=d), capture_output=True, text=True)
    shutil.rmtree(d)
    return line, what, (r.stdout.strip().split('\n') or ['?'])[-1][:200]
from concurrent.futures import ThreadPoolExecutor
try:
    with ThreadPoolExecutor(int(os.environ.get('MUT_J', 6))) as ex:
        surv = 0
        for line, what, r in ex.map(one, out):
            if r.startswith('PROVED'): surv += 1; print('SURVIVED', line, what, flush=True)
            elif os.environ.get('MUT_REPLAY') and not r.startswith('KILLED by the search') and r != 'syntax': print('PROOF-ONLY', line, what, r[:110], flush=True)
            elif '-v' in sys.argv: print('killed', line, what, r[:140])
    print(len(out), 'mutants', surv, 'survived the proof')
finally:
    shutil.rmtree(tmp)
