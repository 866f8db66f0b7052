"""proofonly.py PROP [name part]: the proof alone, one process per scenario
(as check.py runs them), stopping at the first obligation not discharged."""
import sys, os, time, importlib, json, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
prop = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ''
from pyvc import core
sys.setrecursionlimit(20000)

def run(name, f, b):
    r, w = os.pipe(); pid = os.fork()
    if not pid:
        try:
            core.VACUITY = {}
            obls, n = core.explore(f, f'{prop}/{name}', time.time() + b)
            bad = [o for o in obls if o.status != 'discharged']
            msg = f'{bad[0].name} {bad[0].status}' if bad else '' if core.VACUITY.get('ok') else f'{name}: vacuous'
        except BaseException as e:
            msg = f'{name}: {type(e).__name__} {str(e)[:300]}'
        os.write(w, msg.encode()[:4000]); os._exit(0)
    os.close(w); out = b''
    while (x := os.read(r, 4096)): out += x
    os.close(r); os.waitpid(pid, 0)
    return out.decode(errors='replace')

try:
    from contracts import env
    for m, ps in json.load(open(HERE + '/contracts/modules.json')).items():
        if prop in ps: importlib.import_module('contracts.' + m)
except BaseException as e:
    print('KILLED contracts', type(e).__name__, e); sys.exit()
for name, f, fns, b in env.SCENARIOS[prop]:
    if pat and pat not in name: continue
    bad = run(name, f, b)
    if bad: print('KILLED', bad); sys.exit()
print('PROVED')
