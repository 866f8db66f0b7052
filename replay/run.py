"""Replay driver: python -m replay.run PROP --budget S --seed N --out FILE
        or: python -m replay.run PROP --case FILE"""
import sys, os, json, time, signal, importlib, argparse, traceback, tempfile, shutil
from . import common

MODULES = json.load(open(os.path.join(common.HERE, 'replay', 'modules.json')))

SKIPPED = []
class Timeout(BaseException): pass
def _alarm(*a): raise Timeout()

def run_case(mod, prop, case, limit=20):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.check(prop, json.loads(json.dumps(case)) if not getattr(mod, 'RAW', False) else case)
    except Timeout:
        return f'does not terminate within {limit} s'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(os.path.join(common.REPO, 'jschon')) for f in tb) and tb[-1].filename.startswith(os.path.join(common.HERE, 'replay')) \
                and not isinstance(e, (AttributeError, TypeError, ImportError)):
            SKIPPED.append(f'{type(e).__name__}: {e}')      # outside the reference oracle's domain
            return None
        if isinstance(e, RecursionError): return 'RecursionError'
        return f'unexpected {type(e).__name__}: {e} [{tb[-1].filename}:{tb[-1].lineno}]'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop'); a.add_argument('--budget', type=float, default=10); a.add_argument('--seed', default='1')
    a.add_argument('--out'); a.add_argument('--case'); a.add_argument('--n0', type=int, default=0)
    o = a.parse_args()
    t0 = time.time()
    n = 0; fails = []; nontriv = 0
    res = dict(prop=o.prop, runs=0, failures=[], modules=MODULES[o.prop])
    for mname in MODULES[o.prop]:
        try:
            mod = importlib.import_module('replay.' + mname)
        except Exception as e:
            fails.append(dict(module=mname, case=None, what=f'the package cannot be used: {type(e).__name__}: {e}', trace=traceback.format_exc()[-1500:]))
            continue
        if o.case:
            rec = json.load(open(o.case))
            if rec.get('module') != mname: continue
            w = run_case(mod, o.prop, rec['case'])
            print('FAILS: ' + w if w else 'holds')
            sys.exit(1 if w else 0)
        share = t0 + o.budget * (MODULES[o.prop].index(mname) + 1) / len(MODULES[o.prop])
        for case in mod.cases(o.prop, o.seed, o.n0):
            w = run_case(mod, o.prop, case)
            n += 1
            if w:
                fails.append(dict(module=mname, case=case, what=w))
                break
            if time.time() > share: break
        if fails: break
    res.update(skipped=len(SKIPPED), skip_sample=SKIPPED[:3], runs=n, failures=fails, seconds=round(time.time() - t0, 2))
    if o.out:
        with open(o.out, 'w') as f: json.dump(res, f, default=str)
    else:
        print(json.dumps(res, default=str)[:3000])
    sys.exit(1 if fails else 0)

if __name__ == '__main__': main()
