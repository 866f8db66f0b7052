import sys, importlib, time, traceback, re, multiprocessing as mp
from contracts import env
from pyvc import core
for m in sys.argv[1].split(','): importlib.import_module('contracts.'+m)
pat = sys.argv[2] if len(sys.argv)>2 else ''
jobs=[(prop,s[0],s[1],s[3]) for prop,l in env.SCENARIOS.items() for s in l if re.search(pat, f'{prop}/{s[0]}')]
def one(k):
    prop,name,f,b=jobs[k]; t=time.time(); out=[]
    try:
        obls, n = core.explore(f, f'{prop}/{name}', time.time()+b)
        bad=[o for o in obls if o.status!='discharged']
        out.append(f'{prop}/{name}: {len(obls)} obligations, {n} paths, {len(bad)} bad, {time.time()-t:.1f}s')
        for o in bad[:4]: out.append(f'    {o.name} {o.status} {o.backend} {o.detail[:1800]}'+(f'\n MODEL {o.model}' if '-m' in sys.argv else ''))
    except core.Undecided as e:
        out.append(f'{prop}/{name}: UNDECIDED {type(e).__name__} {e} {time.time()-t:.1f}s')
        if '-v' in sys.argv: out.append(traceback.format_exc(limit=-5))
    except Exception as e:
        out.append(f'{prop}/{name}: CRASH {type(e).__name__} {e}\n'+traceback.format_exc(limit=-8))
    return '\n'.join(out)
if __name__=='__main__':
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap(one, range(len(jobs)), 1): print(r, flush=True)
