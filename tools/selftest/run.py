#!/usr/bin/env python3-vt
"""Differential self-test of the verifier: the functions of fns.py are run by
CPython on concrete inputs, and by pyvc on symbolic inputs of unknown length
assumed equal to them.  A result the verifier excludes is unsound; a result it
merely cannot confirm is reported as imprecise; Unsupported stops a proof."""
import sys, os, random, time, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path[:0] = [H, os.path.dirname(os.path.abspath(__file__))]
import z3
from pyvc import core, builtins as _b
from pyvc.core import *
from pyvc.values import *
from pyvc.interp import *
from pyvc.interp import NOT, UNBOUND
import fns

def real(f, xs, k, ss):
    try: return ('value', f(list(xs), k, list(ss)))
    except Exception as e: return ('raise', type(e))

def lift(itp, v):
    if isinstance(v, list): return itp.new_cont('list', lits([lift(itp, x) for x in v]))
    if isinstance(v, tuple): return tuple(lift(itp, x) for x in v)
    return v

def run(f, xs, k, ss):
    want = real(f, xs, k, ss)
    seen = dict(ok=0, bad=0, confirmed=0)
    def scen():
        itp = Interp()
        n, m, kk = z3.Int('n'), z3.Int('m'), z3.Int('k')
        xf, sf = fn('xf', I, I), fn('sf', I, U)
        strlen = fn('strlen', U, I)
        assume(n == len(xs), m == len(ss), kk == k)
        for i, x in enumerate(xs): assume(xf(z3.IntVal(i)) == x)
        for i, s in enumerate(ss): assume(sf(z3.IntVal(i)) == strlit(s), kind(strlit(s)) == core.STR)
        for s in {'a', 'b', 'aa', 'ab', *ss}: assume(strlen(strlit(s)) == len(s))
        v = freshvar('v')
        assume(ForAll([v], And(kind(sf(v)) == core.STR, strlen(sf(v)) >= 0), patterns=[sf(v)]))
        a = itp.new_cont('list', mk_map(n, lambda v: SInt(xf(v))))
        b = itp.new_cont('list', mk_map(m, lambda v: SStr(sf(v))))
        try: got = ('value', itp.call(f, [a, SInt(kk), b]))
        except PyRaise as e: got = ('raise', exc_class(e.exc))
        if got[0] == 'value' == want[0]:
            if isinstance(got[1], (int, str, bool, type(None))) and isinstance(want[1], (int, str, bool, type(None))): eq = type(got[1]) is type(want[1]) and got[1] == want[1]
            else: eq = tb(itp.eq(got[1], lift(itp, want[1])))
        else: eq = got == want
        core.CUR.obligations = []
        def holds(g):
            if g is True: return True
            r, _, _ = core.check_sat(core.base_axioms() + list(core.CUR.facts) + ([] if g is False else [Not(g)]), 3000)
            return r == z3.unsat
        if holds(False): return                        # not the path of these inputs
        seen['ok'] += 1
        if eq is False or (eq is not True and holds(Not(eq))): seen['got'] = repr(got)[:200]      # a path these inputs do not take
        else:
            seen['poss'] = True
            if eq is True or holds(eq): seen['confirmed'] += 1
    try: core.explore(scen, 's', time.time() + 60)
    except core.Undecided as e: return 'stopped', f'{type(e).__name__} {e}'
    if not seen.get('poss'): return 'UNSOUND', f"no path with the outcome of xs={xs} k={k} ss={ss}: {want}; got {seen.get('got')}"
    return ('exact' if seen['confirmed'] == seen['ok'] else 'imprecise'), ''

def job(a):
    name, seed = a
    rnd = random.Random(f'{name}{seed}')
    xs = [rnd.randint(0, 4) for _ in range(rnd.choice([0, 1, 2, 3, 4]))]; k = rnd.randint(0, 4)
    ss = [rnd.choice(['a', 'b', 'aa', 'ab']) for _ in range(rnd.choice([0, 1, 2, 3]))]
    try: return (name, *run(getattr(fns, name), xs, k, ss))
    except Exception as e: return name, 'CRASH', f'{type(e).__name__}: {e}'

if __name__ == '__main__':
    names = [n for n in sorted(vars(fns)) if n[0] in 'fghi' and n[1:].isdigit() and (not sys.argv[2:] or n in sys.argv[2:])]
    seeds = int(sys.argv[1]) if sys.argv[1:] else 6
    tally = {}; notes = {}
    with mp.Pool(6) as pool:
        for n, r, d in pool.imap_unordered(job, [(n, s) for n in names for s in range(seeds)]):
            tally.setdefault(n, {}).setdefault(r, 0); tally[n][r] += 1
            if r in ('UNSOUND', 'CRASH', 'stopped'): notes.setdefault((n, r), d)
    tot = {}
    for n in names:
        for r, c in tally[n].items(): tot[r] = tot.get(r, 0) + c
    print(tot)
    for (n, r), d in sorted(notes.items(), key=lambda x: (x[0][1] != 'UNSOUND', x[0])): print(n, r, d)
    print('imprecise:', [n for n in names if 'imprecise' in tally[n]])
    sys.exit(1 if tot.get('UNSOUND') or tot.get('CRASH') else 0)
