"""pyvc core: sorts, the symbolic state of one path, decision-directed
exploration, obligations and their discharge by z3 / cvc5."""
from __future__ import annotations
import itertools, time, subprocess, os, tempfile, sys
import z3

U = z3.DeclareSort('U')
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

# kinds of universal values
NONE, BOOL, INT, FLOAT, STR, LIST, DICT, TUPLE, OBJ, SET = range(10)
kind = z3.Function('kind', U, I)
boxI = z3.Function('boxI', I, U); unboxI = z3.Function('unboxI', U, I)
boxR = z3.Function('boxR', R, U); unboxR = z3.Function('unboxR', U, R)
U_NONE, U_TRUE, U_FALSE = z3.Const('u_None', U), z3.Const('u_True', U), z3.Const('u_False', U)

_fns = {}
def fn(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _fns:
        _fns[k] = z3.Function(name, *sorts)
    return _fns[k]

_strlits = {}
_strlist = []
_strrev = {}
litid = z3.Function('litid', U, I)
def strlit(s: str):
    if s not in _strlits:
        c = z3.Const(f'str{len(_strlits)}:' + ''.join(ch if ch.isalnum() else '_' for ch in s[:24]), U)
        _strlits[s] = c
        _strlist.append(c)
        _strrev[c.decl().name()] = s
    return _strlits[s]

def lit_of(term):
    """the Python str a term is the literal of, or None"""
    if z3.is_const(term) and term.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return _strrev.get(term.decl().name())
    return None

_ba = [None, None]
def base_axioms():
    k = (len(_strlits), len(GLOBAL_AXIOMS))
    if _ba[0] != k:
        _ba[0], _ba[1] = k, _base_axioms()
    return list(_ba[1])

def _base_axioms():
    ax = [kind(U_NONE) == NONE, kind(U_TRUE) == BOOL, kind(U_FALSE) == BOOL, U_TRUE != U_FALSE]
    lits = list(_strlits.values())
    if len(lits) > 1:
        ax.append(z3.Distinct(*lits))
    ax += [kind(c) == STR for c in lits]
    for g in GLOBAL_AXIOMS:
        ax += g()
    return ax

GLOBAL_AXIOMS = []      # callables giving axioms of the data model

class Infeasible(Exception):
    pass

class Undecided(Exception):
    """the engine cannot model a construct: the obligation is undecided"""

class Unsupported(Undecided):
    pass

def has_quant(e, _cache={}):
    k = e.get_id()
    if k in _cache and _cache[k][0].eq(e):
        return _cache[k][1]
    if z3.is_quantifier(e):
        r = True
    else:
        r = any(has_quant(c) for c in e.children())
    _cache[k] = (e, r)
    return r

class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'detail', 'model')
    def __init__(self, name, status, backend, t, detail='', model=None):
        self.name, self.status, self.backend, self.time, self.detail, self.model = name, status, backend, t, detail, model

class Stats:
    def __init__(self):
        self.solver_time = 0.0
        self.queries = 0
        self.feas = 0

STATS = Stats()
TRACE = {'verified': set(), 'assumed': set()}   # real functions executed symbolically / callees replaced by their contract

SCALE = 1      # raised when undecided obligations are tried again
def check_sat(assertions, timeout_ms, config=None):
    s = z3.Solver()
    s.set('timeout', timeout_ms * SCALE)
    for k, v in (config or {}).items():
        s.set(k, v)
    s.add(*assertions)
    t = time.time()
    r = s.check()
    dt = time.time() - t
    STATS.solver_time += dt
    STATS.queries += 1
    return r, s, dt

_USED_CVC5 = os.environ.get('PYVC_NO_CVC5') is None
def cvc5_check(assertions, timeout_s):
    s = z3.Solver(); s.add(*assertions)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        t = time.time()
        p = subprocess.run(['cvc5', '--full-saturate-quant', f'--tlimit={int(timeout_s*1000)}', f.name],
                           capture_output=True, text=True, timeout=timeout_s + 5)
        STATS.solver_time += time.time() - t
        return p.stdout.strip().split('\n')[0]
    except Exception as e:
        return f'error {e}'
    finally:
        os.unlink(f.name)

class Path:
    """State of the path being executed."""
    def __init__(self):
        self.store = {}
        self.facts = []          # z3 facts: (guard-depth, fact)
        self.conds = []          # branch conditions taken (subset of facts)
        self.solver = z3.Solver()
        self.solver.set('timeout', int(os.environ.get('PYVC_FEAS_MS', '400')))
        self.trails = []         # stack of trail objects
        self.idx = []            # stack of enclosing loop index variables (z3 Int consts)
        self.nlits = 0
        self.solver.add(kind(U_NONE) == NONE, kind(U_TRUE) == BOOL, kind(U_FALSE) == BOOL, U_TRUE != U_FALSE)
        self.counter = 0
        self.obligations = []
        self.opts = {}

CUR: Path = None

class Trail:
    def __init__(self):
        self.choices = []   # list of [choice(bool/int), forced(bool), nalts]
        self.pos = 0
        self.log = []       # conditions taken, and facts: ('c', z3) / ('f', z3)

def cur() -> Path:
    return CUR

def fresh_name(base):
    p = CUR
    p.counter += 1
    return f'{base}!{p.counter}'

def fresh(base, sort):
    """a fresh symbol; inside loops a function of the loop indices"""
    n = fresh_name(base)
    if CUR.idx:
        f = z3.Function(n, *[I] * len(CUR.idx), sort)
        return f(*CUR.idx)
    return z3.Const(n, sort)

def freshvar(base, sort=I):
    return z3.Const(fresh_name(base), sort)

def _push_fact(c):
    p = CUR
    p.facts.append(c)
    if not has_quant(c):
        p.solver.add(c)

def assume(*facts):
    for f in facts:
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            continue
        f = z3.simplify(f) if not has_quant(f) else f
        if z3.is_true(f):
            continue
        CUR.trails[-1].log.append(('f', f))
        _push_fact(f)

def feasible(c):
    p = CUR
    STATS.feas += 1
    t = time.time()
    while p.nlits < len(_strlist):
        c0 = _strlist[p.nlits]
        p.solver.add(litid(c0) == p.nlits, kind(c0) == STR)
        p.nlits += 1
    p.solver.push()
    p.solver.add(c)
    r = p.solver.check()
    p.solver.pop()
    STATS.solver_time += time.time() - t
    return r != z3.unsat

MAXBRANCH = 4000

def branch(c) -> bool:
    """decide a symbolic condition"""
    if isinstance(c, bool):
        return c
    c = z3.simplify(c) if not has_quant(c) else c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    p = CUR
    tr = p.trails[-1]
    if tr.pos < len(tr.choices):
        ch = tr.choices[tr.pos]
        val = ch[0]
        if ch[1]:   # forced earlier
            tr.pos += 1
            return val
    else:
        if len(tr.choices) > MAXBRANCH:
            raise Unsupported('too many branches')
        if has_quant(c):
            ft = ff = True
        else:
            ft = feasible(c)
            ff = feasible(z3.Not(c)) if ft else True
        if not (ft and ff):
            val = ft
            tr.choices.append([val, True, 1])
            tr.pos += 1
            if not ft and not ff:
                raise Infeasible()
            return val
        val = True
        tr.choices.append([val, False, 2])
    tr.pos += 1
    cc = c if val else z3.Not(c)
    tr.log.append(('c', cc))
    _push_fact(cc)
    return val

def choose(n) -> int:
    """non-deterministic choice among n alternatives (all explored)"""
    tr = CUR.trails[-1]
    if tr.pos < len(tr.choices):
        v = tr.choices[tr.pos][0]
    else:
        v = 0
        tr.choices.append([0, n == 1, n])
    tr.pos += 1
    return v

def advance(tr: Trail) -> bool:
    """move to the next unexplored leaf; False when exhausted"""
    while tr.choices:
        v, forced, n = tr.choices[-1]
        if forced:
            tr.choices.pop()
        elif n == 2 and isinstance(v, bool):
            if v is True:
                tr.choices[-1] = [False, False, 2]
                break
            tr.choices.pop()
        else:
            if v + 1 < n:
                tr.choices[-1] = [v + 1, False, n]
                break
            tr.choices.pop()
    tr.pos = 0
    tr.log = []
    return bool(tr.choices)

MAXPATHS = 3000

def explore_nested(run):
    """run `run` over all its decisions from the current state; yields
    (outcome, log, store_after).  The state is restored after each run."""
    p = CUR
    store0 = dict(p.store)
    nf = len(p.facts)
    c0 = p.counter
    tr = Trail()
    p.trails.append(tr)
    n = 0
    res = []
    try:
        while True:
            p.store = dict(store0)
            p.counter = c0
            nl = p.nlits
            p.solver.push()
            try:
                out = run()
                res.append((out, list(tr.log), p.store, p.counter))
            except Infeasible:
                pass
            finally:
                p.solver.pop()
                p.nlits = nl
                del p.facts[nf:]
            n += 1
            if n > MAXPATHS:
                raise Unsupported('too many paths in loop body')
            if not advance(tr):
                break
    finally:
        p.trails.pop()
        p.store = store0
        p.counter = max([c0] + [r[3] for r in res])
    return res

VACUITY = None
def explore(scenario, name, deadline=None):
    """run a verification scenario over all paths; returns obligations"""
    global CUR
    obls = []
    tr = Trail()
    n = 0
    while True:
        p = Path()
        p.trails.append(tr)
        p.obligations = obls
        p.name = name
        p.pathno = n
        CUR = p
        try:
            scenario()
            if VACUITY is not None and not VACUITY.get('ok'):
                r, _, _ = check_sat(base_axioms() + list(p.facts), 600)
                VACUITY['checked'] = VACUITY.get('checked', 0) + 1
                VACUITY['ok'] = r != z3.unsat
        except Infeasible:
            pass
        n += 1
        if n > MAXPATHS:
            raise Unsupported('too many paths')
        if deadline and time.time() > deadline:
            raise Undecided('time budget exhausted')
        if not advance(tr):
            break
    CUR = None
    return obls, n

CONFIGS = [({}, 1500), ({'auto_config': False, 'smt.mbqi': False, 'smt.ematching': True}, 3000), ({'smt.random_seed': 7}, 6000)]

def entails(goal, timeout_ms=2000):
    """quick entailment used inside the engine (never an assumption)"""
    if isinstance(goal, bool):
        return goal
    g = z3.simplify(goal) if not has_quant(goal) else goal
    if z3.is_true(g):
        return True
    if not has_quant(g):
        if not feasible(z3.Not(g)):
            return True
    if not any(has_quant(f) for f in CUR.facts) and not has_quant(g):
        return False
    r, _, _ = check_sat(base_axioms() + CUR.facts + [z3.Not(g)], timeout_ms)
    return r == z3.unsat

def _offsets(e, x, acc, depth=0):
    """argument terms of uninterpreted functions of the form x + c"""
    if z3.is_quantifier(e) or z3.is_var(e):
        if z3.is_quantifier(e): _offsets(e.body(), None, acc)
        return
    if z3.is_app(e):
        un = e.decl().kind() == z3.Z3_OP_UNINTERPRETED
        for c in e.children():
            if un and z3.is_add(c) and any(a.eq(x) for a in c.children() if x is not None):
                rest = [a for a in c.children() if not a.eq(x)]
                o = rest[0] if len(rest) == 1 else z3.Sum(rest)
                if not any(o.eq(q) for q in acc): acc.append(o)
            if x is not None: _offsets(c, x, acc)

_shn = [0]
def _shift(e, memo):
    """re-index quantifiers over Int so that f(x + c) reads f(y); equivalent
    for forall and exists alike (x -> x - c is a bijection on the integers)"""
    k = e.get_id()
    if k in memo: return memo[k]
    if not has_quant(e):
        memo[k] = e; return e
    if z3.is_quantifier(e):
        n = e.num_vars()
        _shn[0] += 1
        vs = [z3.Const(f'sh!{_shn[0]}!{j}', e.var_sort(j)) for j in range(n)]
        body = z3.simplify(z3.substitute_vars(e.body(), *reversed(vs)), som=True) if not has_quant(e.body()) else z3.substitute_vars(e.body(), *reversed(vs))
        body = _shift(body, {})
        changed = not body.eq(z3.substitute_vars(e.body(), *reversed(vs)))
        for x in vs:
            if x.sort() != I: continue
            acc = []
            _offsets(body, x, acc)
            acc = [o for o in acc if not z3.is_int_value(o)]
            if len(acc) == 1 and not any(v.eq(q) for v in vs for q in _consts(acc[0])):
                body = z3.simplify(z3.substitute(body, (x, x - acc[0])), som=True) if not has_quant(body) else z3.substitute(body, (x, x - acc[0]))
                changed = True
        r = e if not changed else (z3.ForAll(vs, body) if e.is_forall() else z3.Exists(vs, body))
    else:
        r = e.decl()(*[_shift(c, memo) for c in e.children()])
    memo[k] = r
    return r

def _consts(e):
    if z3.is_const(e): return [e]
    return [c for a in e.children() for c in _consts(a)]

def shift_variants(facts):
    out = []
    for f in facts:
        if has_quant(f):
            g = _shift(f, {})
            if not g.eq(f): out.append(g)
    return out

_SHM = {}
def _shift_memo(f):
    if not has_quant(f): return f
    k = f.get_id()
    r = _SHM.get(k)
    if r is None or not r[0].eq(f):
        r = _SHM[k] = (f, _shift(f, {}))
    return r[1]

class Lifter:
    """Names for quantified subformulas: every quantifier that occurs below the
    top of a formula is replaced by a predicate over its free variables that is
    defined (by an equivalence) to be it.  Formulas equal up to renaming share
    the predicate, so the solver can match them propositionally."""
    def __init__(self):
        self.defs = {}; self.axioms = []; self.n = 0
    def formula(self, f):
        """a top-level assertion: its own outermost universal quantifiers stay"""
        if not has_quant(f): return f
        return self.walk(f, (), True)
    def walk(self, e, bound, top):
        if not has_quant(e): return e
        if z3.is_quantifier(e):
            n = e.num_vars()
            d = len(bound)
            vs = [z3.Const(f'b!{d + j}!{e.var_sort(j)}', e.var_sort(j)) for j in range(n)]
            body = self.walk(z3.substitute_vars(e.body(), *reversed(vs)), bound + tuple(vs), False)
            if top and e.is_forall():
                self.n += 1
                ws = [z3.Const(f'q!{self.n}!{j}', v.sort()) for j, v in enumerate(vs)]
                pats = [self.pat(e.pattern(j), vs, ws) for j in range(e.num_patterns())]
                try:
                    return z3.ForAll(ws, z3.substitute(body, *zip(vs, ws)), patterns=[q for q in pats if q is not None])
                except z3.Z3Exception:
                    return z3.ForAll(ws, z3.substitute(body, *zip(vs, ws)))
            free = []
            def fv(x, seen):
                if x.get_id() in seen: return
                seen.add(x.get_id())
                if z3.is_const(x):
                    if any(x.eq(b) for b in bound) and not any(x.eq(q) for q in free): free.append(x)
                    return
                for c in x.children(): fv(c, seen)
            fv(body, set())
            ren = [(b, z3.Const(f'a!{j}!{b.sort()}', b.sort())) for j, b in enumerate(free)]
            inn = [(v, z3.Const(f'i!{j}!{v.sort()}', v.sort())) for j, v in enumerate(vs)]
            cb = z3.simplify(z3.substitute(body, *(ren + inn)))
            key = (cb.get_id(), e.is_forall(), tuple(str(v.sort()) for v in vs), len(free))
            if key not in self.defs:
                self.n += 1
                D = z3.Function(f'def!{self.n}', *[b.sort() for b in free], B)
                args = [a for _, a in ren]
                q = (z3.ForAll if e.is_forall() else z3.Exists)([w for _, w in inn], cb)
                self.defs[key] = (D, cb)
                if args:
                    self.axioms.append(z3.ForAll(args, D(*args) == q, patterns=[D(*args)]))
                else:
                    self.axioms.append(D() == q)
            return self.defs[key][0](*free)
        if top and z3.is_and(e):
            return z3.And(*[self.walk(c, bound, True) for c in e.children()])
        if top and z3.is_not(e) and z3.is_quantifier(e.arg(0)) and e.arg(0).is_exists():
            x = e.arg(0)
            vs = [z3.Const(f'x!{x.get_id()}!{j}', x.var_sort(j)) for j in range(x.num_vars())]
            return self.walk(z3.ForAll(vs, z3.Not(z3.substitute_vars(x.body(), *reversed(vs)))), bound, True)
        return e.decl()(*[self.walk(c, bound, False) for c in e.children()])
    def pat(self, p, vs, ws):
        p = z3.substitute_vars(p, *reversed(ws))
        return p

def lifted(facts):
    l = Lifter()
    out = [l.formula(_shift_memo(f)) for f in facts]
    return out + l.axioms

def prove(name, goal, detail=''):
    """emit and discharge one proof obligation under the current facts"""
    p = CUR
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    asr = base_axioms() + list(p.facts) + [z3.Not(goal)]
    t0 = time.time()
    status, backend, model = 'unknown', '', None
    neg = z3.Not(goal)
    lift = base_axioms() + lifted(list(p.facts) + [neg])
    hopeless = z3.is_false(z3.simplify(goal)) if not has_quant(goal) else False      # only an inconsistent path could discharge it
    for a_, cfg, to in ((lift, {}, 1500), (lift, {'auto_config': False, 'smt.mbqi': False}, 1500)) if hopeless else ((lift, {}, 2000), (lift, {'auto_config': False, 'smt.mbqi': False}, 2000), (asr, {}, 1500),
                        (lambda: asr + shift_variants(list(p.facts) + [neg]), {'auto_config': False, 'smt.mbqi': False}, 3000),
                        (lift, {'smt.random_seed': 7}, 8000)):
        r, s, _ = check_sat(a_() if callable(a_) else a_, to, cfg)
        if r == z3.unsat:
            status, backend = 'discharged', 'z3'
            break
        if r == z3.sat:
            status, backend = 'failed', 'z3'
            model = str(s.model())[:4000]
            break
    if status == 'unknown' and _USED_CVC5 and not hopeless:
        r = cvc5_check(asr, 10 * SCALE)
        if r == 'unsat':
            status, backend = 'discharged', 'cvc5'
        elif r == 'sat':
            status, backend = 'failed', 'cvc5'
    o = Obligation(f'{p.name}/{name}', status, backend, time.time() - t0, detail, model)
    if status != 'discharged':
        o.detail += '\npath: ' + '; '.join(str(x[1])[:300] for x in p.trails[0].log if x[0] == 'c')[:3000] + '\ngoal: ' + str(goal)[:1500]
    p.obligations.append(o)
    return status == 'discharged'

def And(*xs):
    xs = [x for x in xs if x is not True and not (z3.is_expr(x) and z3.is_true(x))]
    if any(x is False for x in xs):
        return z3.BoolVal(False)
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)

def Or(*xs):
    xs = [x for x in xs if x is not False and not (z3.is_expr(x) and z3.is_false(x))]
    if any(x is True for x in xs):
        return z3.BoolVal(True)
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)

def Not(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    return z3.Not(x)

def Implies(a, b):
    return Or(Not(a), b) if isinstance(a, bool) or isinstance(b, bool) else z3.Implies(a, b)

def ForAll(vs, body, patterns=None):
    vs = list(vs)
    body = body if z3.is_expr(body) else z3.BoolVal(body)
    if z3.is_true(body) or z3.is_false(body):
        return body
    return z3.ForAll(vs, body, patterns=patterns) if patterns else z3.ForAll(vs, body)

def Exists(vs, body):
    body = body if z3.is_expr(body) else z3.BoolVal(body)
    if z3.is_true(body) or z3.is_false(body):
        return body
    return z3.Exists(list(vs), body)

CHARMAPS = {}      # names of the character-wise maps used by str.translate
