"""Loop summarisation: a loop over a symbolic sequence (or a while loop) is
executed once for an arbitrary iteration index; the loop-carried state at the
start of that iteration is found by an optimistic fixpoint, and the state after
the loop is described by exact recurrences plus lemmas that follow from them by
induction (last writer, counters, monotonicity, appended/prepended items)."""
from __future__ import annotations
import z3
from . import core
from .core import (U, I, B, R, Unsupported, Infeasible, And, Or, Not, Implies, ForAll, Exists, fresh, freshvar, assume,
                   branch)
from .values import *
from .interp import (PyRaise, ReturnSig, BreakSig, ContinueSig, UNBOUND, DELETED, tb)

class Poison(V):
    """value of a local variable the engine gave up on"""
    def __repr__(self): return 'Poison'
POISON = Poison()
PEEL = Poison()      # an object of this verification at first: peel an iteration before reading it

def progress(s, fr, start, store):
    """an iteration changes something the test of the while loop reads"""
    import ast
    if any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(s.test)): return True
    names = [x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)]
    cells = [('L', f.id, n) for n in names for f in frames(fr) if n in f.names]
    if not cells: return True
    changed = [k for k, v in store.items() if start.get(k, UNBOUND) is not UNBOUND and start[k] is not v and not same(start[k], v)]
    ids = {v.id for v in (start.get(c) for c in cells) if isinstance(v, (Inst, Cont))}
    return any(k in cells or k[0] in ('H', 'G', 'K', 'M') or alloc_id(k) in ids for k in changed)

def frames(fr):
    while fr is not None:
        yield fr
        fr = fr.parent

class WhileExit(Exception):
    pass

class NeedPeel(Exception):
    pass

def same(a, b):
    if a is b: return True
    if isinstance(a, V) or isinstance(b, V):
        if type(a) is not type(b): return False
        if isinstance(a, (SInt, SBool, SStr, SAny, SFrac, Opaque)): return a.t.eq(b.t)
        if isinstance(a, SNum): return a.t.eq(b.t) and z_eq(a.isint, b.isint)
        if isinstance(a, SObj): return a.t.eq(b.t) and a.cls is b.cls
        if isinstance(a, (Inst, Cont)): return a.id == b.id and len(a.idxs) == len(b.idxs) and all(x.eq(y) for x, y in zip(a.idxs, b.idxs))
        if isinstance(a, Opt): return z_eq(a.cond, b.cond) and same(a.val, b.val)
        if isinstance(a, Ite): return z_eq(a.cond, b.cond) and same(a.a, b.a) and same(a.b, b.b)
        if isinstance(a, (JList, JDict)): return a.r.eq(b.r)
        if isinstance(a, View): return a.kind == b.kind and same(a.obj, b.obj) and same(a.seq, b.seq)
        if isinstance(a, GenV): return same(a.seq, b.seq)
        return False
    if isinstance(a, Seq) and isinstance(b, Seq):
        return len(a.parts) == len(b.parts) and all(same_part(x, y) for x, y in zip(a.parts, b.parts))
    if type(a) is not type(b): return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int, float, bool)):
        return a == b
    return False

def z_eq(a, b):
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return a is b

def same_part(p, q):
    if p is q: return True
    if type(p) is not type(q): return False
    if isinstance(p, Lit): return same(p.v, q.v)
    if isinstance(p, Opq): return p.name == q.name
    if isinstance(p, Map):
        return p.var.eq(q.var) and p.n.eq(q.n) and len(p.alts) == len(q.alts) and \
            all(z_eq(g, h) and same(s, t) for (g, s), (h, t) in zip(p.alts, q.alts))
    return False

# ------------------------------------------------------------------ shapes
def shape(v):
    if isinstance(v, bool) or isinstance(v, SBool): return ('bool',)
    if isinstance(v, int) or isinstance(v, SInt): return ('int',)
    if isinstance(v, str) or isinstance(v, SStr): return ('str',)
    if v is None: return ('none',)
    if isinstance(v, Opt):
        s = shape(v.val)
        return ('opt', s) if s else None
    if isinstance(v, SObj): return ('obj', v.cls)
    if isinstance(v, SAny): return ('any',)
    if isinstance(v, Cont): return ('any',)
    if isinstance(v, Opaque): return ('opq', v.what)
    if isinstance(v, tuple):
        ss = [shape(x) for x in v]
        return ('tuple',) + tuple(ss) if all(ss) else None
    return None

def join(a, b):
    if a is None or b is None: return None
    if a == b: return a
    if a[0] == 'none':
        return ('opt', b) if b[0] not in ('opt', 'any') else b
    if b[0] == 'none':
        return join(b, a)
    if a[0] == 'opt' or b[0] == 'opt':
        x = a[1] if a[0] == 'opt' else a
        y = b[1] if b[0] == 'opt' else b
        j = join(x, y)
        if j is None: return None
        return j if j[0] == 'any' else ('opt', j)
    if a[0] == 'obj' and b[0] == 'obj':
        if issubclass(a[1], b[1]): return b
        if issubclass(b[1], a[1]): return a
        for c in a[1].__mro__:
            if issubclass(b[1], c) and c is not object: return ('obj', c)
        return None
    if a[0] == 'tuple' or b[0] == 'tuple':
        if a[0] == b[0] and len(a) == len(b):
            js = [join(x, y) for x, y in zip(a[1:], b[1:])]
            return ('tuple',) + tuple(js) if all(js) else None
        return None
    prim = ('bool', 'int', 'str', 'any', 'obj')
    if a[0] in prim and b[0] in prim: return ('any',)
    return None

def mk_placeholder(sh, name, idxs):
    """host value of the given shape as uninterpreted functions of idxs"""
    def f(sfx, sort):
        return z3.Function(name + sfx, *[I] * len(idxs), sort)(*idxs)
    if sh[0] == 'bool': return SBool(f(':b', B))
    if sh[0] == 'int': return SInt(f(':i', I))
    if sh[0] == 'str': return SStr(f(':s', U))
    if sh[0] == 'any': return SAny(f(':u', U))
    if sh[0] == 'opq': return Opaque(f(':q', U), sh[1])
    if sh[0] == 'obj': return SObj(f(':o', U), sh[1])
    if sh[0] == 'none': return None
    if sh[0] == 'opt': return Opt(f(':c', B), mk_placeholder(sh[1], name + "'", idxs))
    if sh[0] == 'tuple': return tuple(mk_placeholder(s, f'{name}.{i}', idxs) for i, s in enumerate(sh[1:]))
    raise Unsupported(f'shape {sh}')

def shape_eq(itp, sh, ph, v):
    """ph (a placeholder of shape sh) equals host value v"""
    if sh[0] == 'bool': return ph.t == tb(v.t if isinstance(v, SBool) else bool(v))
    if sh[0] == 'int': return ph.t == zint(v)
    if sh[0] == 'str': return ph.t == itp.to_u(v)
    if sh[0] in ('any', 'opq'): return ph.t == itp.to_u(v)
    if sh[0] == 'obj':
        return ph.t == itp.to_u(v)
    if sh[0] == 'none': return z3.BoolVal(v is None)
    if sh[0] == 'opt':
        if v is None: return Not(ph.cond)
        if isinstance(v, Opt):
            return And(ph.cond == v.cond, Implies(v.cond, shape_eq(itp, sh[1], ph.val, v.val)))
        return And(ph.cond, shape_eq(itp, sh[1], ph.val, v))
    if sh[0] == 'tuple':
        return And(*[shape_eq(itp, s, p, x) for s, p, x in zip(sh[1:], ph, v)])
    raise Unsupported(f'shape {sh}')

# ------------------------------------------------------------------ loops
def for_stmt(itp, s, fr):
    seq = itp.iterate(itp.ev(s.iter, fr))
    def body(v):
        itp.assign(s.target, v, fr)
        try:
            itp.block(s.body, fr)
        except ContinueSig:
            pass
    try:
        run_for(itp, seq, body)
    except BreakSig:
        return
    itp.block(s.orelse, fr)

def run_for(itp, seq, body):
    for part in list(seq.parts):
        run_part(itp, part, body)

def run_part(itp, part, body):
    if isinstance(part, Lit):
        body(part.v)
    elif isinstance(part, Map):
        n = z3.simplify(part.n)
        if z3.is_int_value(n):
            if n.as_long() <= 0:
                return
            if n.as_long() == 1:
                for g, sub in inst_part(part, z3.IntVal(0)):
                    if g is True or branch(g):
                        run_for(itp, sub, body)
                return
        def iter_body(i):
            for g, sub in inst_part(part, i):
                if g is True or branch(g):
                    run_for(itp, sub, body)
        try: summarise(itp, iter_body, n)
        except NeedPeel: raise Unsupported('loop variable that is not of one kind')
    else:
        raise Unsupported('loop over an unknown sequence')

def while_stmt(itp, s, fr):
    def iter_body(i):
        if not itp.test(itp.ev(s.test, fr)):
            raise WhileExit()
        try:
            itp.block(s.body, fr)
        except ContinueSig:
            pass
    try:
        for peel in range(3):
            # decide concretely when the test needs no symbolic decision
            try:
                summarise(itp, iter_body, None, lambda start, store: progress(s, fr, start, store))
            except NeedPeel:
                iter_body(None)
                continue
            raise Unsupported('while loop without exit')
        raise Unsupported('while loop state does not stabilise')
    except WhileExit:
        itp.block(s.orelse, fr)
    except BreakSig:
        pass


def alloc_id(key):
    """the object id a store cell belongs to, when it has one"""
    return key[1] if key[0] in ('F', 'C', 'V', 'Z') else None

LISTLIKE = ('C', 'H')

_loopno = [0]
def summarise(itp, iter_body, n, progresses=None):
    p = core.CUR
    i = freshvar('i')
    _loopno[0] = p.counter + 1; p.counter += 1
    tag = f'L{p.counter}'
    outer = tuple(p.idx)
    store0 = dict(p.store)
    if p.counter > 10**6:
        raise Unsupported('runaway')
    kinds = {}          # cell -> dict(kind=...)
    probe = {}
    for rnd in range(10):
        start = dict(store0)
        for key, k in kinds.items():
            start[key] = k['start'](i)
        def run():
            p.store.update(start)
            p.idx.append(i)
            core._push_fact(i >= 0)
            if n is not None:
                core._push_fact(i < n)
            for key, k in kinds.items():
                for f in k.get('facts', ()):
                    core._push_fact(f)
            try:
                try:
                    iter_body(i)
                    out = ('next', None)
                except PyRaise as e:
                    out = ('raise', e.exc)
                except ReturnSig as e:
                    out = ('return', e.v)
                except BreakSig:
                    out = ('break', None)
                except WhileExit:
                    out = ('while', None)
                # cells equal by entailment are unchanged
                if out[0] == 'next':
                    for key, v in list(p.store.items()):
                        s0 = start.get(key, UNBOUND)
                        if isinstance(v, SAny) and s0 is not UNBOUND and v is not s0:
                            for kk, mk in ((core.INT, lambda t: SInt(core.unboxI(t))), (core.STR, SStr)):
                                if not core.feasible(core.kind(v.t) != kk):
                                    p.store[key] = v = mk(v.t)
                                    break
                        if s0 is not UNBOUND and v is not s0 and not same(v, s0) and isinstance(v, (bool, int, SBool, SInt)) \
                                and isinstance(s0, (bool, int, SBool, SInt)) and shape(v) == shape(s0):
                            if core.entails(tb(itp.eq(v, s0)), 500):
                                p.store[key] = s0
                return out
            finally:
                p.idx.pop()
        opts0 = dict(p.opts)
        try:
            p.opts['acc_probe'] = not all(k.get('uf') for k in kinds.values() if k['kind'] == 'append')
            p.opts['acc_hit'] = set()
            results = core.explore_nested(run)
            hits = p.opts['acc_hit']
        finally:
            p.opts['acc_probe'] = opts0.get('acc_probe', False)
            p.opts['acc_hit'] = opts0.get('acc_hit', set()) | p.opts.get('acc_hit', set())
        nexts = [r for r in results if r[0][0] == 'next']
        new = False
        fresh_keys = set()
        for out, log, store, _ in nexts:
            for key, v in store.items():
                s0 = start.get(key, UNBOUND)
                if s0 is UNBOUND:
                    continue            # created in the body
                if v is s0 or same(v, s0):
                    continue
                if key in fresh_keys:
                    # classified in this round: compare with the same start
                    k2 = classify(itp, key, store0[key], s0, v, tag, outer, i)
                    if k2['kind'] != kinds[key]['kind'] or (k2['kind'] == 'scalar' and not kinds[key]['accepts'](v)):
                        kinds[key] = widen(itp, key, kinds[key], store0[key], v, tag, outer, i, nexts)
                    continue
                if key in kinds:
                    if not kinds[key]['accepts'](v):
                        new = True
                        kinds[key] = widen(itp, key, kinds[key], store0[key], v, tag, outer, i, nexts)
                    continue
                if key[0] == 'exc':
                    continue
                kinds[key] = classify(itp, key, store0[key], s0, v, tag, outer, i)
                fresh_keys.add(key)
                new = True
        if new:
            if rnd > 8:
                raise Unsupported('loop state does not stabilise')
            continue
        # exact counters
        for key, k in list(kinds.items()):
            if k['kind'] == 'scalar' and k['shape'] == ('int',) and not k.get('nolin'):
                d = deltas(key, k, nexts, i)
                if d is not None and len(set(d)) == 1 and nexts:
                    init = zint(store0[key]); c = d[0]
                    kinds[key] = dict(kind='linear', start=lambda j, init=init, c=c: mkint(init + c * j), accepts=None, c=c, init=init)
                    kinds[key]['accepts'] = lambda v, init=init, c=c: isinstance(v, (int, SInt)) and z3.simplify(zint(v) - (init + c * (i + 1))).eq(z3.IntVal(0))
                    new = True
        # membership queries on the container being built
        for key, k in kinds.items():
            if k['kind'] == 'append' and not k.get('uf') and k['opq'] in hits:
                make_uf(itp, key, k, nexts, start, tag, outer, i)
                new = True
        if not new:
            break
    else:
        raise Unsupported('loop state does not stabilise')
    if progresses and any(not progresses(start, store) for out, log, store, _ in nexts):
        core.prove('every iteration of the while loop changes what its test reads', False)
    finish(itp, results, kinds, store0, start, n, i, tag, outer)

def deltas(key, k, nexts, i):
    ds = []
    ph = k['start'](i)
    for out, log, store, _ in nexts:
        v = store[key]
        if not isinstance(v, (int, SInt)) or isinstance(v, bool): return None
        d = z3.simplify(zint(v) - ph.t)
        if not z3.is_int_value(d): return None
        ds.append(d.as_long())
    return ds

def classify(itp, key, init, s0, v, tag, outer, i):
    name = f'{tag}:{key[0]}:{":".join(str(x) if not isinstance(x, type) else x.__name__ for x in key[1:])}'
    if key[0] in LISTLIKE or (isinstance(init, Seq)):
        a, b = init.parts, v.parts
        if len(b) >= len(a) and all(same_part(x, y) for x, y in zip(a, b)):
            opq = Opq(name)
            return dict(kind='append', opq=name, start=lambda j: Seq(a + (opq,)),
                        delta=lambda v: Seq(v.parts[len(a) + 1:]),
                        accepts=lambda v: len(v.parts) >= len(a) + 1 and all(same_part(x, y) for x, y in zip(a + (opq,), v.parts)), name=name)
        if len(b) >= len(a) and all(same_part(x, y) for x, y in zip(a, b[len(b) - len(a):])):
            opq = Opq(name)
            return dict(kind='prepend', opq=name, start=lambda j: Seq((opq,) + a),
                        delta=lambda v: Seq(v.parts[:len(v.parts) - len(a) - 1]),
                        accepts=lambda v: len(v.parts) >= len(a) + 1 and all(same_part(x, y) for x, y in zip((opq,) + a, v.parts[len(v.parts) - len(a) - 1:])), name=name)
        return dict(kind='havoc', start=lambda j: Seq((Opq(name),)), accepts=lambda v: True)
    if isinstance(init, Poison) or init is DELETED:
        return dict(kind='poison', start=lambda j: POISON, accepts=lambda v: True)
    sh = join(shape(init), shape(v))
    if sh is None:
        if isinstance(init, (Inst,)) or isinstance(v, Inst):
            if key[0] == 'L' :
                return dict(kind='maybepeel', start=lambda j: PEEL, accepts=lambda v: True)
        return dict(kind='poison', start=lambda j: POISON, accepts=lambda v: True)
    for h in core.CUR.opts.get('loop_inv', ()):
        f = h(itp, init, v)
        if f is not None:
            k = scalar(sh, name, outer)
            k['start'] = f; k['inv'] = True; k['accepts'] = lambda v: True
            return k
    return scalar(sh, name, outer)

def scalar(sh, name, outer):
    k = dict(kind='scalar', shape=sh, name=name, start=lambda j: mk_placeholder(sh, name, outer + (j,)))
    k['accepts'] = lambda v: join(sh, shape(v)) == sh
    return k

def widen(itp, key, k, init, v, tag, outer, i, nexts):
    if k['kind'] == 'append' and not init.parts and not k.get('flipped') and v.parts and isinstance(v.parts[-1], Opq) and v.parts[-1].name == k['opq']:
        opq = Opq(k['opq'])
        return dict(kind='prepend', opq=k['opq'], start=lambda j: Seq((opq,)), name=k['name'],
                    delta=lambda v: Seq(v.parts[:-1]),
                    accepts=lambda v: len(v.parts) >= 1 and same_part(opq, v.parts[-1]))
    if k['kind'] in ('append', 'prepend'):
        name = k['name']
        return dict(kind='havoc', start=lambda j: Seq((Opq(name),)), accepts=lambda v: True)
    if k['kind'] == 'linear':
        r = scalar(('int',), f'{tag}:w:{key[0]}:{key[1]}:{key[2] if len(key) > 2 else ""}', outer)
        r['nolin'] = True
        return r
    if k['kind'] == 'scalar':
        sh = join(k['shape'], shape(v))
        if sh is not None:
            return scalar(sh, k['name'] + '+', outer)
        return dict(kind='poison', start=lambda j: POISON, accepts=lambda v: True)
    return k

def make_uf(itp, key, k, nexts, start, tag, outer, i):
    """represent the items appended by earlier iterations explicitly, their
    guards being uninterpreted functions defined by the loop body itself"""
    groups = group_deltas([(pathcond(log), k['delta'](store[key])) for out, log, store, _ in nexts])
    base = Seq(k['start'](i).parts[:-1])
    alts = []
    for q, (g, d) in enumerate(groups):
        if not d.parts: continue
        f = z3.Function(f'{k["name"]}:g{q}', *[I] * (len(outer) + 1), B)
        alts.append((f, d))
    k['uf'] = alts
    j0 = freshvar('j')
    def start_fn(j):
        mp = Map(j0, j, [(f(*outer, j0), Subst([(i, j0)]).seq(d)) for f, d in alts])
        return Seq(base.parts + (mp,))
    k['start'] = start_fn
    nb = len(base.parts)
    k['delta'] = lambda v: Seq(v.parts[nb + 1:])
    k['accepts'] = lambda v: len(v.parts) >= nb + 1 and all(same_part(x, y) for x, y in zip(start_fn(i).parts, v.parts))
    k['indices'] = None

def pathcond(log):
    return And(*[f for t, f in log if t == 'c'])

def group_deltas(items):
    out = []
    for g, d in items:
        for q in out:
            if same(q[1], d):
                q[0] = Or(q[0], g)
                break
        else:
            out.append([g, d])
    return out

def created_ids(store, store0):
    return {alloc_id(k) for k in store if alloc_id(k) is not None and ('V', alloc_id(k)) not in store0 and ('V', alloc_id(k)) in store}

def finish(itp, results, kinds, store0, start, n, i, tag, outer):
    p = core.CUR
    nexts = [r for r in results if r[0][0] == 'next']
    exits = [r for r in results if r[0][0] != 'next']
    if any(k['kind'] == 'maybepeel' for k in kinds.values()) and n is None:
        raise NeedPeel()
    m = n
    ex = None
    seen = set()
    def guarded_facts(log, lim):
        conds = []
        for t, f in log:
            if t == 'c':
                conds.append(f)
            else:
                g = And(*conds)
                key = (g.get_id(), f.get_id())
                if key in seen: continue
                seen.add(key)
                lim(g, f)
    if exits:
        X = Or(*[pathcond(log) for _, log, _, _ in exits])
        j = freshvar('j')
        if n is None:
            k = fresh('k', I)
            taken = True
            assume(k >= 0)
        else:
            # decide whether the loop exits early
            taken = branch(Exists([j], And(rng(j, n), sub1(X, i, j))))
            if taken:
                k = fresh('k', I)
                assume(rng(k, n))
        if taken:
            m = k
            ex = choose_exit(exits)
        else:
            assume(ForAll([i], Implies(rng(i, n), Not(X))))
    elif n is None:
        raise Unsupported('while loop that never exits')
    # ---- facts about the completed iterations
    inr = rng(i, m)
    for out, log, store, _ in nexts:
        guarded_facts(log, lambda g, f: assume(ForAll([i], Implies(And(inr, g), f))))
    comp = Or(*[pathcond(log) for _, log, _, _ in nexts])
    if not nexts:
        assume(m <= 0)
    elif not z3.is_true(comp):
        assume(ForAll([i], Implies(inr, comp)))
    if ex is not None:
        s = Subst([(i, m)])
        out, log, store, _ = ex
        for t, f in log:
            assume(s.z(f))
            if t == 'c':
                pass
        # (first exit) earlier iterations did not exit: implied by completeness
        if exits:
            X = Or(*[pathcond(l) for _, l, _, _ in exits])
            assume(ForAll([i], Implies(inr, Not(X))))
    # ---- objects created in the body
    renames = []
    new_store = dict(store0)
    for q, (out, log, store, _) in enumerate(nexts):
        ids = created_ids(store, store0)
        idmap = {x: f'{x}@{tag}.{q}' for x in ids}
        renames.append(idmap)
        sb = Subst((), idmap)
        for key, v in store.items():
            if alloc_id(key) in ids:
                nk = (key[0], idmap[key[1]]) + key[2:]
                new_store[nk] = sb(v) if key[0] != 'V' else v
            elif key[0] == 'R' and key not in store0:
                new_store[key] = v
    exmap = {}
    if ex is not None:
        out, log, store, _ = ex
        ids = created_ids(store, store0)
        exmap = {x: f'{x}@{tag}.x' for x in ids}
        sb = Subst((), exmap)
        for key, v in store.items():
            if alloc_id(key) in ids:
                nk = (key[0], exmap[key[1]]) + key[2:]
                new_store[nk] = sb(v) if key[0] != 'V' else v
            elif key[0] == 'R' and key not in store0:
                new_store[key] = v
    # ---- cells
    groups_cache = {}
    for key, k in kinds.items():
        if k['kind'] in ('append', 'prepend'):
            items = []
            for (out, log, store, _), idmap in zip(nexts, renames):
                items.append((pathcond(log), Subst((), idmap).seq(k['delta'](store[key]))))
            groups = group_deltas(items)
            if k.get('uf'):
                for f, d in k['uf']:
                    g = Or(*[gg for gg, dd in groups if same(dd, d)])
                    assume(ForAll([i], Implies(inr, f(*outer, i) == tb(g))))
                left = [dd for gg, dd in groups if dd.parts and not any(same(dd, d) for f, d in k['uf'])]
                if left:
                    raise Unsupported(f'container built in a loop reads itself {groups} {k["uf"]}')
                alts = [(f(*outer, i), d) for f, d in k['uf']]
            else:
                alts = [(g, d) for g, d in groups if d.parts]
                if len(alts) == 1 and len(groups) == 1:
                    alts = [(True, alts[0][1])]
            base = store0[key]
            if not alts:
                new_store[key] = base
            elif k['kind'] == 'append':
                new_store[key] = Seq(base.parts + (Map(i, m, alts),))
            else:
                w = freshvar('_r')
                ralts = inst_part(Map(i, m, alts), z3.simplify(m - 1 - w))
                new_store[key] = Seq((Map(w, m, ralts),) + base.parts)
        elif k['kind'] == 'linear':
            assume(m >= 0) if n is None else None
            mm = m if (n is None or ex is not None or core.entails(m >= 0)) else z3.If(m >= 0, m, z3.IntVal(0))
            new_store[key] = mkint(k['init'] + k['c'] * mm)
        elif k['kind'] == 'scalar':
            new_store[key] = finish_scalar(itp, key, k, nexts, store0, m, i, inr, outer)
        elif k['kind'] == 'havoc':
            if key[0] == 'H':
                raise Unsupported('heap state changed in a loop beyond description')
            new_store[key] = Seq((Opq(f'havoc:{tag}:{key[1]}'),))
        else:
            new_store[key] = POISON
    # locals first defined in the body
    for out, log, store, _ in nexts:
        for key in store:
            if key not in new_store and key[0] in ('L', 'G', 'K', 'M', 'exc') and key not in store0:
                if key[0] in ('L', 'exc'):
                    new_store[key] = POISON if key[0] == 'L' else None
                else:
                    raise Unsupported('global state created in a loop')
            elif key not in new_store and key[0] == 'H':
                raise Unsupported('heap field first written in a loop')
            elif key not in new_store and key[0] == 'F' and alloc_id(key) is not None and ('V', alloc_id(key)) in store0:
                raise Unsupported('field first written in a loop')
    if ex is not None:
        out, log, store, _ = ex
        # what the containers held when the last iteration started
        sb = Subst([(i, m)], exmap, {k['opq']: new_store[key].parts[len(store0[key].parts):] if k['kind'] == 'append' else new_store[key].parts[:len(new_store[key].parts) - len(store0[key].parts)]
                                          for key, k in kinds.items() if k['kind'] in ('append', 'prepend') and not k.get('uf') and k.get('opq')})
        for key, v in store.items():
            if alloc_id(key) is not None and alloc_id(key) in exmap:
                continue
            s0 = start.get(key, UNBOUND)
            k = kinds.get(key)
            if s0 is not UNBOUND and (v is s0 or same(v, s0)):
                continue
            if k is not None and k['kind'] in ('append', 'prepend'):
                d = sb.seq(k['delta'](v))
                new_store[key] = Seq(new_store[key].parts + d.parts) if k['kind'] == 'append' else Seq(d.parts + new_store[key].parts)
            elif k is not None and k['kind'] == 'havoc':
                pass
            else:
                new_store[key] = sb(v) if not isinstance(v, Poison) else v
        p.store = new_store
        kind_, val = out
        if kind_ == 'raise':
            raise PyRaise(sb(val))
        if kind_ == 'return':
            raise ReturnSig(sb(val))
        if kind_ == 'break':
            raise BreakSig()
        raise WhileExit()
    p.store = new_store

def sub1(t, a, b):
    return z3.substitute(t, (a, b)) if z3.is_expr(t) else t

def choose_exit(exits):
    return exits[core.choose(len(exits))]

def finish_scalar(itp, key, k, nexts, store0, m, i, inr, outer):
    sh = k['shape']
    init = store0[key]
    ph = k['start']
    at_i, at_i1 = ph(i), ph(z3.simplify(i + 1))
    if k.get('inv'):
        # an invariant supplied by the contract: established on entry, preserved by every iteration
        core.prove('loop invariant holds on entry', itp.to_u(ph(z3.IntVal(0))) == itp.to_u(init))
        for out, log, store, _ in nexts:
            extra = [f for t, f in log if t == 'f']
            core.prove('loop invariant is preserved', ForAll([i], Implies(And(inr, pathcond(log), *extra), itp.to_u(at_i1) == itp.to_u(store[key]))))
        return ph(z3.simplify(m if core.entails(m >= 0) else z3.If(m >= 0, m, z3.IntVal(0))))
    assume(shape_eq(itp, sh, ph(z3.IntVal(0)), init))
    changing = []
    for out, log, store, _ in nexts:
        v = store[key]
        g = pathcond(log)
        if same(v, at_i):
            assume(ForAll([i], Implies(And(inr, g), shape_eq(itp, sh, at_i1, as_shape(at_i)))))
        else:
            changing.append((g, v))
            assume(ForAll([i], Implies(And(inr, g), shape_eq(itp, sh, at_i1, v))))
    mm = m if core.entails(m >= 0) else z3.If(m >= 0, m, z3.IntVal(0))
    end = ph(z3.simplify(mm))
    # counters
    if sh == ('int',):
        d = deltas(key, k, nexts, i)
        if d is not None and set(d) <= {0, 1} and 1 in d:
            w = Or(*[pathcond(log) for (out, log, store, _), x in zip(nexts, d) if x == 1])
            c = count_term(m, i, [(w, None)])
            assume(end.t == zint(init) + c)
            return end
        mono = all(True for _ in ())
        if changing and all(entails_under(And(inr, g), zint(v) >= at_i.t) for g, v in changing if isinstance(v, (int, SInt))):
            a, b = freshvar('a'), freshvar('b')
            assume(ForAll([a], Implies(And(0 <= a, a <= m), And(zint(init) <= ph(a).t, ph(a).t <= end.t))))
            for g, v in changing:
                assume(ForAll([i], Implies(And(inr, g), zint(v) <= end.t)))
            assume(zint(init) <= end.t)
    # the best so far: None at first, then replaced only by something at least as long (large)
    if sh in (('opt', ('str',)), ('opt', ('int',))) and changing and all(v is not None and not isinstance(v, Opt) for _, v in changing):
        size = (lambda x: zint(x)) if sh[1] == ('int',) else (lambda x: core.fn('strlen', U, I)(itp.to_u(x)))
        for le in (lambda x, y: x <= y, lambda x, y: x >= y):
            if all(entails_under(And(inr, g, at_i.cond), le(size(at_i.val), size(v))) for g, v in changing):
                a = freshvar('a')
                assume(ForAll([a], Implies(And(0 <= a, a <= m, ph(a).cond), And(end.cond, le(size(ph(a).val), size(end.val))))))
                for g, v in changing:
                    assume(ForAll([i], Implies(And(inr, g), And(end.cond, le(size(v), size(end.val))))))
                break
    # a text built piece by piece
    if sh == ('str',) and changing and not isinstance(init, SAny):
        alts = []
        for out, log, store, _ in nexts:
            v = store[key]
            if same(v, at_i): continue
            ps = itp.str_parts(v) if isinstance(v, SStr) else []
            if not ps or not z3.is_expr(ps[0]) or not ps[0].eq(at_i.t) or any(z3.is_expr(q) and q.eq(at_i.t) for q in ps[1:]): break
            alts.append((pathcond(log), Seq([Lit(itp.fmt([q if isinstance(q, str) else SStr(q) for q in ps[1:]]))])))
        else:
            if len(alts) == 1 and len(nexts) == 1: alts = [(True, alts[0][1])]
            from .interp import CONTRACTS, NOT
            h = CONTRACTS.get('str_join')
            seq = Seq(([] if init == '' and isinstance(init, str) else [Lit(init)]) + [Map(i, m, alts)])
            r = h(itp, '', seq) if h and not outer else NOT
            if isinstance(r, SStr):
                assume(end.t == r.t)
                return r
    # last writer
    W = Or(*[g for g, _ in changing])
    kk = fresh('lw', I)
    s = Subst([(i, kk)])
    assume(Implies(ForAll([i], Implies(inr, Not(W))), shape_eq(itp, sh, end, init)))
    jj = freshvar('j')
    some = Exists([i], And(inr, W))
    assume(Implies(some, And(rng(kk, m), s.z(W), ForAll([jj], Implies(And(jj > kk, jj < m), Not(sub1(W, i, jj)))),
                             *[Implies(s.z(g), s.z(shape_eq(itp, sh, as_ph(end), v))) for g, v in changing])))
    # constant writes of one value
    vs = [v for _, v in changing]
    if vs and all(not isinstance(v, V) for v in vs) and all(same(v, vs[0]) for v in vs):
        assume(Implies(some, shape_eq(itp, sh, end, vs[0])))
        if sh[0] in ('bool', 'opt'):
            a = freshvar('a')
            assume(ForAll([a], Implies(And(0 <= a, a <= m),
                   z3.If(Exists([jj], And(0 <= jj, jj < a, sub1(W, i, jj))), tb(shape_eq(itp, sh, ph(a), vs[0])), tb(shape_eq(itp, sh, ph(a), init))))))
    return end

def as_shape(v): return v
def as_ph(v): return v

def entails_under(g, c):
    if isinstance(c, bool): return c
    return core.entails(Implies(g, c), 1000)
