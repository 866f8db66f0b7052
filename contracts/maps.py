"""Mutable mappings of arbitrary content, as arrays: one level (name -> value)
and two levels (name -> dict of its own).  Dict operations by their Python
semantics; inner dicts are references, no two names share one."""
from .model import *

AB = z3.ArraySort(U, B); AU = z3.ArraySort(U, U)
owner = fn('dict_owner', U, U); age = fn('dict_age', U, I)
class M: pass

def state(name): return core.CUR.store[('SM', name)]
def setstate(name, st): core.CUR.store[('SM', name)] = st
def wrapper(name): return core.CUR.opts['symwrap'][name]

def new_map(name, wrap, empty=False, pre=''):
    """a View on a mapping with arbitrary (or no) content; wrap: (getter term -> value, setter value -> term)"""
    core.CUR.opts.setdefault('symwrap', {})[name] = wrap
    setstate(name, (z3.K(U, z3.BoolVal(False)) if empty else z3.Const(f'dom:{name}', AB), z3.Const(f'val:{name}', AU)))
    return View('symmap', name)

def key(itp, k):
    if isinstance(k, Opt): k = k.val if branch(k.cond) else None
    if isinstance(k, Cont): itp.throw(TypeError, 'unhashable')
    return itp.to_u(k)

def put(name, k, v):
    d, a = state(name); setstate(name, (z3.Store(d, k, z3.BoolVal(True)), z3.Store(a, k, v)))
def drop(name, k):
    d, a = state(name); setstate(name, (z3.Store(d, k, z3.BoolVal(False)), a))

def install(kind, has, get, put, drop):
    m = METHODS
    def K(n): return ('view:' + kind, n)
    m[K('__contains__')] = lambda itp, o, a, kw: has(o, key(itp, a[0]))
    def getitem(itp, o, a, kw):
        k = key(itp, a[0])
        if not branch(has(o, k)): raise PyRaise(KeyError(a[0]))
        return get(itp, o, k)
    m[K('__getitem__')] = getitem
    def get_(itp, o, a, kw):
        k = key(itp, a[0])
        return get(itp, o, k) if branch(has(o, k)) else (a[1] if len(a) > 1 else None)
    m[K('get')] = get_
    m[K('__setitem__')] = lambda itp, o, a, kw: put(itp, o, key(itp, a[0]), a[1])
    def delitem(itp, o, a, kw):
        k = key(itp, a[0])
        if not branch(has(o, k)): raise PyRaise(KeyError(a[0]))
        drop(o, k)
    m[K('__delitem__')] = delitem
    def setdefault(itp, o, a, kw):
        k = key(itp, a[0])
        if not branch(has(o, k)): put(itp, o, k, a[1] if len(a) > 1 else None)
        return get(itp, o, k)
    m[K('setdefault')] = setdefault
    def pop(itp, o, a, kw):
        k = key(itp, a[0])
        if branch(has(o, k)):
            v = get(itp, o, k); drop(o, k); return v
        if len(a) > 1: return a[1]
        raise PyRaise(KeyError(a[0]))
    m[K('pop')] = pop
    def update(itp, o, a, kw):
        for x in a:
            if not isinstance(x, Cont): raise Unsupported('update')
            for k, v in lit_items(itp, x): put(itp, o, key(itp, k), v)
    m[K('update')] = update
    m[K('keys')] = lambda itp, o, a, kw: o

def lit_items(itp, c):
    s = itp.content(c)
    if c.kind != 'dict' or not all(isinstance(p, Lit) for p in s.parts): raise Unsupported('dict of unknown content')
    return [p.v for p in s.parts]

install('symmap', lambda o, k: z3.Select(state(o.obj)[0], k), lambda itp, o, k: wrapper(o.obj)[0](itp, z3.Select(state(o.obj)[1], k)),
        lambda itp, o, k, v: put(o.obj, k, wrapper(o.obj)[1](itp, v)), lambda o, k: drop(o.obj, k))

# ---- the inner dicts: objects of a heap (reference -> content)
def heap(): return core.CUR.store[('SM', 'heap')]
def set_heap(e, v): core.CUR.store[('SM', 'heap')] = (e, v)
def inner_has(r, k): return z3.Select(z3.Select(heap()[0], r), k)
def inner_val(r, k): return z3.Select(z3.Select(heap()[1], r), k)
def inner_put(r, k, v):
    e, a = heap()
    set_heap(z3.Store(e, r, z3.Store(z3.Select(e, r), k, z3.BoolVal(True))), z3.Store(a, r, z3.Store(z3.Select(a, r), k, v)))
def inner_drop(r, k):
    e, a = heap(); set_heap(z3.Store(e, r, z3.Store(z3.Select(e, r), k, z3.BoolVal(False))), a)
def vwrap(): return core.CUR.opts['symwrap']['inner']
install('symref', lambda o, k: inner_has(o.obj.t, k), lambda itp, o, k: vwrap()[0](itp, inner_val(o.obj.t, k)),
        lambda itp, o, k, v: inner_put(o.obj.t, k, vwrap()[1](itp, v)), lambda o, k: inner_drop(o.obj.t, k))

def new_ref():
    r = fresh('newdict', U)
    n = core.CUR.opts['dict_age'] = core.CUR.opts.get('dict_age', 0) + 1
    assume(age(r) == n)
    return r
def adopt(itp, v):
    """the reference of a dict stored in the outer mapping"""
    if isinstance(v, View) and v.kind == 'symref': return v.obj.t
    if isinstance(v, Cont) and v.kind == 'dict':
        items = lit_items(itp, v)
        r = new_ref()
        e, a = heap()
        set_heap(z3.Store(e, r, z3.K(U, z3.BoolVal(False))), a)
        for k, x in items: inner_put(r, key(itp, k), vwrap()[1](itp, x))
        itp.set_content(v, Seq([Opq('moved into a mapping')]))
        return r
    raise Unsupported(f'a mapping of {v!r}')

def new_map2(name, wrap):
    o = new_map(name, (lambda itp, t: View('symref', SAny(t)), adopt))
    core.CUR.opts['symwrap']['inner'] = wrap
    core.CUR.store[('SM', 'heap')] = (z3.Const('heap:dom', z3.ArraySort(U, AB)), z3.Const('heap:val', z3.ArraySort(U, AU)))
    separate(name)
    return o
def separate(name):
    """class invariant: every name has a dict of its own"""
    c = z3.Const('sep_c', U); a = state(name)[1]
    assume(ForAll([c], And(owner(z3.Select(a, c)) == c, age(z3.Select(a, c)) <= core.CUR.opts.get('dict_age', 0)), patterns=[z3.Select(a, c)]))

def snap2(name): return state(name), heap()
def look2(s, c, k):
    (d, a), (e, v) = s
    r = z3.Select(a, c)
    return And(z3.Select(d, c), z3.Select(z3.Select(e, r), k)), z3.Select(z3.Select(v, r), k)
def look1(s, k): return z3.Select(s[0], k), z3.Select(s[1], k)
def prove_own(name, what='every cache has a dict of its own'):
    c, e = z3.Const('own_c', U), z3.Const('own_e', U)
    d, a = state(name)
    prove(what, ForAll([c, e], Implies(And(z3.Select(d, c), z3.Select(d, e), c != e), z3.Select(a, c) != z3.Select(a, e))))
def havoc2(name):
    """anything may have happened to the mapping"""
    n = core.CUR.opts['havocs'] = core.CUR.opts.get('havocs', 0) + 1
    setstate(name, (z3.Const(f'dom{n}:{name}', AB), z3.Const(f'val{n}:{name}', AU)))
    set_heap(z3.Const(f'heap{n}:dom', z3.ArraySort(U, AB)), z3.Const(f'heap{n}:val', z3.ArraySort(U, AU)))
    separate(name)

def changed2(name, before, what, spec):
    """the mapping is the old one with spec(c, k, has, val) -> (has, val)"""
    c, k = z3.Const('any_cache', U), z3.Const('any_uri', U)
    h0, v0 = look2(before, c, k); h1, v1 = look2(snap2(name), c, k)
    h, v = spec(c, k, h0, v0)
    prove(what, ForAll([c, k], And(h1 == h, Implies(h1, v1 == v))))
def changed1(name, before, what, spec):
    k = z3.Const('any_key', U)
    h0, v0 = look1(before, k); h1, v1 = look1(state(name), k)
    h, v = spec(k, h0, v0)
    prove(what, ForAll([k], And(h1 == h, Implies(h1, v1 == v))))
