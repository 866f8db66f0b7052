"""P06, P07: JSON document nodes as trees, and their mutation."""
from .textspec import *
from .seqspec import *
from .env import contract
import collections.abc as cabc
import ast, functools, inspect
import jschon.json as JM
from pyvc.interp import func_ast

jvalue = fn('jvalue', U, U)
v_kind = fn('py_kind', U, I)                 # 0 mapping, 1 sequence, 2 something else
v_len = fn('py_len', U, I); v_at = fn('py_at', U, I, U); v_name = fn('py_name', U, I, U)
node_of = fn('node_of', U, U, U, U)          # the node built for a value, under a parent and a key
incompat = fn('incompatible', U, B)

def wrapval(t): return Opaque(t, 'pyvalue')
def py_isinstance(itp, v, c):
    if isinstance(v, Opaque) and v.what in ('pyvalue', 'jsonvalue'):
        t = v.t
        if c in (cabc.Mapping, dict, cabc.MutableMapping): return mkbool(v_kind(t) == 0) if c is cabc.Mapping else mkbool(And(v_kind(t) == 0, fn('exactly:' + c.__name__, U, B)(t)))
        if c in (cabc.Sequence, list, tuple, cabc.MutableSequence): return mkbool(v_kind(t) == 1) if c is cabc.Sequence else mkbool(And(v_kind(t) == 1, fn('exactly:' + c.__name__, U, B)(t)))
        if c in (str, bool, int, float, type(None)): return False
        if isinstance(c, type) and issubclass(c, JSON): return False
        raise Unsupported(f'isinstance of a plain value with {c}')
    if isinstance(v, ClassV): return c in (type, object)
    return NOT

def jsetup(itp):
    core.CUR.opts['isinstance'] = py_isinstance
    core.CUR.opts['texts'] = True
    core.CUR.opts['narrow_facts'] = []
    for n in ('built', 'invpath', 'invvalue', 'order'): init_log(n)
    core.CUR.store[('H', 'key')] = EMPTY
    core.CUR.store[('H', 'parent')] = EMPTY
    METHODS[('opaque:pyvalue', '__iter__')] = lambda itp, o, a, kw: py_iter(itp, o)
    METHODS[('opaque:pyvalue', 'items')] = lambda itp, o, a, kw: View('items', o, mk_map(plen(o), lambda v: (SStr(v_name(o.t, v)), wrapval(v_at(o.t, v)))))
    METHODS[('opaque:pyvalue', 'keys')] = lambda itp, o, a, kw: View('seq', None, mk_map(plen(o), lambda v: SStr(v_name(o.t, v))))
    METHODS[('opaque:pyvalue', 'values')] = lambda itp, o, a, kw: View('seq', None, mk_map(plen(o), lambda v: wrapval(v_at(o.t, v))))
    METHODS[('opaque:pyvalue', '__len__')] = lambda itp, o, a, kw: mkint(plen(o))
    METHODS[('opaque:pyvalue', '__getitem__')] = lambda itp, o, a, kw: py_getitem(itp, o, a[0])
    ATTRS[('opaque', 'pyvalue')] = lambda itp, o, name: BoundM(o, HostFn(lambda itp, a, kw: METHODS[('opaque:pyvalue', name)](itp, a[0], a[1:], kw), name), name) if ('opaque:pyvalue', name) in METHODS else (_ for _ in ()).throw(Unsupported('attribute of a plain value'))
    CLASSCALL[JSON] = new_node
    itp.local_contracts[JSON._invalidate_path] = lambda itp, a, kw: log_app(itp, 'invpath', a[0]) if isinstance(a[0], SObj) else NOT
    itp.local_contracts[JSON._invalidate_value] = inv_value
    ATTRS[(JSON, 'value')] = node_value

def inv_value(itp, a, kw):
    if not isinstance(a[0], SObj): return NOT
    log_app(itp, 'invvalue', a[0])

def plen(o):
    assume(v_len(o.t) >= 0)
    return v_len(o.t)
def py_iter(itp, o):
    if branch(v_kind(o.t) == 1): return mk_map(plen(o), lambda v: wrapval(v_at(o.t, v)))
    if branch(v_kind(o.t) == 0): return mk_map(plen(o), lambda v: SStr(v_name(o.t, v)))
    raise Unsupported('iteration of a plain value')
def py_getitem(itp, o, k):
    if branch(v_kind(o.t) == 1):
        return itp.seq_getitem(View('seq', None, py_iter(itp, o)), k)
    if branch(v_kind(o.t) == 0) and isinstance(k, (SStr, str)):
        t = itp.to_u(k)
        if z3.is_app(t) and t.decl().eq(v_name) and t.arg(0).eq(o.t):
            return wrapval(v_at(o.t, t.arg(1)))        # the keys of a mapping are distinct
        i = fresh('at', I)
        if branch(seq_exists(mk_map(plen(o), lambda v: SStr(v_name(o.t, v))), lambda e: itp.eq(e, k))):
            assume(0 <= i, i < plen(o), v_name(o.t, i) == t)
            return wrapval(v_at(o.t, i))
        raise PyRaise(KeyError(k))
    raise Unsupported('subscript of a plain value')

def node_value(itp, o):
    """JSON.value of another node: a plain value; reading it may fill caches of that node"""
    log_app(itp, 'order', ('read', o))
    return wrapval(jvalue(o.t))

def new_node(itp, a, kw, f=None):
    """contract of the item constructor (P06): a node with this parent, key and
    value, or TypeError; the caller's keyword arguments are recorded"""
    if core.CUR.opts.get('real_init') and f is None: return NOT
    kw = dict(kw)
    v = a[0] if a else kw.pop('value')
    parent, key = kw.pop('parent', None), kw.pop('key', None)
    vt = itp.to_u(v)
    if core.CUR.opts.get('may_fail') and branch(incompat(vt)): itp.throw(TypeError, 'not JSON-compatible')
    t = node_of(vt, itp.to_u(parent), itp.to_u(key))
    assume(jvalue(t) == vt, fn('isnew', U, B)(t))
    if parent is not None: assume(jhasparent(t), jparent(t) == itp.to_u(parent), jkeyof(t) == itp.to_u(key))
    log_app(itp, 'built', (View('args', (f if f is not None else JSON, dict(kw))), SObj(t, JSON)))
    return SObj(t, JSON)

def kid_key(itp, o):
    """tree invariant (P06): item i of an array has key str(i)"""
    t = o.t
    me = core.CUR.opts.get('me')
    if me is not None and z3.is_app(t) and t.decl().name() == 'jchild' and t.arg(0).eq(me[0]):
        return SStr(itp.istr(t.arg(1))) if me[1] == 'array' else SStr(jkey(me[0], t.arg(1)))
    return Opt(jhasparent(t), SStr(jkeyof(t)))
def kid_parent(itp, o):
    t = o.t
    me = core.CUR.opts.get('me')
    if me is not None and z3.is_app(t) and t.decl().name() == 'jchild' and t.arg(0).eq(me[0]): return me[2]
    if me is not None and core.entails(jparent(t) == itp.to_u(me[2])): return me[2]
    return Opt(jhasparent(t), SObj(jparent(t), JSON))
ATTRS[(JSON, 'key')] = kid_key
ATTRS[(JSON, 'parent')] = kid_parent
CONTRACTS.pop(JSON.__str__, None)

def sym_node(itp, ty, cached=True):
    """an arbitrary node of the given type, anywhere in a document, with an
    arbitrary state of its caches; its tree invariant holds"""
    t = z3.Const('self', U)
    o = itp.alloc_inst(JSON)
    i, j = freshvar('i'), freshvar('j')
    assume(jlen(t) >= 0)
    me = [t, ty, o]
    core.CUR.opts['me'] = me
    itp.set_field(o, 'type', ty)
    # items are distinct nodes
    pos = fn('posof', U, I)
    assume(ForAll([i], Implies(rng(i, jlen(t)), And(pos(jchild(t, i)) == i, fn('isnew', U, B)(jchild(t, i)) == False)), patterns=[jchild(t, i)]))
    if ty == 'array':
        c = itp.new_cont('list', mk_map(jlen(t), lambda v: SObj(jchild(t, v), JSON)))
    elif ty == 'object':
        assume(ForAll([i], Implies(rng(i, jlen(t)), kind(jkey(t, i)) == core.STR), patterns=[jkey(t, i)]))
        c = itp.new_cont('dict', mk_map(jlen(t), lambda v: (SStr(jkey(t, v)), SObj(jchild(t, v), JSON))))
    else: c = {'null': None, 'boolean': SBool(jbool(t)), 'number': SNum(jnum(t), jisint(t)), 'string': SStr(jstr(t))}[ty]
    itp.set_field(o, 'data', c)
    hp = z3.Bool('has_parent')
    par = SObj(z3.Const('parent', U), JSON)
    itp.set_field(o, 'parent', par if branch(hp) else None)
    itp.set_field(o, 'key', SStr(z3.Const('own_key', U)))
    icls = ClassV(z3.Const('itemclass', U), JSON)
    itp.set_field(o, 'itemclass', icls)
    ikw = itp.new_cont('dict', Seq([Opq('itemkwargs')]))
    itp.set_field(o, 'itemkwargs', ikw)
    if cached and branch(z3.Bool('caches_filled_before')):
        itp.set_field(o, 'path', Opaque(z3.Const('cached_path', U), 'path'))
        itp.set_field(o, 'value', Opaque(z3.Const('cached_value', U), 'jsonvalue'))
    return o, t, c, par, icls, ikw

def cached(itp, o, name): return itp.get_field(o, name) is not UNBOUND

def built_right(itp, what, o, icls, ikw):
    """items are built with the node's item class and keyword arguments"""
    for p in get_log('built').parts:
        es = [p.v] if isinstance(p, Lit) else [q.v for g, s in p.alts for q in s.parts if isinstance(q, Lit)] if isinstance(p, Map) else []
        prove(f'{what}: items are built by the item class with its keyword arguments', bool(es) and all(
            (isinstance(e[0].obj[0], ClassV) and e[0].obj[0].t.eq(icls.t)) and set(e[0].obj[1]) == {'**'} and same_dict(itp, e[0].obj[1]['**'], ikw) for e in es))

def generic_item(itp, o, ty):
    """an arbitrary item of the node as it is now: (position, name or None, node)"""
    d = itp.getattr(o, 'data')
    s = itp.content(d)
    off = z3.IntVal(0)
    parts = list(s.parts)
    if not parts: raise core.Infeasible()
    for n, p in enumerate(parts):
        last = n == len(parts) - 1
        pick = last or branch(z3.Bool(f'pick{n}'))
        if isinstance(p, Lit): k, v, ln = off, p.v, z3.IntVal(1)
        elif is_pure(p) or (len(p.alts) == 1 and len(p.alts[0][1].parts) == 1):
            i = z3.Int(f'item{n}')
            g, sub = inst_part(p, i)[0]
            ln = z3.If(p.n >= 0, p.n, z3.IntVal(0))
            k, v = z3.simplify(off + i), sub.parts[0].v
            if pick: assume(i >= 0, i < p.n, tb(g))
        else: raise Unsupported('items of unknown structure')
        if pick:
            return (k, None, v) if ty == 'array' else (k, v[0], v[1])
        off = z3.simplify(off + ln)

def tree_ok(itp, what, o, ty):
    """every item: right parent and key; a moved item has lost its cached path"""
    k, nm, v = generic_item(itp, o, ty)
    if not isinstance(v, SObj): prove(f'{what}: items are nodes', False, repr(v)); return
    key, par = itp.getattr(v, 'key'), itp.getattr(v, 'parent')
    want = itp.istr(k) if ty == 'array' else itp.to_u(nm)
    prove(f'{what}: every item has its own index or name as key', itp.to_u(key) == want, f'{key} at {k}')
    prove(f'{what}: every item has the node as parent', tb(itp.is_(par, o)) if isinstance(par, (Inst, Opt)) else itp.to_u(par) == itp.to_u(o), repr(par))
    me = core.CUR.opts['me']
    if z3.is_app(v.t) and v.t.decl().name() == 'jchild' and v.t.arg(0).eq(me[0]):
        old = itp.istr(v.t.arg(1)) if ty == 'array' else jkey(me[0], v.t.arg(1))
        moved = want != old
        inv = seq_exists(get_log('invpath'), lambda e: e.t == v.t)
        prove(f'{what}: an item that moved forgets its path and those below it', Implies(moved, tb(inv)))

def caches_ok(itp, what, o, par):
    prove(f'{what}: the node forgets its value', not cached(itp, o, 'value'))
    if itp.get_field(o, 'parent') is not None:
        prove(f'{what}: and so do its ancestors', tb(seq_exists(get_log('invvalue'), lambda e: e.t == par.t)))
        # values read after the ancestors forgot theirs would be remembered
        ev = get_log('order')

def untouched(itp, what, o, t, ty, c0, fields):
    """nothing about the node changed"""
    d = itp.getattr(o, 'data')
    prove(f'{what}: same data', isinstance(d, Cont) and d.id == c0.id)
    want = mk_map(jlen(t), lambda v: SObj(jchild(t, v), JSON)) if ty == 'array' else mk_map(jlen(t), lambda v: (SStr(jkey(t, v)), SObj(jchild(t, v), JSON)))
    prove_seq(itp, f'{what}: unchanged', itp.content(d), want)
    prove(f'{what}: no key changed', not core.CUR.store[('H', 'key')].parts and not core.CUR.store[('H', 'parent')].parts)
    same_fields(itp, what, o, fields)

def same_dict(itp, d, e):
    """the same dictionary, or one with the same entries"""
    if not (isinstance(d, Cont) and isinstance(e, Cont) and d.kind == e.kind == 'dict'): return False
    p, q = itp.content(d).parts, itp.content(e).parts
    return d.id == e.id or len(p) == len(q) and all(x is y for x, y in zip(p, q))

def same_fields(itp, what, o, fields):
    for k, v in fields.items():
        w = itp.get_field(o, k)
        prove(f'{what}: {k} unchanged', w is v or same_dict(itp, w, v) or (isinstance(w, V) and isinstance(v, V) and type(w) is type(v) and itp.to_u(w).eq(itp.to_u(v))))

def fields_of(itp, o, *names): return {k: itp.get_field(o, k) for k in names}
OWN = ('type', 'parent', 'key', 'itemclass', 'itemkwargs')

# ------------------------------------------------------------------ P06
def construction(label, mk, ty):
    @contract('P06', f'construct from {label}', 'JSON.__init__', 'JSON.value', 'JSON.__len__', 'JSON.__iter__', 'JSON.__getitem__')
    def scen():
        itp = Interp(); jsetup(itp)
        core.CUR.opts['real_init'] = True
        v = mk()
        icls = ClassV(z3.Const('itemclass', U), JSON)
        ikw = itp.new_cont('dict', Seq([Opq('itemkwargs')]))
        par = SObj(z3.Const('parent', U), JSON); key = SStr(z3.Const('own_key', U))
        dflt = branch(z3.Bool('default_itemclass'))
        kw = {} if dflt else dict(itemclass=icls)
        placed = branch(z3.Bool('placed'))
        if placed: kw.update(parent=par, key=key)
        kw['**'] = ikw
        core.CUR.opts['real_init'] = 0
        o = itp.alloc_inst(JSON)
        core.CUR.opts['me'] = None
        _, exc = run_contract(lambda: itp.call(JSON.__init__, [o, v], kw))
        if ty is None:
            prove('rejected with TypeError', exc is not None and exc_class(exc) is TypeError, repr(exc))
            return
        no_exception('construction', exc)
        prove('type', itp.get_field(o, 'type') == ty, str(itp.get_field(o, 'type')))
        prove('parent and key', (itp.is_(itp.get_field(o, 'parent'), par) if placed else itp.get_field(o, 'parent') is None) if True else None)
        if placed: prove('own key', itp.to_u(itp.get_field(o, 'key')) == key.t)
        k = itp.get_field(o, 'itemkwargs')
        prove('item keyword arguments are kept', same_dict(itp, k, ikw))
        ic = itp.get_field(o, 'itemclass')
        prove('item class is kept', ic is JSON if dflt else isinstance(ic, ClassV) and ic.t.eq(icls.t))
        prove('nothing is cached yet', not cached(itp, o, 'value') and not cached(itp, o, 'path'))
        d = itp.get_field(o, 'data')
        if ty in ('array', 'object'):
            n = v_len(v.t)
            prove('length', zint(itp.length(o)) == n)
            prove('data is a new container', isinstance(d, Cont) and d.kind == ('list' if ty == 'array' else 'dict'))
            if not isinstance(d, Cont): return
            # order and number of items
            i = z3.Int('item'); assume(i >= 0, i < n)
            def at(s):
                pu = as_pure(s)
                if pu is None: raise Unsupported('data of unknown structure')
                prove('as many items', pu[0] == n)
                return pu[1](i)
            e = at(itp.content(d))
            if ty == 'object':
                prove('member names in order', itp.to_u(e[0]) == v_name(v.t, i))
                e = e[1]
            prove('item is a node', isinstance(e, SObj))
            prove('item parent', jparent(e.t) == itp.to_u(o))
            prove('item key', jkeyof(e.t) == (itp.istr(i) if ty == 'array' else v_name(v.t, i)))
            prove('item value', jvalue(e.t) == v_at(v.t, i))
            for p in get_log('built').parts:
                es = [q.v for g, s in p.alts for q in s.parts] if isinstance(p, Map) else [p.v]
                prove('items are built by the item class with its keyword arguments', all(
                    (x[0].obj[0] is JSON if dflt else isinstance(x[0].obj[0], ClassV) and x[0].obj[0].t.eq(icls.t)) and set(x[0].obj[1]) == {'**'} and same_dict(itp, x[0].obj[1]['**'], ikw) for x in es))
            # access
            it = itp.iterate(o)
            prove_seq(itp, 'iteration', it, mk_map(n, lambda j: SObj(jchildof(itp, d, j), JSON)) if ty == 'array' else mk_map(n, lambda j: SStr(v_name(v.t, j))))
            if ty == 'array':
                x, exc = run_contract(lambda: itp.getitem(o, SInt(i)))
                no_exception('indexing', exc)
                prove('indexing', itp.to_u(x) == itp.to_u(e))
        else:
            prove('data is the value', d is v or itp.to_u(d).eq(itp.to_u(v)) and type(d) is type(v))
        # reported value
        r, exc = run_contract(lambda: itp.getattr(o, 'value'))
        no_exception('value', exc)
        if ty == 'array':
            prove('value is a list', isinstance(r, Cont) and r.kind == 'list')
            prove_seq(itp, 'value', itp.content(r), mk_map(v_len(v.t), lambda j: wrapval(v_at(v.t, j))))
        elif ty == 'object':
            prove('value is a dict', isinstance(r, Cont) and r.kind == 'dict')
            prove_seq(itp, 'value', itp.content(r), mk_map(v_len(v.t), lambda j: (SStr(v_name(v.t, j)), wrapval(v_at(v.t, j)))))
        else: prove('value', r is v or (type(r) is type(v) and itp.to_u(r).eq(itp.to_u(v))))
    return scen
def jchildof(itp, d, j):
    return as_pure(itp.content(d))[1](j).t

def opq_value(k):
    def mk():
        t = z3.Const('value', U)
        assume(v_kind(t) == k)
        return wrapval(t)
    return mk
construction('null', lambda: None, 'null')
construction('a boolean', lambda: SBool(z3.Bool('value')), 'boolean')
construction('an integer or float', lambda: SNum(z3.Real('value'), z3.Bool('isint')), 'number')
construction('a string', lambda: _sstr('value'), 'string')
construction('a sequence', opq_value(1), 'array')
construction('a mapping', opq_value(0), 'object')
construction('any other object', opq_value(2), None)
def _sstr(n):
    s = SStr(z3.Const(n, U)); assume(kind(s.t) == core.STR); return s

@contract('P06', 'path', 'JSON.path')
def path():
    itp = Interp(); jsetup(itp)
    core.CUR.opts['me'] = None
    anc = fn('ancestor', U, I, U); i = freshvar('i'); depth = z3.Int('depth')
    t = z3.Const('node', U)
    assume(depth >= 0, anc(t, z3.IntVal(0)) == t,
           ForAll([i], Implies(And(i >= 0, i <= depth), jhasparent(anc(t, i)) == (i < depth)), patterns=[anc(t, i)]),
           ForAll([i], Implies(And(i >= 0, i < depth), anc(t, i + 1) == jparent(anc(t, i))), patterns=[anc(t, i)]))
    core.CUR.opts['loop_inv'] = [lambda itp, init, v: (lambda j: SObj(anc(t, j), JSON)) if isinstance(init, SObj) and init.t.eq(t) else None]
    def newptr(itp, a, kw):
        s = Seq([])
        for x in a: s = s + (x.seq if isinstance(x, View) and x.kind == 'pointer' else itp.iterate(x))
        if kw or any(isinstance(x, (str, SStr)) for x in a): raise Unsupported('JSONPointer()')
        return View('pointer', None, s)
    CLASSCALL[JSONPointer] = newptr
    def div(itp, a, kw):
        """pointer / key (contract of P03)"""
        if not (isinstance(a[0], View) and a[0].kind == 'pointer') or not isinstance(a[1], (str, SStr)): return NOT
        return View('pointer', None, a[0].seq + lits([a[1]]))
    METHODS[('view:pointer', '__truediv__')] = lambda itp, o, a, kw: div(itp, [o, *a], kw)
    def above(itp, o):
        """the path of a node further up"""
        k = o.t.arg(1) if z3.is_app(o.t) and o.t.decl().eq(anc) else None
        if k is None: k = z3.IntVal(1) if core.entails(o.t == anc(t, z3.IntVal(1))) else None
        if k is None or not core.entails(And(k >= 1, k <= depth)): raise Unsupported('the path is defined by itself')
        return View('pointer', None, mk_map(depth - k, lambda j: SStr(jkeyof(anc(t, z3.simplify(depth - 1 - j))))))
    ATTRS[(JSON, 'path')] = above
    d = JSON.__dict__['path']
    r, exc = run_contract(lambda: itp.call(d.func if isinstance(d, functools.cached_property) else d.fget, [SObj(t, JSON)]))
    no_exception('path', exc)
    prove('a pointer is returned', isinstance(r, View) and r.kind == 'pointer')
    if isinstance(r, View): prove_seq(itp, 'the keys from the root down to the node', r.seq, mk_map(depth, lambda j: SStr(jkeyof(anc(t, z3.simplify(depth - 1 - j))))))
