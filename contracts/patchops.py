"""P11, P12: the patch operations, over mutable plain documents.  A document is
known by its containers; mutations are logged, and every observation is made
at the number of mutations that have happened so far."""
from .ptrspec import *
from .jsonnode import func_ast
import ast
import jschon.jsonpatch as JP
from jschon.jsonpatch import JSONPatch, JSONPatchOperation, PatchOp

d_kind = fn('doc_kind', U, I)                       # 0 dict, 1 list, 2 null/boolean/number, 3 string
d_len = fn('doc_len', I, U, I); d_at = fn('doc_at', I, U, I, U)
d_has = fn('doc_has', I, U, U, B); d_get = fn('doc_get', I, U, U, U)
e_ok = fn('resolves', I, U, U, B); e_val = fn('value_at', I, U, U, U)
deep = fn('deep_copy', U, U)
jsonof = fn('json_of', U, U)

def plain(t):
    assume(d_kind(t) >= 0, d_kind(t) <= 3)
    return Opaque(t, 'plain')

def events():
    s = get_log('events')
    if any(not isinstance(p, Lit) for p in s.parts): raise Unsupported('mutation in a loop')
    return [p.v for p in s.parts]
def now(): return z3.IntVal(len(events()))

def is_plain(v): return isinstance(v, Opaque) and v.what == 'plain'
def kind_is(t, k): return branch(d_kind(t) == k)

def doc_isinstance(itp, v, c):
    if not is_plain(v): return NOT
    k = d_kind(v.t)
    for cs, f in (((cabc.Sequence, cabc.Collection, cabc.Sized, cabc.Iterable, cabc.Reversible), None), ((cabc.MutableSequence, list), k == 1), ((cabc.Mapping, cabc.MutableMapping, dict), k == 0), ((str,), k == 3), ((tuple, set, JSON), z3.BoolVal(False)),
                  ((bool, int, float, type(None)), 0)):
        if c in cs:
            if f is None: f = Or(k == 1, k == 3) if c in (cabc.Sequence, cabc.Reversible) else k != 2
            if isinstance(f, int): f = And(k == 2, fn('scalar:' + c.__name__, U, B)(v.t))
            return mkbool(f)
    raise Unsupported(f'isinstance of a document with {c}')

def length(o):
    if branch(Or(d_kind(o.t) == 0, d_kind(o.t) == 1)):
        n = d_len(now(), o.t); assume(n >= 0, n < MAXLEN); return n
    if kind_is(o.t, 3): return fn('strlen', U, I)(o.t)
    raise PyRaise(TypeError('object has no len()'))
def contains(itp, o, k):
    if kind_is(o.t, 0): return d_has(now(), o.t, itp.to_u(k))
    raise Unsupported('membership in a list')
def getitem(itp, o, k):
    if kind_is(o.t, 0):
        if not branch(d_has(now(), o.t, itp.to_u(k))): raise PyRaise(KeyError(k))
        return plain(d_get(now(), o.t, itp.to_u(k)))
    if kind_is(o.t, 1): return plain(d_at(now(), o.t, index(itp, o, k)))
    raise PyRaise(TypeError('not subscriptable'))
def index(itp, o, k):
    if not isinstance(k, (int, SInt)): raise PyRaise(TypeError('list indices must be integers')) if not isinstance(k, (slice, View)) else Unsupported('slice of a list')
    n = d_len(now(), o.t); assume(n >= 0, n < MAXLEN)
    k = zint(k)
    if branch(k < 0): k = k + n
    if not branch(And(k >= 0, k < n)): raise PyRaise(IndexError('list index out of range'))
    return z3.simplify(k)
def event(what, o, k, v=None): log_app(None, 'events', (what, o.t, k, v))
def setitem(itp, o, k, v):
    if kind_is(o.t, 0): return event('setkey', o, itp.to_u(k), itp.to_u(v))
    if kind_is(o.t, 1): return event('setindex', o, index(itp, o, k), itp.to_u(v))
    raise PyRaise(TypeError('no item assignment'))
def delitem(itp, o, k):
    if kind_is(o.t, 0):
        if not branch(d_has(now(), o.t, itp.to_u(k))): raise PyRaise(KeyError(k))
        return event('delkey', o, itp.to_u(k))
    if kind_is(o.t, 1): return event('delindex', o, index(itp, o, k))
    raise PyRaise(TypeError('no item deletion'))
def insert(itp, o, k, v):
    if not kind_is(o.t, 1): raise PyRaise(AttributeError('insert'))
    n = d_len(now(), o.t); assume(n >= 0, n < MAXLEN)
    k = zint(k)
    if branch(k < 0): k = z3.If(k + n < 0, z3.IntVal(0), k + n)
    elif branch(k > n): k = n
    event('insert', o, z3.simplify(k), itp.to_u(v))
def append(itp, o, v):
    if not kind_is(o.t, 1): raise PyRaise(AttributeError('append'))
    n = d_len(now(), o.t); assume(n >= 0, n < MAXLEN)
    event('insert', o, n, itp.to_u(v))
def pop(itp, o, a):
    if kind_is(o.t, 0):
        if len(a) > 1 and not branch(d_has(now(), o.t, itp.to_u(a[0]))): return a[1]
        v = getitem(itp, o, a[0]); delitem(itp, o, a[0]); return v
    if kind_is(o.t, 1):
        v = getitem(itp, o, a[0] if a else -1); delitem(itp, o, a[0] if a else -1); return v
    raise PyRaise(AttributeError('pop'))
def get(itp, o, a):
    if not kind_is(o.t, 0): raise PyRaise(AttributeError('get'))
    return plain(d_get(now(), o.t, itp.to_u(a[0]))) if branch(d_has(now(), o.t, itp.to_u(a[0]))) else (a[1] if len(a) > 1 else None)

def facts(p, d, v):
    """P02 at the present state: the value at a pointer from that at its first keys"""
    n = pn(p); pp = p_init(p); par = e_val(v, pp, d); k = last(p); i = index_number(k)
    assume(n >= 0, Implies(n == 0, And(e_ok(v, p, d), e_val(v, p, d) == d)), Implies(n == 1, And(par == d, e_ok(v, pp, d))),
           d_kind(par) >= 0, d_kind(par) <= 3, d_len(v, par) >= 0, d_len(v, par) < MAXLEN)
    obj, arr = d_kind(par) == 0, d_kind(par) == 1
    inr = And(inlang['index'](k), i >= 0, i < d_len(v, par))
    assume(Implies(n > 0, e_ok(v, p, d) == And(e_ok(v, pp, d), Or(And(obj, d_has(v, par, k)), And(arr, inr)))),
           Implies(And(n > 0, e_ok(v, p, d)), e_val(v, p, d) == z3.If(obj, d_get(v, par, k), d_at(v, par, i))))
    return par, obj, arr, k, i, inr

def evaluate(itp, p, d):
    v, dt = now(), itp.to_u(d)
    if d is None: assume(d_kind(dt) == 2)
    facts(p.t, dt, v)
    if not branch(e_ok(v, p.t, dt)): itp.throw(JSONPointerReferenceError, 'not found')
    return plain(e_val(v, p.t, dt))

def psetup(itp):
    ptr_setup(itp, evaluate)
    core.CUR.opts['narrow_facts'] = []
    core.CUR.opts['isinstance'] = doc_isinstance
    init_log('events'); assume(Not(inlang['index'](strlit('-'))))
    for a in JEQ_AXIOMS()[:2]: assume(a)
    M = lambda name, f: METHODS.__setitem__(('opaque:plain', name), f)
    M('__len__', lambda itp, o, a, kw: mkint(length(o)))
    M('__contains__', lambda itp, o, a, kw: contains(itp, o, a[0]))
    M('__getitem__', lambda itp, o, a, kw: getitem(itp, o, a[0]))
    M('__setitem__', lambda itp, o, a, kw: setitem(itp, o, a[0], a[1]))
    M('__delitem__', lambda itp, o, a, kw: delitem(itp, o, a[0]))
    M('insert', lambda itp, o, a, kw: insert(itp, o, a[0], a[1]))
    M('append', lambda itp, o, a, kw: append(itp, o, a[0]))
    M('pop', lambda itp, o, a, kw: pop(itp, o, a))
    M('get', lambda itp, o, a, kw: get(itp, o, a))
    def attr(itp, o, name):
        h = METHODS.get(('opaque:plain', name))
        if h is None: raise Unsupported(f'attribute {name} of a document')
        return BoundM(o, HostFn(lambda itp, a, kw: h(itp, a[0], a[1:], kw), name), name)
    ATTRS[('opaque', 'plain')] = attr
    def deepcopy(itp, v):
        if not is_plain(v): return NOT
        assume(d_kind(deep(v.t)) == d_kind(v.t))
        return plain(deep(v.t))
    CONTRACTS['deepcopy'] = deepcopy
    CLASSCALL[JSON] = lambda itp, a, kw: SObj(jsonof(itp.to_u(a[0])), JSON) if not kw and len(a) == 1 else (_ for _ in ()).throw(Unsupported('JSON()'))
    def eq(itp, a, kw):
        x, y = a
        if isinstance(x, SObj) and is_plain(y): return mkbool(jeq(x.t, jsonof(y.t)))
        return json_eq(itp, a, kw)
    itp.local_contracts[JSON.__eq__] = eq

FUNC = {n: getattr(JP, n) for n in ('add', 'remove', 'replace', 'move', 'copy', 'test')}
def invoke(itp, how, op, doc, path, val, frm):
    kw = dict(path=path)
    if op in ('add', 'replace', 'test'): kw['value'] = val
    if op in ('move', 'copy'): kw['from_'] = frm
    if how == 'function': return itp.call(FUNC[op], [doc], kw)
    o = itp.alloc_inst(JSONPatchOperation)
    o = itp.construct(JSONPatchOperation, [], dict(op=op, **kw))
    return itp.call(JSONPatchOperation.apply, [o, doc])

def opnew(itp):
    CLASSCALL[PatchOp] = lambda itp, a, kw: PatchOp(a[0]) if isinstance(a[0], str) and not kw else (_ for _ in ()).throw(Unsupported('PatchOp()'))

def same_key(k, want): return k == want

def placed(op, arr, k, i, n):
    """(event kind, key) that puts a value where RFC 6902 wants it"""
    if op == 'add': return ('insert', z3.If(k == strlit('-'), n, i)) if arr else ('setkey', k)
    if op == 'replace': return ('setindex', i) if arr else ('setkey', k)
    return ('delindex', i) if arr else ('delkey', k)

def check_events(what, es, want, copies):
    """the mutations are the specified ones; `copies`: values must be fresh copies"""
    prove(f'{what}: the mutations', len(es) == len(want) and all(a[0] == b[0] for a, b in zip(es, want)), f'{es} vs {want}')
    if len(es) != len(want): return
    for a, b in zip(es, want):
        if a[0] != b[0]: continue
        prove(f'{what}: of the right container', a[1] == b[1], f'{a}')
        prove(f'{what}: at the right place', a[2] == b[2], f'{a}')
        if b[3] is not None:
            if copies: prove(f'{what}: with a fresh copy of the value', a[3] == deep(b[3]), f'{a}')
            else: prove(f'{what}: with the right value', Or(a[3] == b[3], a[3] == deep(b[3])), f'{a}')

def result_is(itp, what, r, t, copies=None):
    rt = itp.to_u(r)
    if copies is None: prove(f'{what}: the document is returned', rt == t, repr(r))
    elif copies: prove(f'{what}: a fresh copy of the value is returned', rt == deep(t), repr(r))
    else: prove(f'{what}: the value is returned', Or(rt == t, rt == deep(t)), repr(r))

def fails(what, exc, err):
    prove(f'{what}: the JSON patch error, and only in the cases of RFC 6902', And(err, exc_is(exc, JSONPatchError)), repr(exc))

def scenario(prop, op, how):
    copies = prop == 'P12'
    @contract(prop, f'{op} ({how})', f'jsonpatch.{op}', 'Node.__init__', *(['JSONPatchOperation.apply'] if how == 'operation' else []))
    def scen():
        itp = Interp(); psetup(itp); opnew(itp)
        d, p, f, v = (z3.Const(x, U) for x in ('document', 'path', 'from', 'value'))
        doc, val = plain(d), plain(v); path = ptr(p); frm = ptr(f)
        par, obj, arr, k, i, inr = facts(p, d, z3.IntVal(0))
        n = d_len(0, par)
        idx = And(inlang['index'](k), i >= 0)
        addable = And(e_ok(0, p_init(p), d), Or(obj, And(arr, Or(k == strlit('-'), And(idx, i <= n)))))
        r, exc = run_contract(lambda: invoke(itp, how, op, doc, path, val, frm))
        es = events()
        root = branch(pn(p) == 0)
        if op in ('add', 'remove', 'replace', 'test'):
            err = Not({'add': Or(pn(p) == 0, addable)}.get(op, e_ok(0, p, d)))
            if op == 'test': err = Or(err, Not(jeq(jsonof(e_val(0, p, d)), jsonof(v))))
            if exc is not None: fails(op, exc, err); prove(f'{op}: nothing is changed', not es); return
            prove(f'{op}: an impossible operation raises', Not(err))
            if op == 'test':
                prove('test: nothing is changed', not es); result_is(itp, op, r, d); return
            if root:
                prove(f'{op}: the old document is left alone', not es)
                if op == 'remove': prove('remove: nothing is left', r is None)
                else: result_is(itp, op, r, v, copies)
                return
            ev = placed(op, branch(arr), k, i, n)
            check_events(op, es, [(ev[0], par, ev[1], None if op == 'remove' else v)], copies)
            result_is(itp, op, r, d); return
        fpar, fobj, farr, fk, fi, finr = facts(f, d, z3.IntVal(0))
        x = e_val(0, f, d)
        if op == 'copy':
            err = Or(Not(e_ok(0, f, d)), Not(Or(pn(p) == 0, addable)))
            if exc is not None: fails(op, exc, err); return
            prove('copy: an impossible operation raises', Not(err))
            if root: prove('copy: the old document is left alone', not es); result_is(itp, op, r, x, copies); return
            ev = placed('add', branch(arr), k, i, n)
            check_events(op, es, [(ev[0], par, ev[1], x)], copies)
            result_is(itp, op, r, d); return
        # move: remove at `from`, then add at `path` to what remains
        if p_order(p, f):
            if branch(p == f):
                # what is left after taking the value out of a tree: the same containers, one element less
                if len(es) == 1 and es[0][0] in ('delkey', 'delindex'):
                    assume(Implies(And(es[0][1] == fpar, es[0][2] == (fk if es[0][0] == 'delkey' else fi)),
                                   And(e_ok(1, p_init(p), d) == e_ok(0, p_init(p), d), e_val(1, p_init(p), d) == par, Implies(arr, d_len(1, par) == d_len(0, par) - 1))))
                if exc is not None: fails(op, exc, Not(e_ok(0, f, d))); return
                prove('move: from a missing location raises', e_ok(0, f, d))
                if not es: prove('move onto itself: the document stays', Or(itp.to_u(r) == d, And(pn(p) == 0, itp.to_u(r) == deep(d)))); return
                if root: prove('move: the old document is left alone', False); return
        one = z3.IntVal(1)
        par1, obj1, arr1, k1, i1, inr1 = facts(p, d, one)
        addable1 = And(e_ok(1, p_init(p), d), Or(obj1, And(arr1, Or(k == strlit('-'), And(idx, i <= d_len(1, par1))))))
        err = Or(Not(e_ok(0, f, d)), p_prefix(f, p), And(pn(p) > 0, Not(addable1)))
        if exc is not None: fails(op, exc, err); return
        prove('move: an impossible operation raises', Not(err))
        rem = placed('remove', branch(farr), fk, fi, None)
        want = [(rem[0], fpar, rem[1], None)]
        if root:
            check_events(op, es, want, False); result_is(itp, op, r, x, False); return
        ev = placed('add', branch(arr1), k, i, d_len(1, par1))
        check_events(op, es, want + [(ev[0], par1, ev[1], x)], False)
        result_is(itp, op, r, d)
    return scen

def p_order(p, f):
    assume(Implies(pn(f) == 0, p_prefix(f, p) == (pn(p) > 0)), Implies(pn(p) == 0, Not(p_prefix(f, p))), Implies(p == f, Not(p_prefix(f, p))), Implies(And(pn(p) == 0, pn(f) == 0), p == f))
    return True

for _op in FUNC:
    for _how in ('function', 'operation'): scenario('P11', _op, _how)
    scenario('P12', _op, 'operation')

R = fn('after', I, U); opn = fn('operation', I, U); res = fn('applied', U, U, U); bad = fn('inapplicable', U, U, B)
@contract('P12', 'evaluation of a patch', 'JSONPatch.evaluate')
def patch_evaluate():
    itp = Interp(); psetup(itp)
    d = z3.Const('document', U); n = z3.Int('count'); j = freshvar('j')
    def apply(itp, a, kw):
        o, x = a
        if not (isinstance(o, Opaque) and o.what == 'operation' or isinstance(o, SObj)): raise Unsupported('apply()')
        xt = itp.to_u(x)
        if branch(bad(o.t, xt)): itp.throw(JSONPatchError, 'inapplicable')
        return Opaque(res(o.t, xt), 'plain')
    itp.local_contracts[JSONPatchOperation.apply] = apply
    assume(n >= 0, R(0) == deep(d), ForAll([j], Implies(And(j >= 0, j < n), R(j + 1) == res(opn(j), R(j))), patterns=[R(j + 1)]),
           ForAll([j], Implies(And(j >= 0, j < n), R(j + 1) == res(opn(j), R(j))), patterns=[opn(j)]))
    core.CUR.opts['loop_inv'] = [lambda itp, init, v: (lambda j: Opaque(R(j), 'plain')) if is_plain(init) and init.t.eq(deep(d)) else None]
    from pyvc.interp import _Star
    P, exc = run_contract(lambda: itp.construct(JSONPatch, [_Star(mk_map(n, lambda v: SObj(opn(v), JSONPatchOperation)))], {}))
    no_exception('JSONPatch()', exc)
    r, exc = run_contract(lambda: itp.call(JSONPatch.evaluate, [P, plain(d)]))
    prove('the document itself is never changed', not get_log('events').parts)
    some = Exists([j], And(j >= 0, j < n, bad(opn(j), R(j))))
    if exc is not None:
        prove('the JSON patch error, exactly when an operation is inapplicable', And(some, exc_is(exc, JSONPatchError)), repr(exc)); return
    prove('an inapplicable operation fails the whole evaluation', Not(some))
    prove('the result of applying all operations in order to a copy', itp.to_u(r) == R(n), repr(r))
    r, exc = run_contract(lambda: itp.call(JSONPatch.__len__, [P]))
    prove('the patch keeps its operations', exc is None and zint(r) == n)
