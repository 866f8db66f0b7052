"""Symbolic model of JSON nodes, schema nodes, results and pointers as they
appear to a caller: the contracts other functions rely on."""
from __future__ import annotations
import collections.abc
import z3
from . import env
from pyvc import core, builtins as _b
from pyvc.core import (U, I, B, R, fn, strlit, fresh, freshvar, assume, branch, prove, And, Or, Not, Implies, ForAll, Exists,
                       Unsupported, kind, U_TRUE, U_FALSE, U_NONE)
from pyvc.values import *
from pyvc.interp import *
from pyvc.interp import NOT, UNBOUND, tb
from jschon.json import JSON
from jschon.jsonschema import JSONSchema, Result
from jschon.jsonpointer import JSONPointer, RelativeJSONPointer

TYPES = ('null', 'boolean', 'number', 'string', 'array', 'object')
jtype = fn('jtype', U, U); jnum = fn('jnum', U, R); jisint = fn('jisint', U, B); jbool = fn('jbool', U, B)
jstr = fn('jstr', U, U); jlen = fn('jlen', U, I); jchild = fn('jchild', U, I, U); jkey = fn('jkey', U, I, U)
jhas = fn('jhas', U, U, B); jidx = fn('jidx', U, U, I)
jeq = fn('jeq', U, U, B); jpath = fn('jpath', U, U); jparent = fn('jparent', U, U); jhasparent = fn('jhasparent', U, B)
jkeyof = fn('jkeyof', U, U); strlen = fn('strlen', U, I); decval = fn('decval', R, B, R)
EV = fn('EV', U, U, B)            # verdict of a schema for an instance
pchild = fn('pchild', U, U, U)    # pointer / key
istr = fn('istr', I, U)

def _axioms():
    t, n, i = z3.Const('ax_t', U), z3.Const('ax_n', U), z3.Const('ax_i', I)
    return [
        ForAll([t, n], Implies(jhas(t, n), And(jidx(t, n) >= 0, jidx(t, n) < jlen(t), jkey(t, jidx(t, n)) == n)), patterns=[jhas(t, n)]),
        ForAll([t, i], Implies(And(i >= 0, i < jlen(t)), And(jhas(t, jkey(t, i)), jidx(t, jkey(t, i)) == i)), patterns=[jkey(t, i)]),
        ForAll([t], jlen(t) >= 0, patterns=[jlen(t)]),
        ForAll([t], strlen(t) >= 0, patterns=[strlen(t)]),
        ForAll([i], fn('str2int', U, I)(istr(i)) == i, patterns=[istr(i)]),
    ]
core.GLOBAL_AXIOMS.append(_axioms)

def once(key):
    s = core.CUR.opts.setdefault('once', {})
    if core.CUR.idx or key in s:
        return key not in s
    s[key] = True
    return True

def set_types(root, *levels):
    """precondition: descendants of `root` at depth 1, 2, ... have these types
    (stated as a quantified fact, and used directly on access)"""
    core.CUR.opts.setdefault('childtypes', {})[root.get_id()] = (root, levels)
    t, vs, guard = root, [], []
    for ty in levels:
        v = freshvar('e')
        guard.append(rng(v, jlen(t)))
        vs.append(v)
        t = jchild(t, v)
        if ty:
            assume(ForAll(vs, Implies(And(*guard), And(jtype(t) == strlit(ty), kind(jstr(t)) == core.STR))))

def declared_type(t):
    reg = core.CUR.opts.get('childtypes')
    if not reg: return None
    d, x = 0, t
    while z3.is_app(x) and x.decl().name() == 'jchild':
        d += 1; x = x.arg(0)
        if x.get_id() in reg:
            lv = reg[x.get_id()][1]
            if d <= len(lv): return lv[d - 1]
    return None

def typ(t, cls=JSON):
    """assume the type of a node is one of the legal ones"""
    v = jtype(t)
    d = declared_type(t)
    if d is not None:
        assume(v == strlit(d))
        return v
    ts = ('boolean', 'object') if issubclass(cls, JSONSchema) else TYPES
    assume(Or(*[v == strlit(x) for x in ts]))
    return v

def is_type(t, *names):
    return Or(*[jtype(t) == strlit(n) for n in names])

def childcls(t):
    return core.CUR.opts.get('childcls', {}).get(t.get_id(), JSON)

def set_childcls(t, cls):
    core.CUR.opts.setdefault('childcls', {})[t.get_id()] = cls
    core.CUR.opts.setdefault('keep', []).append(t)

def a_type(itp, o):
    return SStr(typ(o.t, o.cls))

def a_data(itp, o):
    t = o.t
    v = typ(t, o.cls)
    if issubclass(o.cls, JSONSchema):
        return JDict(t) if branch(v == strlit('object')) else SBool(jbool(t))
    for x, mk in (('null', lambda: None), ('boolean', lambda: SBool(jbool(t))), ('number', lambda: mknum(t)),
                  ('string', lambda: mkstr(t)), ('array', lambda: JList(t)), ('object', lambda: JDict(t))):
        if branch(v == strlit(x)):
            return mk()
    raise core.Infeasible()

def mknum(t):
    assume(Implies(jisint(t), z3.IsInt(jnum(t))))
    return SNum(jnum(t), jisint(t))

def mkstr(t):
    assume(kind(jstr(t)) == core.STR)
    return SStr(jstr(t))

def a_parent(itp, o):
    return Opt(jhasparent(o.t), SObj(jparent(o.t), JSON))
ATTRS[(JSON, 'type')] = a_type
ATTRS[(JSON, 'data')] = a_data
ATTRS[(JSON, 'parent')] = a_parent
ATTRS[(JSON, 'key')] = lambda itp, o: Opt(jhasparent(o.t), SStr(jkeyof(o.t)))
ATTRS[(JSON, 'path')] = lambda itp, o: SObj(jpath(o.t), JSONPointer, True)
jvalue = fn('jvalue', U, U)
def a_value(itp, o):
    return Opaque(jvalue(o.t), 'jsonvalue')
ATTRS[(JSON, 'value')] = a_value

# ---- the lists and dicts held in `data`
def child(t, i):
    return SObj(jchild(t, i), childcls(t))

def ln(r):
    assume(jlen(r) >= 0)
    return jlen(r)
METHODS[('JList', '__len__')] = lambda itp, o, a, kw: mkint(ln(o.r))
METHODS[('JDict', '__len__')] = lambda itp, o, a, kw: mkint(ln(o.r))
METHODS[('JList', '__iter__')] = lambda itp, o, a, kw: mk_map(ln(o.r), lambda v: child(o.r, v))
METHODS[('JDict', '__iter__')] = lambda itp, o, a, kw: mk_map(ln(o.r), lambda v: kstr(o.r, v))
def kstr(r, v):
    return SStr(jkey(r, v))
def jl_getitem(itp, o, a, kw):
    return itp.seq_getitem(View('seq', None, itp.iterate(o)), a[0]) if not (isinstance(a[0], View)) else \
        itp.new_cont('list', itp.iterate(itp.seq_getitem(View('seq', None, itp.iterate(o)), a[0])))
METHODS[('JList', '__getitem__')] = jl_getitem
def jl_contains(itp, o, a, kw):
    return seq_exists(itp.iterate(o), lambda e: tb(itp.eq(e, a[0])))
METHODS[('JList', '__contains__')] = jl_contains

def has(itp, r, n):
    if isinstance(n, (SAny,)):
        n = itp.narrow(n)
    if isinstance(n, Opt):
        n = n.val if branch(n.cond) else None
    if not isinstance(n, (str, SStr)):
        if isinstance(n, SObj) and issubclass(n.cls, JSON):
            # a JSON node is unhashable
            raise PyRaise(TypeError('unhashable'))
        return z3.BoolVal(False)
    return jhas(r, itp.to_u(n))
METHODS[('JDict', '__contains__')] = lambda itp, o, a, kw: has(itp, o.r, a[0])
def at_name(itp, r, n):
    return child(r, jidx(r, itp.to_u(n)))
def jd_getitem(itp, o, a, kw):
    if branch(has(itp, o.r, a[0])):
        return at_name(itp, o.r, a[0])
    raise PyRaise(KeyError(a[0]))
METHODS[('JDict', '__getitem__')] = jd_getitem
METHODS['jdict_at'] = lambda itp, o, k: at_name(itp, o.r, k)
def jd_get(itp, o, a, kw):
    if branch(has(itp, o.r, a[0])):
        return at_name(itp, o.r, a[0])
    return a[1] if len(a) > 1 else None
METHODS[('JDict', 'get')] = jd_get
METHODS[('JDict', 'keys')] = lambda itp, o, a, kw: View('keys', o)
METHODS[('JDict', 'values')] = lambda itp, o, a, kw: View('values', o, mk_map(ln(o.r), lambda v: child(o.r, v)))
METHODS[('JDict', 'items')] = lambda itp, o, a, kw: View('items', o, mk_map(ln(o.r), lambda v: (kstr(o.r, v), child(o.r, v))))

# ---- inherited container methods of JSON (assumed contracts on collections.abc)
def json_contains(itp, a, kw):
    self, x = a
    if not isinstance(self, SObj):
        return NOT
    d = itp.getattr(self, 'data')
    if isinstance(d, JDict):
        if isinstance(x, SObj) and issubclass(x.cls, JSON):
            # compared with each name: true for a string node equal to a name
            return mkbool(And(is_type(x.t, 'string'), jhas(d.r, jstr(x.t))))
        return mkbool(tb(has(itp, d.r, x)))
    if isinstance(d, JList):
        return mkbool(tb(jl_contains(itp, d, [x], {})))
    raise PyRaise(TypeError('not iterable'))
CONTRACTS[collections.abc.Sequence.__contains__] = json_contains
def json_keys(itp, a, kw):
    if not isinstance(a[0], SObj): return NOT
    return View('keys', a[0])
CONTRACTS[collections.abc.Mapping.keys] = json_keys
def json_items(itp, a, kw):
    o = a[0]
    if not isinstance(o, SObj): return NOT
    d = itp.getattr(o, 'data')
    if not isinstance(d, JDict): raise Unsupported('items() of a non-object')
    return METHODS[('JDict', 'items')](itp, d, [], {})
CONTRACTS[collections.abc.Mapping.items] = json_items
def json_values(itp, a, kw):
    o = a[0]
    if not isinstance(o, SObj): return NOT
    d = itp.getattr(o, 'data')
    if not isinstance(d, JDict): raise Unsupported('values() of a non-object')
    return METHODS[('JDict', 'values')](itp, d, [], {})
CONTRACTS[collections.abc.Mapping.values] = json_values
def json_get(itp, a, kw):
    o = a[0]
    if not isinstance(o, SObj): return NOT
    d = itp.getattr(o, 'data')
    if not isinstance(d, JDict): raise Unsupported('get() of a non-object')
    return jd_get(itp, d, a[1:], kw)
CONTRACTS[collections.abc.Mapping.get] = json_get

# ---- equality (contract established by P09)
def json_eq(itp, a, kw):
    x, y = a
    if not (isinstance(x, SObj) and issubclass(x.cls, JSON)):
        return NOT
    if isinstance(y, SObj) and issubclass(y.cls, JSON):
        return mkbool(jeq(x.t, y.t))
    if isinstance(y, (bool, SBool)):
        c = y.t if isinstance(y, SBool) else z3.BoolVal(y)
        return mkbool(And(is_type(x.t, 'boolean'), jbool(x.t) == c))
    if y is None:
        return mkbool(is_type(x.t, 'null'))
    if isinstance(y, (int, float, SInt, SNum)):
        return mkbool(And(is_type(x.t, 'number'), jnum(x.t) == num_term(y)))
    if isinstance(y, (str, SStr)):
        return mkbool(And(is_type(x.t, 'string'), jstr(x.t) == itp.to_u(y)))
    raise Unsupported('JSON == python container')
CONTRACTS[JSON.__eq__] = json_eq
JEQ_AXIOMS = lambda: (lambda a, b, c: [
    ForAll([a], jeq(a, a), patterns=[jeq(a, a)]),
    ForAll([a, b], Implies(jeq(a, b), jeq(b, a)), patterns=[jeq(a, b)]),
    ForAll([a, b, c], Implies(And(jeq(a, b), jeq(b, c)), jeq(a, c)), patterns=[z3.MultiPattern(jeq(a, b), jeq(b, c))])])(
    z3.Const('q_a', U), z3.Const('q_b', U), z3.Const('q_c', U))

# JSON equality of string nodes is equality of their text
JEQ_STR = lambda: (lambda a, b: [ForAll([a, b], Implies(And(jtype(a) == strlit('string'), jtype(b) == strlit('string')), jeq(a, b) == (jstr(a) == jstr(b))), patterns=[jeq(a, b)])])(
    z3.Const('q_a', U), z3.Const('q_b', U))

def str_of_json(itp, o):
    return SStr(fn('jdumps', U, U)(itp.to_u(o)))
CONTRACTS[('str', JSON)] = str_of_json
CONTRACTS[JSON.__str__] = lambda itp, a, kw: str_of_json(itp, a[0])
CONTRACTS[JSON.dumps] = lambda itp, a, kw: str_of_json(itp, a[0]) if isinstance(a[0], SObj) else NOT

# ---- pointers as values (contracts established by P03)
def ptr_eq(itp, a, kw):
    x, y = a
    if isinstance(x, SObj) and isinstance(y, SObj) and issubclass(x.cls, JSONPointer) and issubclass(y.cls, JSONPointer):
        return mkbool(x.t == y.t)
    return NOT
CONTRACTS[JSONPointer.__eq__] = ptr_eq
def ptr_div(itp, a, kw):
    x, y = a
    if isinstance(x, SObj) and issubclass(x.cls, JSONPointer):
        if isinstance(y, Opt):
            y = y.val if branch(y.cond) else None
        if isinstance(y, (str, SStr)):
            return SObj(pchild(x.t, itp.to_u(y)), JSONPointer, True)
        if isinstance(y, (Cont, tuple, View)):
            s = itp.iterate(y)
            if all(isinstance(q, Lit) for q in s.parts):
                t = x.t
                for q in s.parts:
                    t = pchild(t, itp.to_u(q.v))
                return SObj(t, JSONPointer, True)
        raise Unsupported('pointer / sequence')
    return NOT
CONTRACTS[JSONPointer.__truediv__] = ptr_div
PTR_ROOT = z3.Const('ptr_root', U)
def ptr_new(itp, a, kw):
    args = a
    t = PTR_ROOT
    for x in args:
        if isinstance(x, str) and x == '':
            continue
        if isinstance(x, SObj) and issubclass(x.cls, JSONPointer) and len(args) == 1:
            return x
        if isinstance(x, (tuple, Cont, View)):
            s = itp.iterate(x)
            if not all(isinstance(q, Lit) for q in s.parts):
                raise Unsupported('JSONPointer of a symbolic sequence')
            for q in s.parts:
                t = pchild(t, itp.to_u(q.v))
            continue
        raise Unsupported('JSONPointer()')
    return SObj(t, JSONPointer, True)

def num_str_parts(itp, v):
    return fn('numtext', R, B, U)(v.t, tb(v.isint))
CONTRACTS['numtext'] = num_str_parts
def fraction_of_str(itp, v):
    if z3.is_app(v.t) and v.t.decl().name() == 'numtext':
        x, b = v.t.arg(0), v.t.arg(1)
        assume(Implies(b, decval(x, b) == x), (decval(x, b) == 0) == (x == 0), (decval(x, b) > 0) == (x > 0))
        return SFrac(decval(x, b))
    if z3.is_app(v.t) and v.t.decl().name() == 'istr':
        return SFrac(z3.ToReal(v.t.arg(0)))
    raise Unsupported(f'Fraction of text {v.t}')
CONTRACTS['fraction_of_str'] = fraction_of_str

# ------------------------------------------------------------ results
RES_SORT = {'_valid': lambda t: SBool(fn('res_valid', U, B)(t)), '_assert': lambda t: SBool(fn('res_assert', U, B)(t)),
            '_discard': lambda t: SBool(fn('res_discard', U, B)(t)),
            'path': lambda t: SObj(fn('res_path', U, U)(t), JSONPointer, True),
            'relpath': lambda t: SObj(fn('res_relpath', U, U)(t), JSONPointer, True),
            'schema': lambda t: SObj(fn('res_schema', U, U)(t), JSONSchema),
            'instance': lambda t: SObj(fn('res_instance', U, U)(t), JSON),
            'parent': lambda t: Opt(fn('res_hasparent', U, B)(t), SObj(fn('res_parent', U, U)(t), Result)),
            'key': lambda t: Opt(fn('res_hasparent', U, B)(t), SStr(fn('res_key', U, U)(t))),
            'error': lambda t: Opt(fn('res_haserr', U, B)(t), Opaque(fn('res_error', U, U)(t), 'error')),
            '_refschema': lambda t: Opt(fn('res_hasref', U, B)(t), SObj(fn('res_ref', U, U)(t), JSONSchema)),
            'schema_node': lambda t: SObj(fn('res_node', U, U)(t), JSON),
            'globals': lambda t: Opaque(fn('res_globals', U, U)(t), 'globals'),
            }
for _k, _f in RES_SORT.items():
    ATTRS[(Result, _k)] = (lambda f: lambda itp, o: f(o.t))(_f)
res_hasann = fn('res_hasann', U, B); res_ann = fn('res_ann', U, U)
def a_annotation(itp, o):
    h = core.CUR.opts.get('annotation_of')
    if h is not None:
        r = h(itp, o)
        if r is not NOT: return r
    return Opt(res_hasann(o.t), Opaque(res_ann(o.t), 'annotation'))
ATTRS[(Result, 'annotation')] = a_annotation

sib_has = fn('sib_has', U, U, U, B); sib = fn('sib', U, U, U, U)
def c_sibling(itp, a, kw):
    """Result.sibling: the result of keyword `key` for `instance` recorded
    in the parent, or None (contract established by P18)"""
    self, inst, key = a
    p = itp.getattr(self, 'parent')
    if isinstance(p, Opt):
        p = p.val if branch(p.cond) else None
    if p is None:
        return None
    if not isinstance(p, SObj):
        return NOT
    k = itp.to_u(key)
    pt = itp.getattr(inst, 'path').t
    return Opt(sib_has(p.t, k, pt), SObj(sib(p.t, k, pt), Result))
CONTRACTS[Result.sibling] = c_sibling

def log_app(itp, name, tup):
    key = ('H', 'log:' + name)
    core.CUR.store[key] = Seq(core.CUR.store.get(key, EMPTY).parts + (Lit(tup),))
def get_log(name):
    return core.CUR.store.get(('H', 'log:' + name), EMPTY)
def init_log(name):
    core.CUR.store[('H', 'log:' + name)] = EMPTY

def c_evaluate(itp, a, kw):
    """JSONSchema.evaluate(instance, result): marks `result` invalid iff the
    instance does not satisfy the schema, and returns it (P18)"""
    schema, inst = a[0], a[1]
    res = a[2] if len(a) > 2 else kw.get('result')
    if not isinstance(schema, SObj):
        raise Unsupported('evaluate() of a constructed schema')
    if res is None:
        raise Unsupported('evaluate() without a result')
    if isinstance(schema, SObj) and not issubclass(schema.cls, JSONSchema):
        return NOT
    log_app(itp, 'applied', (schema, inst, res, itp.getattr(res, 'path'), itp.getattr(res, 'schema')))
    if not branch(EV(schema.t, itp.to_u(inst))):
        itp.call(Result.fail, [res])
    if isinstance(res, Inst):
        ch = itp.getattr(res, 'children')
        if isinstance(ch, Cont):
            itp.set_content(ch, itp.content(ch) + Seq([Opq('subresults')]))
    return res
CONTRACTS[JSONSchema.evaluate] = c_evaluate

# error texts never influence the verdict: JSON nodes inside them are opaque
def run_contract(f):
    """call f; returns (value, exception)"""
    try:
        return f(), None
    except PyRaise as e:
        return None, e.exc

def no_exception(name, exc):
    if exc is not None:
        prove(name + ': no exception', z3.BoolVal(False), f'raises {exc!r} {getattr(exc, "args", "")}')
        raise core.Infeasible()

def bool_of(v):
    return tb(v.t if isinstance(v, SBool) else v) if not isinstance(v, (Opt, Ite, SAny)) else (_ for _ in ()).throw(Unsupported('not a bool'))
