"""Common set-up for the contracts of keyword classes: the keyword object is
built by the real constructor, the result node by the real Result class."""
from .model import *
import inspect
from jschon.vocabulary import Keyword, Subschema, ArrayOfSubschemas, ObjectOfSubschemas

class KW:
    pass

ALL = frozenset(TYPES)
PYT = {'string': str, 'array': list, 'object': dict, 'boolean': bool, 'null': type(None), 'number': int}

def isinstance_hook(itp, v, c):
    if isinstance(v, Opaque) and v.what == 'kwvalue':
        return issubclass(core.CUR.opts['kwvalue'][0], c)
    if isinstance(v, Opaque) and v.what == 'jsonvalue':
        return NOT
    return NOT
ATTRS['isinstance'] = isinstance_hook

def setup(cls, jtyp, instance_type=None, pre=None, axioms=(), built=None):
    """-> KW with .itp .kw .json .inst .res .parent .schema"""
    k = KW()
    itp = k.itp = Interp()
    k.cls = cls
    for a in axioms:
        assume(*a())
    node = z3.Const('kwjson', U)
    sub = jtyp in ('schema',)
    arr = issubclass(cls, ArrayOfSubschemas) and jtyp == 'array'
    obj = issubclass(cls, ObjectOfSubschemas) and jtyp == 'object'
    k.json = SObj(node, JSONSchema if sub else JSON, not sub)
    if arr or obj:
        set_childcls(node, JSONSchema)
    if not sub and jtyp is not None:
        assume(jtype(node) == strlit(jtyp))
    k.parentschema = SObj(z3.Const('parentschema', U), JSONSchema)
    if sub:
        core.CUR.opts['kwvalue'] = (dict,)
        value = Opaque(z3.Const('kwvalue', U), 'kwvalue')
    elif jtyp == 'string':
        assume(kind(jstr(node)) == core.STR)
        value = SStr(jstr(node))
    elif jtyp == 'number':
        value = mknum(node)
    elif jtyp == 'boolean':
        value = SBool(jbool(node))
    else:
        core.CUR.opts['kwvalue'] = (PYT.get(jtyp, object),)
        value = Opaque(z3.Const('kwvalue', U), 'kwvalue')
    made = []
    def mk_json(itp_, a, kw):
        if a and (a[0] is value or (isinstance(a[0], V) and a[0] is value)):
            made.append(('JSON', a, kw))
            ic = kw.get('itemclass')
            if arr or obj:
                prove('the items of the keyword value are schemas', ic is JSONSchema)
            return k.json
        h = core.CUR.opts.get('json_ctor')
        if h is not None:
            return h(itp_, a, kw)
        return NOT
    def mk_schema(itp_, a, kw):
        if a and a[0] is value:
            made.append(('JSONSchema', a, kw))
            return k.json
        raise Unsupported('construction of a schema')
    CLASSCALL[JSON] = mk_json
    CLASSCALL[JSONSchema] = mk_schema
    ATTRS[(JSONSchema, 'catalog')] = core.CUR.opts.get('catalog') or (lambda itp, o: Opaque(fn('catalog_of', U, U)(o.t), 'catalog'))
    ATTRS[(JSONSchema, 'cacheid')] = lambda itp, o: Opaque(fn('cacheid_of', U, U)(o.t), 'cacheid')
    kw, exc = run_contract(lambda: itp.construct(cls, [k.parentschema, value], {}))
    if built is not None:
        # only some values are accepted
        from .ptrspec import exc_is
        from jschon.exc import JSONSchemaError
        if exc is not None:
            prove('only an unsuitable value is rejected', And(exc_is(exc, JSONSchemaError), Not(built(node))), repr(exc)); return None
        prove('an unsuitable value is rejected', built(node))
    no_exception('constructor', exc)
    k.kw = kw
    j = itp.getattr(kw, 'json')
    prove('keyword value wraps the schema value', isinstance(j, SObj) and j.t.eq(node) and len(made) == 1)
    ps = itp.getattr(kw, 'parentschema')
    prove('keyword parent schema', isinstance(ps, SObj) and ps.t.eq(k.parentschema.t))
    t, a, kws = made[0] if made else (None, [], {})
    prove('keyword value key', kws.get('key') == cls.key if made else False)
    prove('keyword value parent', isinstance(kws.get('parent'), SObj) and kws['parent'].t.eq(k.parentschema.t) if made else False)
    prove('keyword value class', t == ('JSONSchema' if sub else 'JSON'))
    # the instance and the result node
    k.inst = SObj(z3.Const('instance', U), JSON)
    if instance_type is not None:
        its = instance_type if isinstance(instance_type, tuple) else (instance_type,)
        assume(is_type(k.inst.t, *its))
    k.parent = SObj(z3.Const('parentresult', U), Result)
    p = k.parent.t
    assume(fn('res_schema', U, U)(p) == k.parentschema.t)
    k.res = itp.construct(Result, [k.parentschema, k.inst], dict(parent=k.parent, key=cls.key))
    init_log('applied')
    if pre:
        pre(k)
    return k

def declared(cls, key, types, depends=(), static=False):
    """the class-level declarations the evaluation loop relies on"""
    prove('keyword name', cls.key == key)
    prove('applicable instance types', set(cls.instance_types) == set(types))
    prove('static', bool(cls.static) == static)
    prove('ordering dependencies', set(depends) <= set(cls.depends_on))

def evaluate(k):
    _, exc = run_contract(lambda: k.itp.call(k.itp.getattr(k.kw, 'evaluate'), [k.inst, k.res]))
    no_exception('evaluate', exc)

def fld(k, name, r=None):
    return k.itp.getattr(r or k.res, name)

def valid(k, r=None):
    return bool_of(fld(k, '_valid', r))

def verdict(k, cond):
    """postcondition: the result is valid iff cond"""
    prove('verdict', valid(k) == cond)

def plain(k, annotation=None, discard=False, asserts=True):
    prove('not discarded', Not(bool_of(fld(k, '_discard'))) if not discard else bool_of(fld(k, '_discard')))
    prove('asserts', bool_of(fld(k, '_assert')) == asserts)

def no_annotation(k):
    a = fld(k, 'annotation')
    prove('no annotation', a is None)
def no_children(k):
    s = k.itp.content(fld(k, 'children'))
    prove('no subresults', not s.parts)

# ---- what was applied to what
def kwpath(k):
    return pchild(fn('res_path', U, U)(k.parent.t), strlit(k.cls.key))
def keyed(key):
    return lambda k, *v: pchild(kwpath(k), key(*v))
def here(k, *v):
    return kwpath(k)

def applied_exactly(k, nvars, sorts, guard, schema, inst, path=here, complete=True):
    """the log of subschema applications equals {(schema(v), inst(v), path(v)) : guard(v)}"""
    log = get_log('applied')
    vs = [freshvar('q', s) for s in sorts]
    g = guard(*vs)
    def matches(e):
        return And(e[0].t == schema(*vs), k.itp.to_u(e[1]) == inst(*vs), e[3].t == path(k, *vs))
    prove('only the right subschemas are applied to the right values',
          seq_forall(log, lambda e: Exists(vs, And(g, matches(e))) if vs else And(g, matches(e))))
    if complete:
        prove('every subschema application is made', ForAll(vs, Implies(g, seq_exists(log, matches))) if vs else Implies(g, seq_exists(log, matches)))
    prove('subresults belong to the evaluating schema', seq_forall(log, lambda e: e[4].t == k.parentschema.t))

def ann(k):
    return fld(k, 'annotation')

def ann_set(k, when, member, sort=U, wrap=lambda v: SStr(v)):
    """under `when`, the annotation is a list whose members are exactly `member`"""
    a = ann(k)
    if isinstance(a, Opt):
        prove('annotation present', Implies(when, a.cond)); a = a.val
    if not isinstance(a, (Cont, View)) or (isinstance(a, Cont) and a.kind != 'list'):
        prove('annotation is a list', Implies(when, z3.BoolVal(False)), repr(a)); return
    s = k.itp.content(a) if isinstance(a, Cont) else k.itp.iterate(a)
    v = freshvar('m', sort)
    prove('annotation lists exactly the right members',
          Implies(when, ForAll([v], seq_exists(s, lambda e: tb(k.itp.eq(e, wrap(v)))) == member(v))))
    return s

def ann_is(k, when, *cases):
    """under `when`: cases are (condition, expected term of sort U)"""
    a = k.itp.to_u(ann(k))
    for i, (c, exp) in enumerate(cases):
        prove(f'annotation value ({i})', Implies(And(when, c), a == exp))

def ubox(t):
    b = core.boxI(t)
    return b

def box_axiom():
    x = z3.Const('bx', I)
    assume(ForAll([x], And(core.unboxI(core.boxI(x)) == x, kind(core.boxI(x)) == core.INT), patterns=[core.boxI(x)]))

def CONTRACTS_LOCAL(k, d):
    """contracts in force for this scenario only"""
    k.itp.local_contracts.update(d)
