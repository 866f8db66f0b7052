"""P15: in-place applicators; P16: child applicators."""
from .kwbase import *
from .env import contract
import jschon.vocabulary.applicator as A
import jschon.vocabulary.legacy as L
from .validation import sib_of
T = TYPES
FN = lambda c: (f'{c.__name__}.evaluate', f'{c.__name__}.__init__', 'Result.__call__', 'Result.__init__')
sch = lambda k, v: jchild(k.json.t, v)

def arr_inplace(cls, key, cond):
    @contract('P15', key, *FN(cls))
    def scen():
        declared(cls, key, T)
        k = setup(cls, 'array')
        s, i = k.json.t, k.inst.t
        evaluate(k)
        n = jlen(s)
        ev = lambda v: EV(jchild(s, v), i)
        verdict(k, cond(n, ev))
        applied_exactly(k, 1, [I], lambda v: rng(v, n), lambda v: jchild(s, v), lambda v: i, keyed(istr))
        plain(k); no_annotation(k)

def all_(n, ev):
    v = freshvar('e'); return ForAll([v], Implies(rng(v, n), ev(v)))
def any_(n, ev):
    v = freshvar('e'); return Exists([v], And(rng(v, n), ev(v)))
def one_(n, ev):
    v, w = freshvar('e'), freshvar('f')
    return And(any_(n, ev), ForAll([v, w], Implies(And(rng(v, n), rng(w, n), ev(v), ev(w)), v == w)))
arr_inplace(A.AllOfKeyword, 'allOf', all_)
arr_inplace(A.AnyOfKeyword, 'anyOf', any_)
arr_inplace(A.OneOfKeyword, 'oneOf', one_)

@contract(('P15', 'P17'), 'not', *FN(A.NotKeyword))
def not_():
    declared(A.NotKeyword, 'not', T)
    k = setup(A.NotKeyword, 'schema')
    evaluate(k)
    ev = EV(k.json.t, k.inst.t)
    verdict(k, Not(ev))
    applied_exactly(k, 0, [], lambda: True, lambda: k.json.t, lambda: k.inst.t)
    s = k.itp.content(fld(k, 'children'))
    prove('no annotation of the failed subschema survives', ev if s.parts else z3.BoolVal(True))
    plain(k); no_annotation(k)

@contract('P15', 'if', *FN(A.IfKeyword))
def if_():
    declared(A.IfKeyword, 'if', T)
    k = setup(A.IfKeyword, 'schema')
    evaluate(k)
    verdict(k, EV(k.json.t, k.inst.t))
    applied_exactly(k, 0, [], lambda: True, lambda: k.json.t, lambda: k.inst.t)
    plain(k, asserts=False); no_annotation(k)
    p, exc = run_contract(lambda: k.itp.getattr(k.res, 'passed'))
    no_exception('passed', exc)
    prove('"if" never affects the verdict', bool_of(p))

def branch_kw(cls, key, want):
    @contract('P15', key, *FN(cls))
    def scen():
        declared(cls, key, T, ['if'])
        k = setup(cls, 'schema')
        h, c = sib_of(k, 'if')
        evaluate(k)
        rv = fn('res_valid', U, B)(c)
        active = And(h, rv if want else Not(rv))
        prove('applies iff the condition selects it', Not(bool_of(fld(k, '_discard'))) == active)
        prove('verdict', Implies(active, valid(k) == EV(k.json.t, k.inst.t)))
        applied_exactly(k, 0, [], lambda: active, lambda: k.json.t, lambda: k.inst.t)
        prove('asserts', bool_of(fld(k, '_assert')))
        no_annotation(k)
branch_kw(A.ThenKeyword, 'then', True)
branch_kw(A.ElseKeyword, 'else', False)

@contract('P15', 'dependentSchemas', *FN(A.DependentSchemasKeyword))
def dependent_schemas():
    cls = A.DependentSchemasKeyword
    declared(cls, 'dependentSchemas', ['object'])
    k = setup(cls, 'object', 'object')
    s, i = k.json.t, k.inst.t
    evaluate(k)
    v = freshvar('e')
    g = lambda v: And(rng(v, jlen(s)), jhas(i, jkey(s, v)))
    verdict(k, ForAll([v], Implies(g(v), EV(jchild(s, v), i))))
    applied_exactly(k, 1, [I], g, lambda v: jchild(s, v), lambda v: i, keyed(lambda v: jkey(s, v)))
    plain(k)

# ---------------------------------------------------------------- P16
@contract('P16', 'properties', *FN(A.PropertiesKeyword))
def properties():
    cls = A.PropertiesKeyword
    declared(cls, 'properties', ['object'])
    k = setup(cls, 'object', 'object')
    s, i = k.json.t, k.inst.t
    evaluate(k)
    v = freshvar('e')
    sc = lambda v: jchild(s, jidx(s, jkey(i, v)))
    g = lambda v: And(rng(v, jlen(i)), jhas(s, jkey(i, v)))
    verdict(k, ForAll([v], Implies(g(v), EV(sc(v), jchild(i, v)))))
    applied_exactly(k, 1, [I], g, sc, lambda v: jchild(i, v), keyed(lambda v: jkey(i, v)))
    ann_set(k, valid(k), lambda n: And(jhas(i, n), jhas(s, n)))
    plain(k)

research = fn('re_search', U, U, B)
@contract('P16', 'patternProperties', *FN(A.PatternPropertiesKeyword))
def pattern_properties():
    cls = A.PatternPropertiesKeyword
    declared(cls, 'patternProperties', ['object'])
    k = setup(cls, 'object', 'object')
    s, i = k.json.t, k.inst.t
    evaluate(k)
    v, w = freshvar('e'), freshvar('f')
    g = lambda v, w: And(rng(v, jlen(i)), rng(w, jlen(s)), research(jkey(s, w), jkey(i, v)))
    verdict(k, ForAll([v, w], Implies(g(v, w), EV(jchild(s, w), jchild(i, v)))))
    applied_exactly(k, 2, [I, I], g, lambda v, w: jchild(s, w), lambda v, w: jchild(i, v), keyed(lambda v, w: jkey(s, w)))
    ann_set(k, valid(k), lambda n: And(jhas(i, n), Exists([w], And(rng(w, jlen(s)), research(jkey(s, w), n)))))
    plain(k)

@contract('P16', 'additionalProperties', *FN(A.AdditionalPropertiesKeyword))
def additional_properties():
    cls = A.AdditionalPropertiesKeyword
    declared(cls, 'additionalProperties', ['object'], ['properties', 'patternProperties'])
    k = setup(cls, 'schema', 'object')
    s, i = k.json.t, k.inst.t
    h1, c1 = sib_of(k, 'properties'); h2, c2 = sib_of(k, 'patternProperties')
    node = fn('res_node', U, U)
    assume(is_type(node(c1), 'object'), is_type(node(c2), 'object'))
    evaluate(k)
    v, w = freshvar('e'), freshvar('f')
    known = lambda n: Or(And(h1, jhas(node(c1), n)), And(h2, Exists([w], And(rng(w, jlen(node(c2))), research(jkey(node(c2), w), n)))))
    g = lambda v: And(rng(v, jlen(i)), Not(known(jkey(i, v))))
    verdict(k, ForAll([v], Implies(g(v), EV(s, jchild(i, v)))))
    applied_exactly(k, 1, [I], g, lambda v: s, lambda v: jchild(i, v))
    ann_set(k, valid(k), lambda n: And(jhas(i, n), Not(known(n))))
    plain(k)

namenode = fn('namenode', U, U, U, U)
def name_ctor(itp, a, kw):
    """JSON(name, parent=instance, key=name): a string node (P06)"""
    if len(a) == 1 and isinstance(a[0], (SStr, str)) and set(kw) <= {'parent', 'key'}:
        t = namenode(itp.to_u(a[0]), itp.to_u(kw.get('parent')), itp.to_u(kw.get('key')))
        assume(jtype(t) == strlit('string'), jstr(t) == itp.to_u(a[0]))
        return SObj(t, JSON, True)
    return NOT

@contract('P16', 'propertyNames', *FN(A.PropertyNamesKeyword))
def property_names():
    cls = A.PropertyNamesKeyword
    declared(cls, 'propertyNames', ['object'])
    k = setup(cls, 'schema', 'object')
    core.CUR.opts['json_ctor'] = name_ctor
    s, i = k.json.t, k.inst.t
    evaluate(k)
    v = freshvar('e')
    nn = lambda v: namenode(jkey(i, v), i, jkey(i, v))
    verdict(k, ForAll([v], Implies(rng(v, jlen(i)), EV(s, nn(v)))))
    applied_exactly(k, 1, [I], lambda v: rng(v, jlen(i)), lambda v: s, nn)
    plain(k); no_annotation(k)

def min_(a, b): return z3.If(a <= b, a, b)

def prefix(k, s, i, whole):
    m = min_(jlen(s), jlen(i))
    v = freshvar('e')
    verdict(k, ForAll([v], Implies(rng(v, m), EV(jchild(s, v), jchild(i, v)))))
    applied_exactly(k, 1, [I], lambda v: rng(v, m), lambda v: jchild(s, v), lambda v: jchild(i, v), keyed(istr))
    box_axiom()
    ok = valid(k)
    cases = [(m == 0, U_NONE)]
    if whole:
        cases += [(And(m > 0, m == jlen(i)), U_TRUE), (And(m > 0, m < jlen(i)), ubox(m - 1))]
    else:
        cases += [(m > 0, ubox(m - 1))]
    ann_is(k, ok, *cases)
    plain(k)

@contract('P16', 'prefixItems', *FN(A.PrefixItemsKeyword))
def prefix_items():
    declared(A.PrefixItemsKeyword, 'prefixItems', ['array'])
    k = setup(A.PrefixItemsKeyword, 'array', 'array')
    evaluate(k)
    prefix(k, k.json.t, k.inst.t, True)

def rest(k, s, i, start, cond=True):
    """items start.. are all given to the subschema"""
    v = freshvar('e')
    g = lambda v: And(rng(v, jlen(i)), v >= start)
    prove('verdict', Implies(cond, valid(k) == ForAll([v], Implies(g(v), EV(s, jchild(i, v))))))
    applied_exactly(k, 1, [I], lambda v: And(cond, g(v)), lambda v: s, lambda v: jchild(i, v))
    ann_is(k, And(cond, valid(k)), (start < jlen(i), U_TRUE), (start >= jlen(i), U_NONE))

@contract('P16', 'items', *FN(A.ItemsKeyword))
def items():
    cls = A.ItemsKeyword
    declared(cls, 'items', ['array'], ['prefixItems'])
    k = setup(cls, 'schema', 'array')
    h, c = sib_of(k, 'prefixItems')
    node = fn('res_node', U, U)
    assume(is_type(node(c), 'array'))
    evaluate(k)
    rest(k, k.json.t, k.inst.t, z3.If(h, jlen(node(c)), z3.IntVal(0)))
    plain(k)

@contract('P16', 'contains', *FN(A.ContainsKeyword))
def contains():
    cls = A.ContainsKeyword
    declared(cls, 'contains', ['array'])
    k = setup(cls, 'schema', 'array')
    s, i = k.json.t, k.inst.t
    evaluate(k)
    v = freshvar('e')
    verdict(k, Exists([v], And(rng(v, jlen(i)), EV(s, jchild(i, v)))))
    applied_exactly(k, 1, [I], lambda v: rng(v, jlen(i)), lambda v: s, lambda v: jchild(i, v))
    seq = ann_set(k, z3.BoolVal(True), lambda v: And(rng(v, jlen(i)), EV(s, jchild(i, v))), I, lambda v: SInt(v))
    if seq is not None:
        w = freshvar('w')
        prove('annotation has no duplicates', zint(seq_len(seq)) == count_term(jlen(i), w, [(EV(s, jchild(i, w)), None)]))
    plain(k)

# 2019-09
@contract('P16', 'items (2019-09, schema)', *FN(L.ItemsKeyword_2019_09))
def items_2019():
    cls = L.ItemsKeyword_2019_09
    declared(cls, 'items', ['array'])
    k = setup(cls, 'schema', 'array')
    s, i = k.json.t, k.inst.t
    # a boolean schema decides alike for every instance (P18)
    x = z3.Const('x', U)
    assume(Implies(is_type(s, 'boolean'), ForAll([x], EV(s, x) == jbool(s))))
    evaluate(k)
    v = freshvar('e')
    verdict(k, ForAll([v], Implies(rng(v, jlen(i)), EV(s, jchild(i, v)))))
    ann_is(k, valid(k), (jlen(i) > 0, U_TRUE), (jlen(i) == 0, U_NONE))
    plain(k)

@contract('P16', 'items (2019-09, array)', *FN(L.ItemsKeyword_2019_09))
def items_2019_array():
    cls = L.ItemsKeyword_2019_09
    k = setup(cls, 'array', 'array')
    evaluate(k)
    prefix(k, k.json.t, k.inst.t, False)

@contract('P16', 'additionalItems', *FN(L.AdditionalItemsKeyword_2019_09))
def additional_items():
    cls = L.AdditionalItemsKeyword_2019_09
    declared(cls, 'additionalItems', ['array'], ['items'])
    k = setup(cls, 'schema', 'array')
    h, c = sib_of(k, 'items')
    a = fn('res_annval', U, U)(c)
    core.CUR.opts['annotation_of'] = lambda itp, o: SAny(fn('res_annval', U, U)(o.t))
    box_axiom()
    # contract of "items": none, true, or the largest index it applied to
    assume(Or(a == U_NONE, a == U_TRUE, And(kind(a) == core.INT, core.unboxI(a) >= 0, core.boxI(core.unboxI(a)) == a)))
    evaluate(k)
    act = And(h, kind(a) == core.INT)
    prove('applies iff array-form items applied', Not(bool_of(fld(k, '_discard'))) == act)
    rest(k, k.json.t, k.inst.t, core.unboxI(a) + 1, act)
    prove('asserts', bool_of(fld(k, '_assert')))
