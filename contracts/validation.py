"""P14: assertion keywords."""
from .kwbase import *
from .env import contract
import jschon.vocabulary.validation as V_
P = 'P14'
FN = lambda c: (f'{c.__name__}.evaluate', f'{c.__name__}.__init__')

def simple(cls, key, jtyp, types, cond, inst_types=None, axioms=(), depends=()):
    """a keyword whose verdict is a condition on the two values"""
    @contract(P, f'{key}', *FN(cls))
    def scen():
        declared(cls, key, types, depends)
        k = setup(cls, jtyp, tuple(types), axioms=axioms)
        evaluate(k)
        verdict(k, cond(k, k.inst.t, k.json.t))
        plain(k); no_annotation(k); no_children(k)

T = TYPES
simple(V_.ConstKeyword, 'const', None, T, lambda k, i, s: jeq(i, s), axioms=[JEQ_AXIOMS])
def enum_cond(k, i, s):
    v = freshvar('e')
    return Exists([v], And(rng(v, jlen(s)), jeq(i, jchild(s, v))))
simple(V_.EnumKeyword, 'enum', 'array', T, enum_cond, axioms=[JEQ_AXIOMS])

num = lambda f: lambda k, i, s: f(jnum(i), jnum(s))
simple(V_.MaximumKeyword, 'maximum', 'number', ['number'], num(lambda a, b: a <= b))
simple(V_.ExclusiveMaximumKeyword, 'exclusiveMaximum', 'number', ['number'], num(lambda a, b: a < b))
simple(V_.MinimumKeyword, 'minimum', 'number', ['number'], num(lambda a, b: a >= b))
simple(V_.ExclusiveMinimumKeyword, 'exclusiveMinimum', 'number', ['number'], num(lambda a, b: a > b))
dv = lambda t: decval(jnum(t), jisint(t))
simple(V_.MultipleOfKeyword, 'multipleOf', 'number', ['number'],
       lambda k, i, s: And(dv(s) != 0, fn('exact_mod', R, R, R)(dv(i), dv(s)) == 0))
ln_ = lambda t: z3.ToReal(strlen(jstr(t)))
simple(V_.MaxLengthKeyword, 'maxLength', 'number', ['string'], lambda k, i, s: ln_(i) <= jnum(s))
simple(V_.MinLengthKeyword, 'minLength', 'number', ['string'], lambda k, i, s: ln_(i) >= jnum(s))
sz = lambda t: z3.ToReal(jlen(t))
simple(V_.MaxItemsKeyword, 'maxItems', 'number', ['array'], lambda k, i, s: sz(i) <= jnum(s))
simple(V_.MinItemsKeyword, 'minItems', 'number', ['array'], lambda k, i, s: sz(i) >= jnum(s))
simple(V_.MaxPropertiesKeyword, 'maxProperties', 'number', ['object'], lambda k, i, s: sz(i) <= jnum(s))
simple(V_.MinPropertiesKeyword, 'minProperties', 'number', ['object'], lambda k, i, s: sz(i) >= jnum(s))
simple(V_.PatternKeyword, 'pattern', 'string', ['string'], lambda k, i, s: fn('re_search', U, U, B)(jstr(s), jstr(i)))
def unique(k, i, s):
    a, b = freshvar('a'), freshvar('b')
    return Or(Not(jbool(s)), ForAll([a, b], Implies(And(0 <= a, a < b, b < jlen(i)), Not(jeq(jchild(i, a), jchild(i, b))))))
simple(V_.UniqueItemsKeyword, 'uniqueItems', 'boolean', ['array'], unique, axioms=[JEQ_AXIOMS])

# ---- type: the keyword value is a string or an array of strings
@contract(P, 'type', *FN(V_.TypeKeyword))
def type_():
    declared(V_.TypeKeyword, 'type', T)
    k = setup(V_.TypeKeyword, None)
    s, i = k.json.t, k.inst.t
    assume(is_type(s, 'string', 'array'))
    v = freshvar('e')
    assume(Implies(is_type(s, 'array'), ForAll([v], Implies(rng(v, jlen(s)), And(is_type(jchild(s, v), 'string'), kind(jstr(jchild(s, v))) == core.STR)))))
    assume(Implies(is_type(s, 'string'), kind(jstr(s)) == core.STR))
    assume(*JEQ_STR())
    evaluate(k)
    def names(f):
        return Or(And(is_type(s, 'string'), f(jstr(s))), And(is_type(s, 'array'), Exists([v], And(rng(v, jlen(s)), f(jstr(jchild(s, v)))))))
    verdict(k, Or(names(lambda n: n == jtype(i)),
                  And(is_type(i, 'number'), names(lambda n: n == strlit('integer')), z3.IsInt(jnum(i)))))
    plain(k); no_annotation(k); no_children(k)

@contract(P, 'required', *FN(V_.RequiredKeyword))
def required():
    declared(V_.RequiredKeyword, 'required', ['object'])
    k = setup(V_.RequiredKeyword, 'array', 'object')
    s, i = k.json.t, k.inst.t
    set_types(s, 'string')
    evaluate(k)
    v = freshvar('e')
    verdict(k, ForAll([v], Implies(rng(v, jlen(s)), jhas(i, jstr(jchild(s, v))))))
    plain(k); no_annotation(k); no_children(k)

@contract(P, 'dependentRequired', *FN(V_.DependentRequiredKeyword))
def dependent_required():
    declared(V_.DependentRequiredKeyword, 'dependentRequired', ['object'])
    k = setup(V_.DependentRequiredKeyword, 'object', 'object')
    s, i = k.json.t, k.inst.t
    v, w = freshvar('e'), freshvar('f')
    c = jchild(s, v)
    set_types(s, 'array', 'string')
    evaluate(k)
    verdict(k, ForAll([v], Implies(And(rng(v, jlen(s)), jhas(i, jkey(s, v))),
                                   ForAll([w], Implies(rng(w, jlen(c)), jhas(i, jstr(jchild(c, w))))))))
    plain(k); no_annotation(k); no_children(k)

# ---- minContains / maxContains: the sibling's annotation is the list of the
# matching indices (contract of ContainsKeyword, P16)
ann_len = fn('ann_len', U, I); ann_at = fn('ann_at', U, I, I)
def contains_annotation(itp, o):
    assume(ann_len(o.t) >= 0)
    return Opt(res_hasann(o.t), itp.new_cont('list', mk_map(ann_len(o.t), lambda v: mkint(ann_at(o.t, v)))))

def sib_of(k, key):
    p = k.parent.t
    pt = jpath(k.inst.t)
    return sib_has(p, strlit(key), pt), sib(p, strlit(key), pt)

@contract(P, 'maxContains', *FN(V_.MaxContainsKeyword))
def max_contains():
    declared(V_.MaxContainsKeyword, 'maxContains', ['array'], ['contains'])
    k = setup(V_.MaxContainsKeyword, 'number', 'array')
    core.CUR.opts['annotation_of'] = contains_annotation
    h, c = sib_of(k, 'contains')
    assume(jnum(k.json.t) >= 0)      # the metaschema's nonNegativeInteger
    evaluate(k)
    verdict(k, Or(Not(h), Not(res_hasann(c)), z3.ToReal(ann_len(c)) <= jnum(k.json.t)))
    plain(k); no_annotation(k); no_children(k)

@contract(P, 'minContains', *FN(V_.MinContainsKeyword))
def min_contains():
    declared(V_.MinContainsKeyword, 'minContains', ['array'], ['contains'])
    k = setup(V_.MinContainsKeyword, 'number', 'array')
    core.CUR.opts['annotation_of'] = contains_annotation
    h, c = sib_of(k, 'contains')
    hm, m = sib_of(k, 'maxContains')
    # the sibling results are distinct nodes, and "contains" is valid iff it matched something
    rv = fn('res_valid', U, B)
    assume(Implies(And(h, hm), c != m), Implies(h, And(res_hasann(c), rv(c) == (ann_len(c) > 0))))
    evaluate(k)
    enough = z3.ToReal(ann_len(c)) >= jnum(k.json.t)
    verdict(k, Or(Not(h), enough))
    # a minContains that is satisfied without matches makes "contains" pass
    cv, exc = run_contract(lambda: k.itp.getattr(SObj(c, Result), '_valid'))
    no_exception('sibling', exc)
    prove('"contains" passes iff it matched or minContains allows none', Implies(h, bool_of(cv) == Or(rv(c), And(enough, Or(Not(hm), rv(m))))))
    plain(k); no_annotation(k); no_children(k)
