"""P17: unevaluatedItems / unevaluatedProperties see exactly the items and
properties left over by the annotations collected for the same instance."""
from .applicators import *

ca_n = fn('ca_n', U, U, U, I); ca_at = fn('ca_at', U, U, U, I, U)
an_len = fn('an_len', U, I); an_name = fn('an_name', U, I, U); an_index = fn('an_index', U, I, I)
NAMES = ('properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties')

def c_collect_annotations(itp, a, kw):
    """Result.collect_annotations(instance, key): the annotations of the valid
    results in the subtree, for that instance and keyword (P19)"""
    self = a[0]
    inst = a[1] if len(a) > 1 else kw.get('instance')
    key = a[2] if len(a) > 2 else kw.get('key')
    if not isinstance(self, SObj): return NOT
    if inst is None or not isinstance(key, str): raise Unsupported('collect_annotations without a filter')
    p = itp.getattr(inst, 'path').t
    n = ca_n(self.t, p, strlit(key))
    at = lambda v: ca_at(self.t, p, strlit(key), v)
    assume(n >= 0)
    def el(v):
        t = at(v)
        if key in NAMES:
            return View('seq', None, mk_map(an_len(t), lambda w: SStr(an_name(t, w))))
        if key == 'contains':
            return View('seq', None, mk_map(an_len(t), lambda w: SInt(an_index(t, w))))
        return SAny(t)
    return GenV(mk_map(n, el))

def ca(k, key):
    p, q = k.parent.t, jpath(k.inst.t)
    return ca_n(p, q, strlit(key)), lambda v: ca_at(p, q, strlit(key), v)

def tfact(t, ints):
    f = t == U_TRUE
    return Or(f, And(kind(t) == core.INT, core.unboxI(t) >= 0, core.boxI(core.unboxI(t)) == t)) if ints else f

def typed(k, key, ints):
    """contract of the annotation values (P16): True or, for prefix keywords, an index"""
    n, at = ca(k, key)
    v = freshvar('t')
    core.CUR.opts.setdefault('narrow_facts', []).append(
        lambda t: tfact(t, ints) if z3.is_app(t) and t.decl().name() == 'ca_at' and t.arg(2).eq(strlit(key)) else None)
    assume(ForAll([v], Implies(rng(v, n), tfact(at(v), ints))))

def anyann(k, key, pred):
    n, at = ca(k, key)
    v = freshvar('e')
    return Exists([v], And(rng(v, n), pred(at(v))))

def uneval_items(cls, prefix, alls, contains, deps):
    declared(cls, 'unevaluatedItems', ['array'], deps)
    k = setup(cls, 'schema', 'array')
    CONTRACTS_LOCAL(k, {Result.collect_annotations: c_collect_annotations})
    s, i = k.json.t, k.inst.t
    box_axiom()
    typed(k, prefix, True)
    for a in alls: typed(k, a, False)
    evaluate(k)
    def evaluated(v):
        c = [anyann(k, prefix, lambda t: Or(t == U_TRUE, And(kind(t) == core.INT, v <= core.unboxI(t))))]
        c += [anyann(k, a, lambda t: t == U_TRUE) for a in alls]
        if contains:
            w = freshvar('w')
            c.append(anyann(k, 'contains', lambda t: Exists([w], And(rng(w, an_len(t)), an_index(t, w) == v))))
        return Or(*c)
    v = freshvar('e')
    # names for the two set expressions of the specification
    EVD = fn('spec_evaluated', I, B); ev0 = evaluated; evaluated = lambda v: EVD(v)
    assume(ForAll([v], EVD(v) == ev0(v), patterns=[EVD(v)]), ForAll([v], EVD(v) == EVD(v), patterns=[jchild(i, v)]))
    LEFT = fn('spec_left', I, B)
    assume(ForAll([v], LEFT(v) == And(rng(v, jlen(i)), Not(ev0(v))), patterns=[LEFT(v)]))
    g = lambda v: LEFT(v)
    verdict(k, ForAll([v], Implies(g(v), EV(s, jchild(i, v)))))
    applied_exactly(k, 1, [I], g, lambda v: s, lambda v: jchild(i, v))
    disc = bool_of(fld(k, '_discard'))
    prove('discarded only when every item is evaluated already', Implies(disc, ForAll([v], Implies(rng(v, jlen(i)), evaluated(v)))))
    some = Exists([v], g(v))
    ann_is(k, valid(k), (some, U_TRUE), (Not(some), U_NONE))
    prove('asserts', bool_of(fld(k, '_assert')))

@contract('P17', 'unevaluatedItems', *FN(A.UnevaluatedItemsKeyword))
def ui():
    uneval_items(A.UnevaluatedItemsKeyword, 'prefixItems', ['items', 'unevaluatedItems'], True,
                 ['prefixItems', 'items', 'contains', 'if', 'then', 'else', 'allOf', 'anyOf', 'oneOf', 'not', '$ref', '$dynamicRef'])

@contract('P17', 'unevaluatedItems (2019-09)', *FN(L.UnevaluatedItemsKeyword_2019_09))
def ui19():
    uneval_items(L.UnevaluatedItemsKeyword_2019_09, 'items', ['additionalItems', 'unevaluatedItems'], False,
                 ['items', 'additionalItems', 'if', 'then', 'else', 'allOf', 'anyOf', 'oneOf', 'not', '$ref', '$recursiveRef'])

def uneval_props(cls, deps):
    declared(cls, 'unevaluatedProperties', ['object'], deps)
    k = setup(cls, 'schema', 'object')
    CONTRACTS_LOCAL(k, {Result.collect_annotations: c_collect_annotations})
    s, i = k.json.t, k.inst.t
    evaluate(k)
    w = freshvar('w')
    evaluated = lambda n: Or(*[anyann(k, a, lambda t: Exists([w], And(rng(w, an_len(t)), an_name(t, w) == n))) for a in NAMES])
    v = freshvar('e')
    g = lambda v: And(rng(v, jlen(i)), Not(evaluated(jkey(i, v))))
    verdict(k, ForAll([v], Implies(g(v), EV(s, jchild(i, v)))))
    applied_exactly(k, 1, [I], g, lambda v: s, lambda v: jchild(i, v))
    ann_set(k, valid(k), lambda n: And(jhas(i, n), Not(evaluated(n))))
    plain(k)

PD = ['properties', 'patternProperties', 'additionalProperties', 'if', 'then', 'else', 'dependentSchemas', 'allOf', 'anyOf', 'oneOf', 'not', '$ref']
@contract('P17', 'unevaluatedProperties', *FN(A.UnevaluatedPropertiesKeyword))
def up():
    uneval_props(A.UnevaluatedPropertiesKeyword, PD + ['$dynamicRef'])
@contract('P17', 'unevaluatedProperties (2019-09)', *FN(L.UnevaluatedPropertiesKeyword_2019_09))
def up19():
    uneval_props(L.UnevaluatedPropertiesKeyword_2019_09, PD + ['$recursiveRef'])
