"""P19: result nodes - sibling lookup, collection of annotations and errors,
flags - and the annotation keywords."""
import functools
from .kwbase import *
from .seqspec import *
from .env import contract
import jschon.vocabulary.annotation as AN
from pyvc.interp import exc_class
def exc_is(exc, cls): return issubclass(exc_class(exc), cls)
from jschon.vocabulary import _UnknownKeyword

rn = fn('children_n', U, I); rc = fn('children_at', U, I, U); rk = fn('children_key', U, I, U); rp = fn('children_path', U, I, U)
coll_n = fn('coll_n', U, U, U, U, I); coll_at = fn('coll_at', U, U, U, U, I, U)

def children_setup(itp):
    """`children` of a symbolic result: a dict (keyword, path) -> result with
    distinct keys, given by uninterpreted functions"""
    ATTRS[(Result, 'children')] = lambda itp, o: View('reschildren', o)
    def entries(o): return mk_map(rn(o.obj.t), lambda v: ((SStr(rk(o.obj.t, v)), SObj(rp(o.obj.t, v), JSONPointer, True)), SObj(rc(o.obj.t, v), Result)))
    m = METHODS
    m[('view:reschildren', 'items')] = lambda itp, o, a, kw: View('items', o, entries(o))
    m[('view:reschildren', 'values')] = lambda itp, o, a, kw: View('values', o, mk_map(rn(o.obj.t), lambda v: SObj(rc(o.obj.t, v), Result)))
    m[('view:reschildren', 'keys')] = m[('view:reschildren', '__iter__')] = lambda itp, o, a, kw: mk_map(rn(o.obj.t), lambda v: (SStr(rk(o.obj.t, v)), SObj(rp(o.obj.t, v), JSONPointer, True)))
    m[('view:reschildren', '__len__')] = lambda itp, o, a, kw: SInt(rn(o.obj.t))
    def look(itp, o, k):
        if not (isinstance(k, tuple) and len(k) == 2): return None
        t, a, b = o.obj.t, itp.to_u(k[0]), itp.to_u(k[1])
        return sib_has(t, a, b), SObj(sib(t, a, b), Result)
    def get(itp, o, a, kw):
        r = look(itp, o, a[0])
        d = a[1] if len(a) > 1 else None
        return d if r is None or not branch(r[0]) else r[1]
    def item(itp, o, a, kw):
        r = look(itp, o, a[0])
        if r is None or not branch(r[0]): raise PyRaise(KeyError(a[0]))
        return r[1]
    m[('view:reschildren', 'get')] = get
    m[('view:reschildren', '__getitem__')] = item
    m[('view:reschildren', '__contains__')] = lambda itp, o, a, kw: (look(itp, o, a[0]) or (z3.BoolVal(False),))[0]
    t, k, p, v = z3.Const('c_t', U), z3.Const('c_k', U), z3.Const('c_p', U), freshvar('c')
    assume(ForAll([t], rn(t) >= 0, patterns=[rn(t)]))

def rec_contract(fnkey):
    """collect_*(instance, key) of a child: some sequence depending on the child
    and the filter (the recursion is over the finite tree of results)"""
    def h(itp, a, kw):
        self = a[0]
        inst = a[1] if len(a) > 1 else kw.get('instance')
        key = a[2] if len(a) > 2 else kw.get('key')
        if not isinstance(self, SObj) or self.t.eq(z3.Const('res', U)): return NOT
        q = [self.t, itp.to_u(inst), itp.to_u(key)]
        w = strlit(fnkey)
        n = coll_n(*q, w)
        assume(n >= 0)
        return GenV(mk_map(n, lambda v: SAny(coll_at(*q, w, v))))
    return h

def collect(which, has_inst, has_key):
    itp = Interp()
    k = KW(); k.itp = itp
    children_setup(itp)
    f = getattr(Result, which)
    CONTRACTS_LOCAL(k, {f: rec_contract(which)})
    r = z3.Const('res', U)
    self = SObj(r, Result)
    inst = SObj(z3.Const('instance', U), JSON) if has_inst else None
    key = SStr(z3.Const('key', U)) if has_key else None
    if has_key: assume(kind(key.t) == core.STR)
    assume(kind(fn('res_key', U, U)(r)) == core.STR)
    args = {}
    if has_inst: args['instance'] = inst
    if has_key: args['key'] = key
    g, exc = run_contract(lambda: itp.call(f, [self], args))
    no_exception(which, exc)
    seq, exc = run_contract(lambda: itp.iterate(g)) if not isinstance(g, Seq) else (g, None)
    no_exception(which, exc)
    valid, disc = fn('res_valid', U, B)(r), fn('res_discard', U, B)(r)
    ann = which == 'collect_annotations'
    sel = And(valid if ann else Not(valid), Not(disc))
    if not branch(sel):
        prove('nothing is collected', Not(tb(seq_nonempty(seq))) if not any(isinstance(p, Opq) for p in seq.parts) else False)
        return
    own_c, own_v = (res_hasann(r), res_ann(r)) if ann else (fn('res_haserr', U, B)(r), fn('res_error', U, U)(r))
    if has_key: own_c = And(own_c, fn('res_hasparent', U, B)(r), fn('res_key', U, U)(r) == key.t)
    if has_inst: own_c = And(own_c, jpath(fn('res_instance', U, U)(r)) == jpath(inst.t))
    own = branch(own_c)
    ui, uk, w = itp.to_u(inst), itp.to_u(key), strlit(which)
    v, x = freshvar('c'), freshvar('d')
    want = Seq(([Lit(Opaque(own_v, 'own'))] if own else []) + [Map(v, rn(r), [(True, Seq([Map(x, coll_n(rc(r, v), ui, uk, w), [(True, Seq([Lit(SAny(coll_at(rc(r, v), ui, uk, w, x)))]))])]))])])
    prove_seq(itp, 'collects its own entry, then those of its subresults in order', seq, want)

for _w in ('collect_annotations', 'collect_errors'):
    for _i in (False, True):
        for _k in (False, True):
            contract(('P19', 'P17') if _w == 'collect_annotations' else 'P19', f'{_w}({"instance" if _i else ""}{", " if _i and _k else ""}{"key" if _k else ""})', f'Result.{_w}')(
                (lambda w, i, k: lambda: collect(w, i, k))(_w, _i, _k))

@contract('P19', 'sibling', 'Result.sibling')
def sibling():
    itp = Interp(); k = KW(); k.itp = itp
    children_setup(itp)
    CONTRACTS_LOCAL(k, {Result.sibling: lambda *_: NOT})
    r, p = z3.Const('res', U), fn('res_parent', U, U)(z3.Const('res', U))
    inst = SObj(z3.Const('instance', U), JSON); key = SStr(z3.Const('key', U))
    assume(kind(key.t) == core.STR)
    v, exc = run_contract(lambda: itp.call(Result.sibling, [SObj(r, Result), inst, key]))
    no_exception('sibling', exc)
    has = And(fn('res_hasparent', U, B)(r), sib_has(p, key.t, jpath(inst.t)))
    prove('the result of the adjacent keyword for this location, or None', itp.to_u(v) == z3.If(has, sib(p, key.t, jpath(inst.t)), U_NONE) if v is None or isinstance(v, (SObj, Opt)) else False)
    if not branch(has): prove('None when there is none', v is None or (isinstance(v, Opt) and core.entails(Not(v.cond))))
    else: prove('a result', v is not None)

@contract(('P18', 'P19'), 'result flags', 'Result.__init__', 'Result.annotate', 'Result.fail', 'Result.pass_', 'Result.noassert', 'Result.discard', 'Result.valid', 'Result.passed')
def flags():
    itp = Interp()
    CLASSCALL[JSONPointer] = ptr_new
    schema, inst = SObj(z3.Const('schema', U), JSONSchema), SObj(z3.Const('instance', U), JSON)
    r = itp.construct(Result, [schema, inst], {})
    g = lambda n: itp.getattr(r, n)
    def st(): return [bool_of(g('_valid')), bool_of(g('_assert')), bool_of(g('_discard'))]
    def expect(name, v, a, d, ann, err):
        prove(f'{name}: flags', And(bool_of(g('valid')) == v, bool_of(g('passed')) == Or(v, Not(a)), bool_of(g('_discard')) == d))
        for f, x in (('annotation', ann), ('error', err)):
            y = g(f)
            prove(f'{name}: {f}', (y is None) if x is None else (isinstance(y, Opaque) and y.t.eq(x.t)))
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
    expect('initially', T_, T_, F_, None, None)
    av, aa, ad = z3.Bool('v0'), z3.Bool('a0'), z3.Bool('d0')
    def reset():
        itp.setattr(r, '_valid', SBool(av)); itp.setattr(r, '_assert', SBool(aa)); itp.setattr(r, '_discard', SBool(ad))
        itp.setattr(r, 'annotation', x0); itp.setattr(r, 'error', e0)
    x0, e0, y = (Opaque(z3.Const(n, U), 'jsonvalue') for n in ('ann0', 'err0', 'newval'))
    for n in ('valid', 'passed'):
        d = Result.__dict__[n]
        prove(f'{n}: computed at each access', not isinstance(d, functools.cached_property) and not hasattr(getattr(d, 'fget', None), 'cache_info'))
    reset(); itp.call(Result.annotate, [r, y]); expect('annotate', av, aa, ad, y, e0)
    reset(); itp.call(Result.fail, [r, y]); expect('fail', F_, aa, ad, x0, y)
    reset(); itp.call(Result.fail, [r]); expect('fail without an error', F_, aa, ad, x0, None)
    reset(); itp.call(Result.pass_, [r]); expect('pass_', T_, aa, ad, x0, None)
    reset(); itp.call(Result.noassert, [r]); expect('noassert', av, F_, ad, x0, e0)
    reset(); itp.call(Result.discard, [r]); expect('discard', av, aa, T_, x0, e0)

def annotation_keyword(cls, key, types):
    @contract('P19', key, f'{cls.__name__}.evaluate', 'Keyword.__init__', 'Result.annotate', 'Result.noassert')
    def scen():
        declared(cls, key, types, ('contentMediaType',) if key == 'contentSchema' else ())
        k = setup(cls, None, types if len(types) < 6 else None)
        evaluate(k)
        if key == 'contentSchema':
            has = sib_has(k.parent.t, strlit('contentMediaType'), jpath(k.inst.t))
            if not branch(has):
                prove('discarded without contentMediaType', bool_of(fld(k, '_discard')))
                return
        prove('never affects validity', And(valid(k), bool_of(fld(k, 'passed'))))
        prove('not discarded', Not(bool_of(fld(k, '_discard'))))
        prove('records its own value', k.itp.to_u(ann(k)) == jvalue(k.json.t))
        no_children(k)

for _c, _k, _t in ((AN.TitleKeyword, 'title', TYPES), (AN.DescriptionKeyword, 'description', TYPES),
                   (AN.DefaultKeyword, 'default', TYPES), (AN.DeprecatedKeyword, 'deprecated', TYPES), (AN.ReadOnlyKeyword, 'readOnly', TYPES),
                   (AN.WriteOnlyKeyword, 'writeOnly', TYPES), (AN.ExamplesKeyword, 'examples', TYPES),
                   (AN.ContentMediaTypeKeyword, 'contentMediaType', ('string',)), (AN.ContentEncodingKeyword, 'contentEncoding', ('string',)),
                   (AN.ContentSchemaKeyword, 'contentSchema', ('string',))):
    annotation_keyword(_c, _k, _t)

# ------------------------------------------------------------ subresults
def _driver(result, instance, key, schema, cls, body):
    with (result(instance, key, schema, cls=cls) if cls else result(instance, key, schema) if schema is not None else result(instance, key)) as sub:
        body(sub)

class _Custom(Result):
    """an extension's own class of results"""

def subresult_case(given, custom, fails):
    itp = Interp(); k = KW(); k.itp = itp
    CLASSCALL[JSONPointer] = ptr_new
    schema, inst = SObj(z3.Const('schema', U), JSONSchema), SObj(z3.Const('instance', U), JSON)
    psch, pinst = SObj(z3.Const('parent_schema', U), JSONSchema), SObj(z3.Const('parent_instance', U), JSON)
    key = SStr(z3.Const('key', U)); assume(kind(key.t) == core.STR)
    par = itp.construct(Result, [psch, pinst], dict(parent=SObj(z3.Const('grandparent', U), Result), key=SStr(z3.Const('parent_key', U))))
    pk, pp, pc = fn('pk', I, U), fn('pp', I, U), fn('pc', I, U)
    m = z3.Int('m'); x = freshvar('q')
    assume(m >= 0, ForAll([x], Implies(rng(x, m), Not(And(pk(x) == key.t, pp(x) == jpath(inst.t)))), patterns=[pk(x)]))
    others = mk_map(m, lambda x: ((SStr(pk(x)), SObj(pp(x), JSONPointer, True)), SObj(pc(x), Result)))
    itp.set_content(itp.getattr(par, 'children'), others)
    d = z3.Bool('discarded'); seen = []
    same_entry = lambda a, b: And(itp.to_u(a[0][0]) == itp.to_u(b[0][0]), itp.to_u(a[0][1]) == itp.to_u(b[0][1]), tb(itp.is_(a[1], b[1])))
    g = lambda f: itp.getattr(seen[0], f)
    def body(itp, a, kw):
        seen.append(a[0])
        ok = isinstance(a[0], Inst) and a[0].cls is (_Custom if custom else Result)
        prove('a result of the class asked for, or of the class of its parent', ok, repr(a[0]))
        if not ok: raise core.Infeasible()
        prove('registered while it is open', seq_exists(itp.content(itp.getattr(par, 'children')), lambda e: And(itp.to_u(e[0][0]) == key.t, itp.to_u(e[0][1]) == jpath(inst.t), tb(itp.is_(e[1], a[0])))))
        itp.setattr(a[0], '_discard', SBool(d))
        if fails: raise PyRaise(KeyError('x'))
    def hook(): pass
    CONTRACTS_LOCAL(k, {hook: body})
    _, exc = run_contract(lambda: itp.call(_driver, [par, inst, key, schema if given else None, _Custom if custom else None, hook]))
    prove('opened once', len(seen) == 1)
    if fails: prove('a failure goes through', exc is not None and exc_is(exc, KeyError), repr(exc))
    else: no_exception('subresult', exc)
    if len(seen) != 1: return
    want = schema if given else psch
    prove('its parent', tb(itp.is_(g('parent'), par))); prove('its key', itp.to_u(g('key')) == key.t)
    prove('its instance', itp.to_u(g('instance')) == inst.t); prove('its schema: the one given or that of its parent', itp.to_u(g('schema')) == want.t)
    prove('its evaluation path', itp.to_u(g('path')) == pchild(itp.getattr(par, 'path').t, key.t))
    prove('its path within the evaluating schema', itp.to_u(g('relpath')) == z3.If(want.t == psch.t, pchild(itp.getattr(par, 'relpath').t, key.t), pchild(PTR_ROOT, key.t)))
    prove('empty', not itp.content(g('children')).parts and itp.getattr(seen[0], 'annotation') is None and itp.getattr(seen[0], 'error') is None and itp.getattr(seen[0], '_refschema') is None)
    after = itp.content(itp.getattr(par, 'children'))
    if branch(d): prove_seq(itp, 'a discarded result leaves nothing behind', after, others, same_entry)
    else: prove_seq(itp, 'it stays, after the others', after, others + lits([((key, SObj(jpath(inst.t), JSONPointer, True)), seen[0])]), same_entry)

for _g in (False, True):
    for _c in (False, True):
        for _f in (False, True):
            contract(('P18', 'P19'), f'subresult{", schema given" if _g else ""}{", own class" if _c else ""}{", failing" if _f else ""}', 'Result.__call__', 'Result.__init__')(
                (lambda g, c, f: lambda: subresult_case(g, c, f))(_g, _c, _f))

@contract(('P18', 'P20'), 'node of a result', 'Result.schema_node')
def schema_node():
    itp = Interp(); k = KW(); k.itp = itp
    node = fn('pointer_target', U, U, U)
    def ev(itp, a, kw):
        return SObj(node(a[0].t, itp.to_u(a[1])), JSON)
    CONTRACTS_LOCAL(k, {JSONPointer.evaluate: ev})
    r = SObj(z3.Const('res', U), Result)
    v, exc = run_contract(lambda: itp.call(Result.__dict__['schema_node'].func, [r])); no_exception('schema_node', exc)
    prove('what the relative path denotes in the evaluating schema', itp.to_u(v) == node(fn('res_relpath', U, U)(r.t), fn('res_schema', U, U)(r.t)))
