"""P21: base URIs, identifiers, anchors and references."""
from .catalogs import *
from .seqspec import prove_seq
from . import kwbase
from .kwbase import declared
from jschon.vocabulary import Keyword
import jschon.vocabulary.core as VC, jschon.vocabulary.legacy as VL, jschon.vocabulary.future as VF
import functools

anc = fn('ancestor', U, I, U); depth = z3.Const('depth', I)          # nodes from the schema (0) to the root of the document (depth)
sanc = fn('schema_ancestor', U, I, U); sdepth = z3.Const('schema_depth', I)   # the schemas among them
T = z3.Const('schema', U)
hasuri = fn('has_uri', U, B); urif = fn('schema_uri', U, U)
hasmeta = fn('has_metaschema_uri', U, B); metaf = fn('schema_metaschema_uri', U, U); hasid = fn('has_id_keyword', U, B)

def getter(cls, name, current=False):
    """the function behind an attribute; current: what it depends on can change (the URI of a schema and its metaschema can be set),
    so it has to be computed at each access and not kept"""
    d = cls.__dict__[name]
    if current: prove(f'{name}: computed at each access', not isinstance(d, functools.cached_property) and not hasattr(getattr(d, 'fget', None), 'cache_info'))
    return getattr(d, 'func', None) or d.fget

def only_schema(f):
    """attributes of schemas, read from a node that may be any"""
    def h(itp, o):
        if not issubclass(o.cls, JSONSchema): prove('an attribute of schemas is read from a schema', isschema(o.t))
        return f(itp, o)
    return h
def own_attrs():
    ATTRS[(JSON, '_uri')] = ATTRS[(JSONSchema, '_uri')] = only_schema(lambda itp, o: Opt(hasuri(o.t), SObj(urif(uri_known(o.t)), URI, True)))
    ATTRS[(JSON, '_metaschema_uri')] = ATTRS[(JSONSchema, '_metaschema_uri')] = only_schema(lambda itp, o: Opt(hasmeta(o.t), SObj(metaf(o.t), URI, True)))
    ATTRS[(JSON, 'keywords')] = ATTRS[(JSONSchema, 'keywords')] = only_schema(lambda itp, o: View('kwnames', o.t))
    def contains(itp, o, a, kw):
        if a[0] != '$id': raise Unsupported(f'keyword {a[0]!r}')
        return hasid(o.obj)
    METHODS[('view:kwnames', '__contains__')] = contains
def uri_known(t):
    uri_facts(urif(t)); return t

def node_chain(itp):
    """the nodes above a schema"""
    own_attrs()
    i = freshvar('i')
    assume(depth >= 0, anc(T, z3.IntVal(0)) == T, isschema(T),
           ForAll([i], Implies(And(i >= 0, i <= depth), jhasparent(anc(T, i)) == (i < depth)), patterns=[anc(T, i)]),
           ForAll([i], Implies(And(i >= 0, i < depth), anc(T, i + 1) == jparent(anc(T, i))), patterns=[anc(T, i)]))
    def at(t):
        if t.eq(T): return z3.IntVal(0)
        if z3.is_app(t) and t.decl().eq(anc): return t.arg(1)
        if z3.is_app(t) and t.decl().eq(jparent): return z3.simplify(at(t.arg(0)) + 1)
        raise Unsupported(f'not in the chain: {t}')
    def inv(itp, init, v):
        if isinstance(init, Opt) and isinstance(init.val, SObj):
            try: k = at(init.val.t)
            except Unsupported: return None
            return lambda j: Opt(k + j <= depth, SObj(anc(T, z3.simplify(k + j)), JSON))
        if isinstance(init, SObj):
            try: k = at(init.t)
            except Unsupported: return None
            return lambda j: SObj(anc(T, z3.simplify(k + j)), JSON)
        return None
    core.CUR.opts['loop_inv'] = [inv]
    def key(itp, o):
        assume(kind(jkeyof(o.t)) == core.STR)
        return SStr(jkeyof(o.t)) if core.entails(jhasparent(o.t)) else Opt(jhasparent(o.t), SStr(jkeyof(o.t)))
    ATTRS[(JSON, 'key')] = key
    return SObj(T, JSONSchema)

def schema_chain(itp):
    """the schemas above a schema (contract of parentschema)"""
    own_attrs()
    i = freshvar('i')
    assume(sdepth >= 0, sanc(T, z3.IntVal(0)) == T,
           # a subschema belongs to a keyword of its parent
           ForAll([i], Implies(And(i >= 1, i <= sdepth), And(jtype(sanc(T, i)) == strlit('object'), jlen(sanc(T, i)) > 0)), patterns=[sanc(T, i)]))
    def at(t):
        if t.eq(T): return z3.IntVal(0)
        if z3.is_app(t) and t.decl().eq(sanc): return t.arg(1)
        raise Unsupported(f'not in the chain: {t}')
    def parent(itp, o):
        k = at(o.t)
        return Opt(k < sdepth, SObj(sanc(T, z3.simplify(k + 1)), JSONSchema))
    ATTRS[(JSONSchema, 'parentschema')] = parent
    def inv(itp, init, v):
        if isinstance(init, Opt) and isinstance(init.val, SObj):
            try: k = at(init.val.t)
            except Unsupported: return None
            return lambda j: Opt(k + j <= sdepth, SObj(sanc(T, z3.simplify(k + j)), JSONSchema))
        if isinstance(init, SObj):
            try: k = at(init.t)
            except Unsupported: return None
            if isinstance(v, Opt) or v is None: return lambda j: Opt(k + j <= sdepth, SObj(sanc(T, z3.simplify(k + j)), JSONSchema))
            return lambda j: SObj(sanc(T, z3.simplify(k + j)), JSONSchema)
        return None
    core.CUR.opts['loop_inv'] = [inv]
    return SObj(T, JSONSchema), at

def recursion(k):
    """the property of the schema itself may use that of a schema further up"""
    if not core.entails(k >= 1): raise Unsupported('the property is defined by itself')

def nearest(chain, lo, hi, p, is_it, none):
    """is_it(f) for the first index f in [lo, hi] with p, or none"""
    f, i = freshvar('f'), freshvar('i')
    before = lambda f: ForAll([i], Implies(And(lo <= i, i < f), Not(p(chain(i)))))
    return Or(And(before(hi + 1), none), Exists([f], And(lo <= f, f <= hi, p(chain(f)), before(f), is_it(chain(f)))))

@contract('P21', 'parent schema', 'JSONSchema.parentschema')
def parentschema():
    itp = Interp(); s = node_chain(itp)
    r, exc = run_contract(lambda: itp.call(getter(JSONSchema, 'parentschema'), [s])); no_exception('parentschema', exc)
    u = itp.to_u(r)
    prove('the nearest schema that contains the schema, or None', nearest(lambda i: anc(T, i), 1, depth, isschema, lambda x: u == x, u == U_NONE))

@contract('P21', 'root schema of the document', 'JSONSchema.document_rootschema')
def document_root():
    itp = Interp(); uris(itp); s, at = schema_chain(itp)
    def above(itp, o):
        recursion(at(o.t)); return SObj(sanc(T, sdepth), JSONSchema)
    ATTRS[(JSONSchema, 'document_rootschema')] = above
    r, exc = run_contract(lambda: itp.call(getter(JSONSchema, 'document_rootschema'), [s])); no_exception('document_rootschema', exc)
    prove('the outermost schema', itp.to_u(r) == sanc(T, sdepth))

@contract('P21', 'root schema of the resource', 'JSONSchema.resource_rootschema')
def resource_root():
    itp = Interp(); uris(itp); s, at = schema_chain(itp)
    ATTRS[(JSONSchema, 'document_rootschema')] = lambda itp, o: (at(o.t), SObj(sanc(T, sdepth), JSONSchema))[1]
    def above(itp, o):
        k = at(o.t); recursion(k)
        f, i = fresh('nearest', I), freshvar('i')
        assume(k <= f, f <= sdepth, ForAll([i], Implies(And(k <= i, i < f), Not(hasid(sanc(T, i))))), Implies(f < sdepth, hasid(sanc(T, f))))
        return SObj(sanc(T, f), JSONSchema)
    ATTRS[(JSONSchema, 'resource_rootschema')] = above
    r, exc = run_contract(lambda: itp.call(getter(JSONSchema, 'resource_rootschema'), [s])); no_exception('resource_rootschema', exc)
    u = itp.to_u(r)
    prove('the nearest schema with "$id", or the outermost', nearest(lambda i: sanc(T, i), 0, sdepth, hasid, lambda x: u == x, u == sanc(T, sdepth)))

def inherited(name, has, val):
    """the value of an inherited property of the schemas above (contract of the property itself)"""
    def h(itp, o, at):
        k = at(o.t)
        f, i = fresh('nearest', I), freshvar('i')
        assume(k <= f, f <= sdepth + 1, ForAll([i], Implies(And(k <= i, i < f), Not(has(sanc(T, i))))), Implies(f <= sdepth, has(sanc(T, f))))
        return Opt(f <= sdepth, SObj(val(sanc(T, f)), URI, True))
    return h

@contract(('P21', 'P25'), 'metaschema URI', 'JSONSchema.metaschema_uri')
def metaschema_uri():
    itp = Interp(); uris(itp); s, at = schema_chain(itp)
    h = inherited('metaschema_uri', hasmeta, metaf)
    ATTRS[(JSONSchema, 'metaschema_uri')] = lambda itp, o: h(itp, o, at)
    r, exc = run_contract(lambda: itp.call(getter(JSONSchema, 'metaschema_uri', True), [s])); no_exception('metaschema_uri', exc)
    u = itp.to_u(r)
    prove('that of the nearest schema that sets one', nearest(lambda i: sanc(T, i), 0, sdepth, hasmeta, lambda x: u == metaf(x), u == U_NONE))

@contract('P21', 'base URI', 'JSONSchema.base_uri')
def base_uri():
    itp = Interp(); uris(itp); s, at = schema_chain(itp)
    h = inherited('base_uri', hasuri, lambda x: nofrag(uri_facts(urif(x))))
    ATTRS[(JSONSchema, 'base_uri')] = lambda itp, o: h(itp, o, at)
    ATTRS[(JSONSchema, 'uri')] = ATTRS[(JSONSchema, '_uri')]
    r, exc = run_contract(lambda: itp.call(getter(JSONSchema, 'base_uri', True), [s])); no_exception('base_uri', exc)
    u = itp.to_u(r)
    prove('the URI of the nearest schema that has one, without a fragment', nearest(lambda i: sanc(T, i), 0, sdepth, hasuri, lambda x: u == nofrag(urif(x)), u == U_NONE))

def pointer_records(itp):
    """pointers as a starting pointer and the keys appended to it (contracts established by P01 and P03)"""
    def mk(base, keys): return View('pointer', SAny(base), keys)
    def of(x): return (x.obj.t, x.seq) if isinstance(x, View) else (x.t, Seq([]))
    def isptr(x): return (isinstance(x, View) and x.kind == 'pointer') or (isinstance(x, SObj) and issubclass(x.cls, JSONPointer))
    def tokens(t): return Seq([Map(freshvar('tk'), fn('pointer_length', U, I)(t), [(z3.BoolVal(True), lits([SStr(t)]))])])
    def items(itp, x):
        if isinstance(x, (str, SStr)): raise Unsupported('pointer from a text')
        if isptr(x):
            b, k = of(x)
            return k if b.eq(PTR_ROOT) else tokens(b) + k
        return itp.iterate(x)
    def new(itp, a, kw):
        if kw: raise Unsupported('JSONPointer()')
        if len(a) == 1 and isptr(a[0]): return a[0]
        s = Seq([])
        for x in a:
            if isinstance(x, str) and x == '': continue
            s = s + items(itp, x)
        return mk(PTR_ROOT, s)
    CLASSCALL[JSONPointer] = new
    def div(itp, a, kw):
        b, k = of(a[0])
        y = a[1]
        if isinstance(y, Opt): y = y.val if branch(y.cond) else None
        if isinstance(y, (str, SStr)): return mk(b, k + lits([y]))
        return mk(b, k + items(itp, y))
    CONTRACTS[JSONPointer.__truediv__] = div
    METHODS[('view:pointer', '__truediv__')] = lambda itp, o, a, kw: div(itp, [o] + list(a), kw)
    assume(ptr_ok(strlit('')), ptr_of(strlit('')) == PTR_ROOT)
    def parse(itp, a, kw):
        f = itp.to_u([x for x in a if x is not JSONPointer][0])
        if not branch(ptr_ok(f)): itp.throw(JSONPointerMalformedError, 'malformed')
        return mk(ptr_of(f), Seq([]))
    CONTRACTS[JSONPointer.parse_uri_fragment.__func__] = parse
    def fragment(itp, a, kw):
        return View('ptrfragment', SAny(of(a[0])[0]), of(a[0])[1])
    CONTRACTS[JSONPointer.uri_fragment] = fragment
    METHODS[('view:pointer', 'uri_fragment')] = lambda itp, o, a, kw: fragment(itp, [o], kw)
    copy0 = CONTRACTS[URI.copy]
    def copy(itp, a, kw):
        f = kw.get('fragment')
        if isinstance(f, View) and f.kind == 'ptrfragment' and len(a) == 1 and set(kw) == {'fragment'}:
            return View('pointeruri', (SAny(nofrag(uri_facts(a[0].t))), f.obj), f.seq)
        return copy0(itp, a, kw)
    CONTRACTS[URI.copy] = copy
    def located(v):
        """the URI a copy(fragment=pointer.uri_fragment()) was made from, and the pointer"""
        if not (isinstance(v, View) and v.kind == 'pointeruri'): return None
        return v.obj[0].t, (v.obj[1].t, v.seq)
    return located, tokens

def fragment_fact(t):
    """a fragment in the URI of a schema is a pointer (precondition)"""
    f = uval('fragment', t)
    assume(Implies(uhas('fragment', t), And(ptr_ok(f), kind(f) == core.STR)))
def start_of(t):
    f = uval('fragment', t)
    return z3.If(And(uhas('fragment', t), f != strlit('')), ptr_of(f), PTR_ROOT)

@contract('P21', 'canonical URI', 'JSONSchema.canonical_uri')
def canonical_uri():
    itp = Interp(); uris(itp); s = node_chain(itp)
    located, tokens = pointer_records(itp)
    i = freshvar('i')
    v = z3.Const('cu_t', U)
    assume(ForAll([v], Implies(uhas('fragment', urif(v)), And(ptr_ok(uval('fragment', urif(v))), kind(uval('fragment', urif(v))) == core.STR)), patterns=[urif(v)]))
    r, exc = run_contract(lambda: itp.call(getter(JSONSchema, 'canonical_uri', True), [s])); no_exception('canonical_uri', exc)
    has = lambda x: And(isschema(x), hasuri(x))
    if isinstance(r, Opt): r = r.val if branch(r.cond) else None
    if r is None:
        prove('None only without a schema URI at or above the schema', ForAll([i], Implies(And(0 <= i, i <= depth), Not(has(anc(T, i)))))); return
    if branch(hasuri(T)):
        prove('the URI of the schema itself', itp.to_u(r) == urif(T)); return
    loc = located(r)
    prove('a URI with the fragment of a pointer', loc is not None, repr(r))
    if loc is None: return
    base, (start, keys) = loc
    f = fresh('nearest', I)
    assume(1 <= f, f <= depth + 1, ForAll([i], Implies(And(1 <= i, i < f), Not(has(anc(T, i))))), Implies(f <= depth, has(anc(T, f))))
    prove('some schema above has a URI', f <= depth)
    a = anc(T, f)
    prove('the URI of the nearest of them', base == nofrag(urif(a)))
    prove('from the place this URI identifies', start == start_of(urif(a)))
    prove_seq(itp, 'along the keys down to the schema', keys, mk_map(f, lambda j: SStr(jkeyof(anc(T, z3.simplify(f - 1 - j))))))

@contract('P21', 'URI of the schema location of a result', 'Result.absolute_uri', 'Result.refschema')
def absolute_uri():
    itp = Interp(); uris(itp); own_attrs()
    located, tokens = pointer_records(itp)
    chas, cu = fn('has_canonical_uri', U, B), fn('canonical_uri', U, U)
    def canonical(itp, o):
        uri_facts(cu(o.t)); fragment_fact(cu(o.t))
        return Opt(chas(o.t), SObj(cu(o.t), URI, True))
    ATTRS[(JSONSchema, 'canonical_uri')] = canonical
    res = SObj(z3.Const('result', U), Result)
    how = core.choose(2)
    if how:
        ref = sch('refschema'); stored = {}
        def set_(itp, o, v): stored['v'] = v
        ATTRS[(Result, '_refschema', 'set')] = set_
        _, exc = run_contract(lambda: itp.call(Result.refschema, [res, ref])); no_exception('refschema', exc)
        ok = isinstance(stored.get('v'), SObj) and stored['v'].t.eq(ref.t)
        prove('the referenced schema is recorded', ok, repr(stored))
        return
    r, exc = run_contract(lambda: itp.getattr(res, 'absolute_uri')); no_exception('absolute_uri', exc)
    hasref, ref = fn('res_hasref', U, B)(res.t), fn('res_ref', U, U)(res.t)
    sc = fn('res_schema', U, U)(res.t)
    if isinstance(r, Opt): r = r.val if branch(r.cond) else None
    if branch(hasref):
        prove('by reference: the canonical URI of the referenced schema', itp.to_u(r) == z3.If(chas(ref), cu(ref), U_NONE)); return
    if r is None:
        prove('None only when the schema has no canonical URI', Not(chas(sc))); return
    loc = located(r)
    prove('a URI with the fragment of a pointer', loc is not None, repr(r))
    if loc is None: return
    base, (start, keys) = loc
    prove('None when the schema has no canonical URI', chas(sc))
    prove('the canonical URI of the evaluating schema', base == nofrag(cu(sc)))
    rel = fn('res_relpath', U, U)(res.t)
    if start.eq(rel) and not keys.parts:
        prove('from the root of its document', start_of(cu(sc)) == PTR_ROOT); return
    prove('from the place this URI identifies', start == start_of(cu(sc)))
    prove_seq(itp, 'along the relative path of the result', keys, tokens(rel))

# ------------------------------------------------------------ identifiers, anchors
with_fragment = fn('uri_with_fragment', U, U, U)
hasbase = fn('has_base_uri', U, B); basef = fn('base_uri', U, U)      # contract of base_uri
sref = sch('parentschema')
def fragments(itp):
    """a URI text, '#' and a name: the URI with this fragment; '#' and a name
    resolved against a URI: that URI with this fragment (RFC 3986, names of anchors)"""
    def hook(itp, v, t):
        if not isinstance(v, SStr): return
        parts = core.CUR.opts.get('cats', {}).get(v.t.get_id(), (None, ()))[1]
        if len(parts) == 3 and parts[1] == '#' and z3.is_expr(parts[0]) and parts[0].decl().eq(utext):
            b = parts[0].arg(0)
            uri_facts(b); assume(Implies(Not(uhas('fragment', b)), t == with_fragment(b, parts[2])))
        if len(parts) == 2 and parts[0] == '#':
            b = z3.Const('fr_b', U)
            assume(ForAll([b], resolved(t, b) == with_fragment(nofrag(b), parts[1]), patterns=[resolved(t, b)]))
    core.CUR.opts['uri_parse'] = hook
    ATTRS[(JSONSchema, 'base_uri')] = lambda itp, o: SObj(based(o.t), URI, True) if branch(hasbase(o.t)) else None
    ATTRS[(JSONSchema, 'metaschema_uri')] = lambda itp, o: Opt(hasmeta(o.t), SObj(metaf(o.t), URI, True))
    def frag(itp, o):
        assume(kind(uval('fragment', o.t)) == core.STR)
        return SStr(uval('fragment', o.t)) if branch(uhas('fragment', o.t)) else None
    ATTRS[(URI, 'fragment')] = frag
def based(t):
    # a base URI has no fragment
    b = basef(t)
    assume(Not(uhas('fragment', b)), nofrag(b) == b)
    return b

def recorded_init(itp):
    """Keyword.__init__ (contract of P14 and others): keeps the schema and wraps the value"""
    inits = []
    def h(itp, a, kw):
        inits.append(a[1:] + list(kw.values()))
    CONTRACTS[Keyword.__init__] = h
    return inits

def set_up(what, inits, s, value):
    prove(what, len(inits) == 1 and len(inits[0]) == 2 and isinstance(inits[0][0], SObj) and inits[0][0].t.eq(s.t) and inits[0][1] is value, repr(inits))

def identifier(cls, any_fragment):
    """"$id" """
    declared(cls, '$id', TYPES, static=True)
    itp = Interp(); uris(itp); fragments(itp)
    inits = recorded_init(itp)
    s, value = sref, text('value')
    sets = []
    ATTRS[(JSONSchema, 'uri', 'set')] = lambda itp, o, v: sets.append((o.t, v))
    u = uri_facts(parsed(value.t)); w = nofrag(u)
    assume(kind(uval('fragment', u)) == core.STR)
    _, exc = run_contract(lambda: itp.construct(cls, [s, value], {}))
    f = uval('fragment', u)
    badfrag = And(uhas('fragment', u), True if any_fragment else f != strlit(''))
    base = based(s.t)
    nobase = And(Not(uabs(w)), Or(Not(hasbase(s.t)), Not(uhas('scheme', base))))
    if exc is not None:
        prove('rejected with an error of the library', exc_is(exc, JschonError), repr(exc))
        prove('only with a fragment, or relative without a base', Or(badfrag, nobase))
        prove('the schema does not get a URI', not sets); return
    prove('a URI with a fragment is rejected', Not(badfrag))
    prove('a relative URI without a base is rejected', Not(nobase))
    prove('the schema gets one URI', len(sets) == 1 and sets[0][0].eq(s.t) and isinstance(sets[0][1], SObj), repr(sets))
    if len(sets) == 1: prove('the URI without a fragment, resolved against the base URI', itp.to_u(sets[0][1]) == z3.If(uabs(w), w, resolved(w, base)))
    set_up('the keyword is set up as such', inits, s, value)
contract('P21', '$id', 'IdKeyword.__init__')(lambda: identifier(VC.IdKeyword, False))
contract('P21', '$id (next)', 'IdKeyword_Next.__init__')(lambda: identifier(VF.IdKeyword_Next, True))

@contract(('P21', 'P25'), '$schema', 'SchemaKeyword.__init__')
def schema_keyword():
    declared(VC.SchemaKeyword, '$schema', TYPES, static=True)
    itp = Interp(); uris(itp); inits = recorded_init(itp)
    s, value = sref, text('value')
    sets = []
    ATTRS[(JSONSchema, 'metaschema_uri', 'set')] = ATTRS[(JSONSchema, '_metaschema_uri', 'set')] = lambda itp, o, v: sets.append((o.t, v))
    u = uri_facts(parsed(value.t))
    _, exc = run_contract(lambda: itp.construct(VC.SchemaKeyword, [s, value], {}))
    ok = And(uhas('scheme', u), unormal(u))
    if exc is not None: prove('only an unsuitable URI is rejected', And(exc_is(exc, JSONSchemaError), Not(ok)), repr(exc)); return
    prove('an unsuitable URI is rejected', ok)
    prove('the schema gets the metaschema URI', len(sets) == 1 and sets[0][0].eq(s.t) and isinstance(sets[0][1], SObj), repr(sets))
    if len(sets) == 1: prove('as given', itp.to_u(sets[0][1]) == u)
    set_up('the keyword is set up as such', inits, s, value)

@contract(('P21', 'P25'), 'setting the metaschema URI', 'JSONSchema.metaschema_uri')
def set_metaschema_uri():
    itp = Interp(); uris(itp); own_attrs()
    field = {}
    def st(itp, o, v): field['v'] = v
    ATTRS[(JSONSchema, '_metaschema_uri', 'set')] = st
    v = [None, uri_obj('new')][core.choose(2)]
    _, exc = run_contract(lambda: itp.call(JSONSchema.__dict__['metaschema_uri'].fset, [sref, v])); no_exception('metaschema_uri', exc)
    prove('it is set', 'v' in field and field['v'] is v)

def anchor(cls, key):
    declared(cls, key, TYPES, static=True)
    itp = Interp(); cat = the_catalog(itp); fragments(itp)
    inits = recorded_init(itp)
    s, value, cid = sref, text('value'), Opaque(z3.Const('cacheid', U), 'id')
    ATTRS[(JSONSchema, 'catalog')] = lambda itp, o: cat
    ATTRS[(JSONSchema, 'cacheid')] = lambda itp, o: cid
    before = snap2('cache')
    _, exc = run_contract(lambda: itp.construct(cls, [s, value], {}))
    base = based(s.t)
    if exc is not None:
        prove('rejected only without a base URI', And(exc_is(exc, JSONSchemaError), Not(hasbase(s.t))), repr(exc))
        changed2('cache', before, 'nothing is registered', same); return
    prove('an anchor needs a base URI', hasbase(s.t))
    at = with_fragment(base, value.t)
    changed2('cache', before, 'the schema is registered at the base URI with this fragment, in its cache',
             lambda c, k, h, v: (Or(h, And(c == cid.t, k == at)), z3.If(And(c == cid.t, k == at), s.t, v)))
    set_up('the keyword is set up as such', inits, s, value)
contract('P21', '$anchor', 'AnchorKeyword.__init__', 'Catalog.add_schema')(lambda: anchor(VC.AnchorKeyword, '$anchor'))
contract('P21', '$dynamicAnchor', 'DynamicAnchorKeyword.__init__', 'Catalog.add_schema')(lambda: anchor(VC.DynamicAnchorKeyword, '$dynamicAnchor'))

@contract('P21', 'keywords without behaviour', 'RecursiveAnchorKeyword_2019_09', 'DefsKeyword', 'CommentKeyword')
def inert():
    from jschon.vocabulary import ObjectOfSubschemas
    declared(VL.RecursiveAnchorKeyword_2019_09, '$recursiveAnchor', TYPES, static=True)
    declared(VC.DefsKeyword, '$defs', TYPES, static=True)
    prove('definitions are schemas', issubclass(VC.DefsKeyword, ObjectOfSubschemas))
    declared(VC.CommentKeyword, '$comment', TYPES, static=True)
    for c in (VL.RecursiveAnchorKeyword_2019_09, VC.DefsKeyword, VC.CommentKeyword): prove('set up like any keyword', c.__init__ is Keyword.__init__)

# ------------------------------------------------------------ references
found = fn('schema_found', U, U, B); lookup_ = fn('schema_at', U, U, U)       # contract of Catalog.get_schema (P23): by URI and cache
rchain = fn('result_ancestor', U, I, U); rdepth = z3.Const('result_depth', I); RES = z3.Const('result', U)
rschema = fn('res_schema', U, U)

def reference(cls, key, jtyp='string'):
    """construct the keyword, resolve it, and evaluate it under any dynamic scope"""
    declared(cls, key, TYPES)
    uris(Interp()); fragments(None)
    asked = []
    cat = SObj(z3.Const('catalog', U), Catalog)
    def get(itp, a, kw):
        args = dict(zip(('uri', ), a[1:])); args.update(kw)
        u, c = itp.to_u(args['uri']), itp.to_u(args.get('cacheid', 'default'))
        asked.append((u, args.get('metaschema_uri'), c))
        if not branch(found(u, c)): itp.throw(CatalogError, 'not found')
        if 'anchors' in core.CUR.opts: core.CUR.opts['anchors'](u, c)
        return SObj(lookup_(u, c), JSONSchema)
    CONTRACTS[Catalog.get_schema] = get
    core.CUR.opts['catalog'] = lambda itp, o: cat
    return asked

def scope_chain():
    """the results from the current one (0) to the root of the evaluation"""
    i = freshvar('i')
    assume(rdepth >= 0, rchain(RES, z3.IntVal(0)) == RES)
    def at(t):
        if t.eq(RES): return z3.IntVal(0)
        if z3.is_app(t) and t.decl().eq(rchain): return t.arg(1)
        raise Unsupported(f'not in the chain: {t}')
    ATTRS[(Result, 'parent')] = lambda itp, o: Opt(at(o.t) < rdepth, SObj(rchain(RES, z3.simplify(at(o.t) + 1)), Result))
    def inv(itp, init, v):
        if isinstance(init, Opt) and isinstance(init.val, SObj): t, wrap = init.val.t, True
        elif isinstance(init, SObj): t, wrap = init.t, issubclass(init.cls, Result)
        else: return None
        try: k = at(t)
        except Unsupported: return None
        return lambda j: Opt(k + j <= rdepth, SObj(rchain(RES, z3.simplify(k + j)), Result))
    core.CUR.opts['loop_inv'] = [inv]
    return SObj(RES, Result)

def evaluated(k, want):
    """the schema `want` decides, and is named as the location"""
    itp = k.itp
    inst = SObj(z3.Const('instance', U), JSON)
    res = scope_chain()
    calls, refs = itp.new_cont('list'), []
    def ev(itp, a, kw):
        r = a[2] if len(a) > 2 else kw.get('result')
        itp.set_content(calls, itp.content(calls) + lits([(a[0], a[1], r)]))
        return r
    CONTRACTS_L = itp.local_contracts
    CONTRACTS_L[JSONSchema.evaluate] = ev
    ATTRS[(Result, '_refschema', 'set')] = lambda itp, o, v: refs.append((o, v))
    _, exc = run_contract(lambda: itp.call(itp.getattr(k.kw, 'evaluate'), [inst, res])); no_exception('evaluate', exc)
    cs = itp.content(calls).parts
    prove('one schema is evaluated', len(cs) == 1 and isinstance(cs[0], Lit), repr(cs))
    if len(cs) != 1 or not isinstance(cs[0], Lit): return
    s, i, r = cs[0].v
    prove('for the instance, within the result of the reference', itp.to_u(i) == inst.t, repr(i))
    prove('within the result of the reference', itp.to_u(r) == RES if r is not None else False)
    prove('the schema referred to', want(itp.to_u(s)))
    prove('and the result names it as its location', len(refs) == 1 and isinstance(refs[0][0], SObj) and refs[0][0].t.eq(RES) if refs else False)
    if refs: prove('as its location', itp.to_u(refs[0][1]) == itp.to_u(s))

def resolve(k, asked, want_uri, bad):
    """resolution finds the schema at want_uri, or fails"""
    itp = k.itp
    cid = fn('cacheid_of', U, U)(k.parentschema.t)
    _, exc = run_contract(lambda: itp.call(itp.getattr(k.kw, 'resolve'), []))
    ok = And(Not(bad), found(want_uri, cid))
    if exc is not None:
        prove('an error of the library', exc_is(exc, JschonError), repr(exc))
        prove('only a reference that cannot be resolved raises an error', Not(ok)); return None
    prove('a reference that cannot be resolved raises an error', ok)
    mine = [x for x in asked]
    s = k.parentschema.t
    prove('a schema that is loaded inherits the metaschema of the referring one', len(mine) >= 1 and
          (itp.to_u(mine[0][1]) == z3.If(hasmeta(s), metaf(s), U_NONE)))
    return lookup_(want_uri, cid)

def ref_target(k):
    s = k.parentschema.t
    u = parsed(jstr(k.json.t)); base = based(s)
    return z3.If(uabsbase(u), u, resolved(u, base)), And(Not(uabsbase(u)), Or(Not(hasbase(s)), Not(uhas('scheme', base))))

@contract('P21', '$ref', 'RefKeyword.__init__', 'RefKeyword.resolve', 'RefKeyword.evaluate', 'Result.refschema')
def ref():
    asked = reference(VC.RefKeyword, '$ref')
    k = kwbase.setup(VC.RefKeyword, 'string')
    t, bad = ref_target(k)
    r = resolve(k, asked, t, bad)
    if r is None: return
    evaluated(k, lambda s: s == r)

def declares(s, key, typ, is_it):
    return And(jtype(s) == strlit('object'), jhas(s, strlit(key)), jtype(kwd(s, key)) == strlit(typ), is_it(kwd(s, key)))
def kwd(s, key): return jchild(s, jidx(s, strlit(key)))

@contract('P21', '$dynamicRef', 'DynamicRefKeyword.__init__', 'DynamicRefKeyword.resolve', 'DynamicRefKeyword.evaluate', 'Result.refschema')
def dynamic_ref():
    asked = reference(VC.DynamicRefKeyword, '$dynamicRef')
    k = kwbase.setup(VC.DynamicRefKeyword, 'string')
    t, bad = ref_target(k)
    u = parsed(jstr(k.json.t)); f = uval('fragment', u)
    uri_facts(u)
    assume(Implies(uhas('fragment', u), kind(f) == core.STR))
    x, y, i = z3.Const('dr_x', U), z3.Const('dr_y', U), freshvar('i')
    # "$dynamicAnchor" is a text that is not empty
    assume(ForAll([x], Implies(jhas(x, strlit('$dynamicAnchor')), And(jtype(kwd(x, '$dynamicAnchor')) == strlit('string'), kind(jstr(kwd(x, '$dynamicAnchor'))) == core.STR, strlen(jstr(kwd(x, '$dynamicAnchor'))) > 0, jlen(kwd(x, '$dynamicAnchor')) > 0, jstr(kwd(x, '$dynamicAnchor')) != strlit(''))), patterns=[jhas(x, strlit('$dynamicAnchor'))]),
           True)
    r = resolve(k, asked, t, bad)
    if r is None: return
    # only an anchor is found by the name of an anchor: a schema that is an object
    def anchors(t, c): assume(jtype(lookup_(t, c)) == strlit('object'))
    core.CUR.opts['anchors'] = anchors
    decl = lambda s: And(uhas('fragment', u), declares(s, '$dynamicAnchor', 'string', lambda a: jstr(a) == f))
    cid = fn('cacheid_of', U, U)(k.parentschema.t)
    bu = lambda j: basef(rschema(rchain(RES, j)))
    assume(ForAll([i], And(Not(uhas('fragment', bu(i))), nofrag(bu(i)) == bu(i), Implies(hasbase(rschema(rchain(RES, i))), uhas('scheme', bu(i)))), patterns=[rchain(RES, i)]))
    at = lambda j: lookup_(with_fragment(bu(j), f), cid)
    here = lambda j: And(0 <= j, j <= rdepth, hasbase(rschema(rchain(RES, j))), found(with_fragment(bu(j), f), cid), decl(at(j)))
    j = freshvar('j')
    def want(s):
        return z3.If(And(decl(r), Exists([i], here(i))), Exists([i], And(here(i), ForAll([j], Implies(And(j > i, j <= rdepth), Not(here(j)))), s == at(i))), s == r)
    evaluated(k, want)

@contract('P21', '$recursiveRef', 'RecursiveRefKeyword_2019_09.__init__', 'RecursiveRefKeyword_2019_09.resolve', 'RecursiveRefKeyword_2019_09.evaluate', 'Result.refschema')
def recursive_ref():
    asked = reference(VL.RecursiveRefKeyword_2019_09, '$recursiveRef')
    x, i, j = z3.Const('rr_x', U), freshvar('i'), freshvar('j')
    k = kwbase.setup(VL.RecursiveRefKeyword_2019_09, 'string', built=lambda t: jstr(t) == strlit('#'))
    if k is None: return
    A = '$recursiveAnchor'
    assume(ForAll([x], Implies(jhas(x, strlit(A)), jtype(kwd(x, A)) == strlit('boolean')), patterns=[jhas(x, strlit(A))]))
    s = k.parentschema.t; base = based(s)
    r = resolve(k, asked, base, Not(hasbase(s)))
    if r is None: return
    # schemas with keywords
    assume(jtype(r) == strlit('object'), ForAll([i], jtype(rschema(rchain(RES, i))) == strlit('object'), patterns=[rchain(RES, i)]))
    def schema_of(itp, o):
        assume(jtype(rschema(o.t)) == strlit('object')); return SObj(rschema(o.t), JSONSchema)
    ATTRS[(Result, 'schema')] = schema_of
    decl = lambda s: declares(s, A, 'boolean', lambda a: jbool(a))
    at = lambda j: rschema(rchain(RES, j))
    here = lambda j: And(0 <= j, j <= rdepth, decl(at(j)))
    evaluated(k, lambda s: z3.If(And(decl(r), Exists([i], here(i))), Exists([i], And(here(i), ForAll([j], Implies(And(j > i, j <= rdepth), Not(here(j)))), s == at(i))), s == r))

# ------------------------------------------------------------ construction of schemas
@contract('P21', 'references of all subschemas are resolved', 'JSONSchema._resolve_references')
def resolve_references():
    itp = Interp()
    n = z3.Const('n_keywords', I); assume(n >= 0)
    kw = fn('keyword_at', I, U); kj = fn('keyword_json', U, U); refers = fn('keyword_refers', U, B)
    i, j = freshvar('i'), freshvar('j')
    m = METHODS
    kws = View('keyworddict', None)
    name = fn('keyword_name', U, U)
    m[('view:keyworddict', 'values')] = lambda itp, o, a, kw_: View('values', o, mk_map(n, lambda v: Opaque(kw(v), 'keyword')))
    m[('view:keyworddict', 'items')] = lambda itp, o, a, kw_: View('items', o, mk_map(n, lambda v: (SStr(name(kw(v))), Opaque(kw(v), 'keyword'))))
    m[('view:keyworddict', '__iter__')] = m[('view:keyworddict', 'keys')] = lambda itp, o, a, kw_: mk_map(n, lambda v: SStr(name(kw(v))))
    ATTRS[(JSONSchema, 'keywords')] = lambda itp, o: kws
    ATTRS[('opaque', 'keyword', 'json')] = lambda itp, o: SObj(kj(o.t), JSON)
    done = itp.new_cont('list')
    def add(x): itp.set_content(done, itp.content(done) + lits([x]))
    def hasattr_(itp, o, nm):
        if isinstance(o, Opaque) and o.what == 'keyword' and nm == 'resolve': return mkbool(refers(o.t))
        return NOT
    ATTRS['hasattr'] = hasattr_
    def resolve(itp, o):
        if not branch(refers(o.t)): itp.throw(AttributeError, 'resolve')
        return HostFn(lambda itp, a, kw_: add((strlit('keyword'), SAny(o.t))), 'resolve')
    ATTRS[('opaque', 'keyword', 'resolve')] = resolve
    sub = lambda itp, o: HostFn(lambda itp, a, kw_: add((strlit('schema'), SAny(o.t))), '_resolve_references')
    ATTRS[(JSON, '_resolve_references')] = only_schema(sub)
    s = SObj(T, JSONSchema)
    _, exc = run_contract(lambda: itp.call(JSONSchema._resolve_references, [s])); no_exception('_resolve_references', exc)
    log = itp.content(done)
    e = lambda what, t: seq_exists(log, lambda x: And(z3.BoolVal(core.lit_of(x[0]) == what), x[1].t == t))
    prove('every keyword that refers is resolved', ForAll([i], Implies(And(rng(i, n), refers(kw(i))), e('keyword', kw(i)))))
    direct = lambda t: And(Not(refers(t)), isschema(kj(t)))
    prove('the references of every subschema are resolved: the value of a keyword', ForAll([i], Implies(And(rng(i, n), direct(kw(i))), e('schema', kj(kw(i))))))
    # a keyword whose value is not a schema may hold schemas
    holds = lambda t: And(Not(refers(t)), Not(isschema(kj(t))), is_type(kj(t), 'array', 'object'))
    prove('and the schemas in its value', ForAll([i, j], Implies(And(rng(i, n), holds(kw(i)), rng(j, jlen(kj(kw(i)))), isschema(jchild(kj(kw(i)), j))), e('schema', jchild(kj(kw(i)), j)))))

def schema_value(itp, *names):
    """the value a schema is constructed from, as far as it is looked at here"""
    m = METHODS
    has = {n: z3.Bool('has:' + n) for n in names}
    val = {n: Opaque(z3.Const('value:' + n, U), 'plain') for n in names}
    def known_(a):
        if a[0] not in has: raise Unsupported(f'member {a[0]!r}')
        return a[0]
    m[('view:schemavalue', '__contains__')] = lambda itp, o, a, kw: has[known_(a)]
    def getitem(itp, o, a, kw):
        if not branch(has[known_(a)]): raise PyRaise(KeyError(a[0]))
        return val[a[0]]
    m[('view:schemavalue', '__getitem__')] = getitem
    m[('view:schemavalue', 'get')] = lambda itp, o, a, kw: val[a[0]] if branch(has[known_(a)]) else (a[1] if len(a) > 1 else None)
    return View('schemavalue', None), has, val

@contract(('P21', 'P25'), 'keywords that identify a schema', 'JSONSchema._bootstrap')
def bootstrap():
    itp = Interp(); uris(itp)
    value, has, val = schema_value(itp, '$schema', '$vocabulary', '$id')
    s = SObj(T, JSONSchema)
    order = []
    kws, data = itp.new_cont('dict'), itp.new_cont('dict')
    ATTRS[(JSONSchema, 'keywords')] = lambda itp, o: kws
    ATTRS[(JSONSchema, 'data')] = lambda itp, o: data
    def ctor(name):
        def h(itp, a, kw):
            order.append((name, a))
            return Opaque(z3.Const('kw:' + name, U), 'keyword')
        return h
    for n, c in (('$schema', VC.SchemaKeyword), ('$vocabulary', VC.VocabularyKeyword), ('$id', VC.IdKeyword), ('$id next', VF.IdKeyword_Next)): CLASSCALL[c] = ctor(n)
    ATTRS[('opaque', 'keyword', 'json')] = lambda itp, o: SObj(fn('keyword_json', U, U)(o.t), JSON)
    meta = SObj(z3.Const('metaschema', U), Metaschema)
    def metaschema(itp, o):
        order.append(('metaschema', None)); return meta
    ATTRS[(JSONSchema, 'metaschema')] = metaschema
    cu = uri_obj('core_uri')
    ATTRS[(Metaschema, 'core_vocabulary')] = lambda itp, o: SObj(z3.Const('core', U), Vocabulary)
    ATTRS[(Vocabulary, 'uri')] = lambda itp, o: cu
    _, exc = run_contract(lambda: itp.call(JSONSchema._bootstrap, [s, value])); no_exception('_bootstrap', exc)
    names = [n for n, a in order if n != 'metaschema']
    cur = Or(*[utext(cu.t) == strlit(f'https://json-schema.org/draft/{v}/vocab/core') for v in ('2019-09', '2020-12')])
    want = [n for n in ('$schema', '$vocabulary') if branch(has[n])]
    if branch(has['$id']): want.append('$id' if branch(cur) else '$id next')
    prove('"$schema", "$vocabulary" and "$id" are set up first, in this order, as in the dialect', names == want, f'{names} {want}')
    for n, a in order:
        if a is not None: prove(f'{n}: for this schema, from its value', len(a) == 2 and isinstance(a[0], SObj) and a[0].t.eq(T) and a[1] is val[n.split()[0]], repr(a))
    if '$schema' in names: prove('"$schema" before the metaschema is looked up', ('metaschema', None) not in order[:names.index('$schema')])
    ks, ds = dict(lit_items(itp, kws)), dict(lit_items(itp, data))
    keys = {n.split()[0]: n for n in want}
    prove('they are keywords of the schema', set(ks) == set(keys) and all(isinstance(ks[n], Opaque) and ks[n].t.eq(z3.Const('kw:' + keys[n], U)) for n in keys if n in ks), repr(ks))
    prove('their values are members of the schema', set(ds) == set(keys) and all(isinstance(ds[n], SObj) and ds[n].t.eq(fn('keyword_json', U, U)(z3.Const('kw:' + keys[n], U))) for n in keys if n in ds), repr(ds))

kwclass_of = fn('metaschema_class', U, U); clskey = fn('class_key', U, U); mjson = fn('keyword_json', U, U); kwinst = fn('keyword_of_class', U, U)
vname = fn('member_name', I, U); vmember = fn('member_value', U, U); vpos = fn('member_position', U, I); order_ = fn('evaluation_order', I, I); place = fn('evaluation_place', I, I)
BOOT = ('$schema', '$vocabulary', '$id')

def construct_case(kind_, rooted):
    itp = Interp(); uris(itp)
    cat = SObj(z3.Const('catalog', U), Catalog)
    cid = Opaque(z3.Const('cacheid', U), 'id')
    log = []
    o = itp.alloc_inst(JSONSchema)
    n = z3.Const('n_members', I); i, j = freshvar('i'), freshvar('j')
    named = kind_ == 'name'
    if named:
        nm = text('catalog_name')
        def getcat(itp, a, kw):
            x = [v for v in a if v is not Catalog] + list(kw.values())
            prove('the catalog is looked up by its name', len(x) == 1 and itp.to_u(x[0]).eq(nm.t)); return cat
        CONTRACTS[Catalog.get_catalog.__func__] = getcat
    def add(itp, a, kw):
        args = dict(zip(('uri', 'schema', 'cacheid'), a[1:])); args.update(kw)
        log.append(('add', a[0], args))
    CONTRACTS[Catalog.add_schema] = add
    CONTRACTS[uuid.uuid4] = lambda itp, a, kw: text('uuid')
    hasuri_ = core.choose(2); u = uri_obj('uri'); mu = uri_obj('metaschema_uri'); hasmu = core.choose(2)
    par = SObj(z3.Const('parent', U), JSON); key = text('own_key')
    kw = dict(catalog=nm if named else cat, cacheid=cid)
    if hasuri_: kw['uri'] = u
    if hasmu: kw['metaschema_uri'] = mu
    if not rooted: kw.update(parent=par, key=key)
    g = lambda f: itp.getattr(o, f)
    if kind_ == 'boolean': value = SBool(z3.Bool('value'))
    elif kind_ == 'other': value = [SStr(z3.Const('value', U)), None, itp.new_cont('list'), SInt(z3.Int('value'))][core.choose(4)]
    else:
        import collections.abc
        assume(n >= 0, ForAll([i], Implies(rng(i, n), And(kind(vname(i)) == core.STR, vpos(vname(i)) == i)), patterns=[vname(i)]))
        has = lambda t: And(rng(vpos(t), n), vname(vpos(t)) == t)
        m = METHODS
        m[('view:members', '__iter__')] = m[('view:members', 'keys')] = lambda itp, o, a, kw: mk_map(n, lambda v: SStr(vname(v)))
        m[('view:members', 'items')] = lambda itp, o, a, kw: View('items', o, mk_map(n, lambda v: (SStr(vname(v)), Opaque(vmember(vname(v)), 'plain'))))
        m[('view:members', '__len__')] = lambda itp, o, a, kw: SInt(n)
        m[('view:members', '__contains__')] = lambda itp, o, a, kw: has(itp.to_u(a[0]))
        def getitem(itp, o, a, kw):
            t = itp.to_u(a[0])
            if not branch(has(t)): raise PyRaise(KeyError(a[0]))
            return Opaque(vmember(t), 'plain')
        m[('view:members', '__getitem__')] = getitem
        value = View('members', None)
        def isinst(itp, v, c):
            if isinstance(v, View) and v.kind == 'members': return issubclass(dict, c)
            return NOT
        ATTRS['isinstance'] = isinst
        boot = [k for k in BOOT if branch(has(strlit(k)))]
        def bootstrap(itp, a, kw):
            prove('set up for this schema, from its value', isinstance(a[0], Inst) and a[0].id == o.id and a[1] is value)
            log.append(('bootstrap',))
            for k in boot:
                t = z3.Const('kw:' + k, U)
                itp.setitem(g('keywords'), k, Opaque(t, 'keyword')); itp.setitem(g('data'), k, SObj(mjson(t), JSON))
        CONTRACTS[JSONSchema._bootstrap] = bootstrap
        meta = SObj(z3.Const('metaschema', U), Metaschema)
        def metaschema(itp, a, kw):
            prove('the metaschema is looked up after the identifying keywords are set up', ('bootstrap',) in log)
            return meta
        CONTRACTS[getter(JSONSchema, 'metaschema')] = metaschema
        def getkw(itp, a, kw):
            k = itp.to_u(a[1]); assume(clskey(kwclass_of(k)) == k)
            return Opaque(kwclass_of(k), 'kwclass')
        CONTRACTS[Metaschema.get_kwclass] = getkw
        def ckey(itp, o):
            k = o.t.arg(0)
            if k.decl().eq(vname):
                assume(clskey(o.t) == k)
                if k.arg(0).decl().eq(order_): assume(Not(b(k)))
            return SStr(clskey(o.t))
        ATTRS[('opaque', 'kwclass', 'key')] = ckey
        METHODS[('opaque:kwclass', '__bool__')] = lambda itp, o, a, kw: True
        b = lambda t: Or(*[t == strlit(k) for k in boot])
        mm = z3.Const('n_ordered', I)
        def deps(itp, a, kw):
            """_resolve_dependencies: every class once, in some order (bounded check of the order: P18)"""
            d = [x for x in a if x is not JSONSchema and not (isinstance(x, Inst))][0]
            v = freshvar('w')
            prove_seq(itp, 'the classes of all other members', itp.content(d), Seq([Map(v, n, [(Not(b(vname(v))), lits([(SStr(vname(v)), Opaque(kwclass_of(vname(v)), 'kwclass'))]))])]))
            assume(mm >= 0, ForAll([i], Implies(rng(i, mm), And(rng(order_(i), n), Not(b(vname(order_(i)))), place(order_(i)) == i)), patterns=[order_(i)]),
                   ForAll([i], Implies(And(rng(i, n), Not(b(vname(i)))), And(rng(place(i), mm), order_(place(i)) == i)), patterns=[vname(i)]),
                   ForAll([i], Implies(rng(i, n), clskey(kwclass_of(vname(i))) == vname(i)), patterns=[kwclass_of(vname(i))]))
            return GenV(mk_map(mm, lambda v: Opaque(kwclass_of(vname(order_(v))), 'kwclass')))
        CONTRACTS[JSONSchema.__dict__['_resolve_dependencies'].__func__] = deps
        made = itp.new_cont('list')
        def call(itp, f, a, kw):
            ok = len(a) == 2 and isinstance(a[0], Inst) and a[0].id == o.id and isinstance(a[1], Opaque)
            prove('a keyword is constructed for this schema', ok, repr(a))
            if ok: prove('from its own member', a[1].t == vmember(clskey(f.t)))
            itp.set_content(made, itp.content(made) + lits([SAny(clskey(f.t))]))
            return Opaque(kwinst(f.t), 'keyword')
        ATTRS[('call', 'kwclass')] = call
        ATTRS[('opaque', 'keyword', 'json')] = lambda itp, o: SObj(mjson(o.t), JSON)
        resolved_ = []
        def res(itp, a, kw):
            resolved_.append(itp.content(g('keywords')))
        CONTRACTS[JSONSchema._resolve_references] = res
    _, exc = run_contract(lambda: itp.call(JSONSchema.__init__, [o, value], kw))
    if kind_ == 'other':
        prove('anything but a boolean or a mapping is a TypeError', exc is not None and exc_is(exc, TypeError), repr(exc)); return
    no_exception('JSONSchema()', exc)
    isit = lambda x, y: isinstance(x, V) and itp.to_u(x).eq(itp.to_u(y))
    prove('its catalog', isit(g('catalog'), cat)); prove('its cache', isit(g('cacheid'), cid))
    prove('its place', (g('parent') is None and g('key') is None) if rooted else isit(g('parent'), par) and isit(g('key'), key))
    prove('its metaschema URI', isit(g('_metaschema_uri'), mu) if hasmu else g('_metaschema_uri') is None)
    adds = [x for x in log if x[0] == 'add']
    def added(uri):
        prove('registered under one URI', len(adds) == 1 and all(isinstance(a['schema'], Inst) and a['schema'].id == o.id and isit(a.get('cacheid', 'default') if isinstance(a.get('cacheid'), V) else cid, cid) and 'cacheid' in a for _, c, a in adds), repr(adds))
        if len(adds) == 1: prove('namely its own', itp.to_u(adds[0][2]['uri']) == uri)
        prove('which it has', itp.to_u(g('_uri')) == uri)
    anonymous = kind_ != 'boolean' and rooted and not hasuri_
    if hasuri_: added(u.t)
    elif anonymous: added(parsed(itp.to_u(itp.fmt(['urn:uuid:', text('uuid')]))))
    else: prove('it has no URI', g('_uri') is None and not adds)
    if kind_ == 'boolean':
        prove('a boolean schema', g('type') == 'boolean' and isinstance(g('data'), SBool) and g('data').t.eq(z3.Bool('value')))
        prove('without keywords', not itp.content(g('keywords')).parts); return
    if adds: prove('registered before anything in it is constructed', log.index(adds[0]) < log.index(('bootstrap',)) if ('bootstrap',) in log else False)
    prove('an object schema', g('type') == 'object')
    v = freshvar('w')
    def want(f): return lits([(k, f(z3.Const('kw:' + k, U))) for k in boot]) + Seq([Map(v, mm, [(z3.BoolVal(True), lits([(SStr(vname(order_(v))), f(kwinst(kwclass_of(vname(order_(v))))))]))])])
    eq = lambda a, b: And(itp.to_u(a[0]) == itp.to_u(b[0]), itp.to_u(a[1]) == itp.to_u(b[1]))
    prove_seq(itp, 'its keywords: one for each member', itp.content(g('keywords')), want(lambda t: Opaque(t, 'keyword')), eq)
    prove_seq(itp, 'its data: the value of each keyword', itp.content(g('data')), want(lambda t: SObj(mjson(t), JSON)), eq)
    prove_seq(itp, 'each constructed once', itp.content(made), Seq([Map(v, mm, [(z3.BoolVal(True), lits([SStr(vname(order_(v)))]))])]))
    if rooted:
        prove('references are resolved once', len(resolved_) == 1)
        if resolved_: prove_seq(itp, 'when all keywords are there', resolved_[0], want(lambda t: Opaque(t, 'keyword')), eq)
    else: prove('references are resolved from the root of the document', not resolved_)
for _k in ('boolean', 'object', 'name', 'other'):
    for _r in (True, False):
        contract(('P18', 'P21'), f'construct a schema: {_k}{"" if _r else ", as a subschema"}', 'JSONSchema.__init__')((lambda k, r: lambda: construct_case(k, r))(_k, _r))
