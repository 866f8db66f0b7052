"""P23: registries and schema caches of the catalog.  P22: sources."""
from .maps import *
from .env import contract
from .ptrspec import exc_is
from jschon.catalog import Catalog, Source, LocalSource, RemoteSource
from jschon.vocabulary import Vocabulary, Metaschema
from jschon.uri import URI
from jschon.exc import *
import uuid, pathlib, jschon.catalog as CT, jschon.utils as UT
from pyvc.interp import _Star

uhas = lambda c, t: fn('uri_has_' + c, U, B)(t)
uval = lambda c, t: fn('uri_' + c, U, U)(t)
nofrag = fn('uri_without_fragment', U, U); utext = fn('uri_text', U, U); sameuri = fn('uri_equal', U, U, B); unormal = fn('uri_is_normal', U, B)
resolved = fn('uri_resolved', U, U, U); parsed = fn('uri_of_text', U, U); uabs = fn('uri_absolute', U, B); uabsbase = fn('uri_absolute_base', U, B)

def uri_obj(name): return SObj(z3.Const(name, U), URI, True)
def sch(name): return SObj(z3.Const(name, U), JSONSchema)
def uri_facts(t):
    assume(Not(uhas('fragment', nofrag(t))), Implies(Not(uhas('fragment', t)), nofrag(t) == t), sameuri(t, t))
    return t

def uris(itp):
    """URI objects as values (contracts established by P26)"""
    core.CUR.opts['texts'] = True
    for c in ('scheme', 'authority', 'path', 'query', 'fragment'):
        def attr(itp, o, c=c):
            assume(kind(uval(c, o.t)) == core.STR)
            if c in ('scheme', 'authority', 'path'): assume(Implies(uhas(c, o.t), uval(c, o.t) != strlit('')))
            return Opt(uhas(c, o.t), SStr(uval(c, o.t)))
        ATTRS[(URI, c)] = attr
    def validate(itp, a, kw):
        names = ('require_scheme', 'require_normalized', 'allow_fragment', 'allow_non_empty_fragment')
        args = dict(zip(names, (False, False, True, True))); args.update(zip(names, a[1:])); args.update(kw)
        f = {n: tb(itp.truth(v)) for n, v in args.items()}
        t = uri_facts(a[0].t)
        bad = Or(And(f['require_scheme'], Not(uhas('scheme', t))), And(f['require_normalized'], Not(unormal(t))),
                 And(Not(f['allow_fragment']), uhas('fragment', t)), And(Not(f['allow_non_empty_fragment']), uhas('fragment', t), uval('fragment', t) != strlit('')))
        if branch(bad): itp.throw(URIError, 'invalid URI')
    C = CONTRACTS
    C[URI.validate] = validate
    def copy(itp, a, kw):
        args = dict(zip(('scheme', 'authority', 'path', 'query', 'fragment'), a[1:])); args.update(kw)
        args = {n: v for n, v in args.items() if v is not True}
        if not args: return a[0]
        if args == {'fragment': False} or args == {'fragment': None}: return SObj(nofrag(uri_facts(a[0].t)), URI, True)
        if set(args) == {'fragment'} and isinstance(args['fragment'], (str, SStr)):
            t = fn('uri_with_fragment', U, U, U)(nofrag(uri_facts(a[0].t)), itp.to_u(args['fragment']))
            assume(uhas('fragment', t), uval('fragment', t) == itp.to_u(args['fragment']), nofrag(t) == nofrag(a[0].t))
            return SObj(t, URI, True)
        raise Unsupported('URI.copy')
    C[URI.copy] = copy
    def text(itp, o):
        assume(kind(utext(o.t)) == core.STR)
        return SStr(utext(o.t))
    C[('str', URI)] = text
    C[URI.__str__] = lambda itp, a, kw: text(itp, a[0])
    C[URI.__repr__] = lambda itp, a, kw: SStr(fresh('repr', U))
    def eq(itp, a, kw):
        x, y = a
        if isinstance(y, Opt): y = y.val if branch(y.cond) else None
        if isinstance(x, SObj) and isinstance(y, SObj) and issubclass(y.cls, URI):
            uri_facts(x.t); assume(sameuri(x.t, y.t) == sameuri(y.t, x.t))
            return mkbool(sameuri(x.t, y.t))
        return False
    C[URI.__eq__] = eq
    C[URI.is_absolute] = lambda itp, a, kw: mkbool(uabs(a[0].t))
    C[URI.has_absolute_base] = lambda itp, a, kw: mkbool(uabsbase(a[0].t))
    def resolve(itp, a, kw):
        b = a[1] if len(a) > 1 else kw['base_uri']
        if not branch(uhas('scheme', b.t)): itp.throw(URIError, 'cannot resolve')
        return SObj(resolved(a[0].t, b.t), URI, True)
    C[URI.resolve] = resolve
    C[URI.__len__] = lambda itp, a, kw: SInt(strlen(utext(a[0].t)))
    def new(itp, a, kw):
        if len(a) != 1 or kw: raise Unsupported('URI()')
        v = a[0]
        if isinstance(v, SObj) and issubclass(v.cls, URI): v = text(itp, v)
        if not isinstance(v, (str, SStr)): itp.throw(TypeError, 'expected a text')
        t = itp.to_u(v)
        h = core.CUR.opts.get('uri_parse')
        if h is not None: h(itp, v, parsed(t))
        return SObj(parsed(t), URI, True)
    CLASSCALL[URI] = new

SCHEMAV = (lambda itp, t: SObj(t, JSONSchema), lambda itp, v: itp.to_u(v))
def the_catalog(itp):
    """a catalog with arbitrary schema caches"""
    uris(itp)
    o = new_map2('cache', SCHEMAV)
    ATTRS[(Catalog, '_schema_cache')] = lambda itp, c: o
    return SObj(z3.Const('catalog', U), Catalog)
def text(name):
    t = z3.Const(name, U); assume(kind(t) == core.STR)
    return SStr(t)
def same(c, k, h, v): return h, v

@contract(('P23', 'P21'), 'adding a schema', 'Catalog.add_schema')
def add_schema():
    itp = Interp(); cat = the_catalog(itp)
    u, s, cid = uri_obj('uri'), sch('schema'), Opaque(z3.Const('cacheid', U), 'id')
    before = snap2('cache')
    dflt = core.choose(2)
    if dflt: cid_t = strlit('default')
    else: cid_t = cid.t
    _, exc = run_contract(lambda: itp.call(Catalog.add_schema, [cat, u, s], {} if dflt else dict(cacheid=cid)))
    no_exception('add_schema', exc)
    changed2('cache', before, 'the schema is found there, everything else as before',
             lambda c, k, h, v: (Or(h, And(c == cid_t, k == u.t)), z3.If(And(c == cid_t, k == u.t), s.t, v)))
    prove_own('cache')

@contract('P23', 'removing a schema', 'Catalog.del_schema')
def del_schema():
    itp = Interp(); cat = the_catalog(itp)
    u, cid = uri_obj('uri'), Opaque(z3.Const('cacheid', U), 'id')
    before = snap2('cache')
    dflt = core.choose(2)
    cid_t = strlit('default') if dflt else cid.t
    _, exc = run_contract(lambda: itp.call(Catalog.del_schema, [cat, u], {} if dflt else dict(cacheid=cid)))
    no_exception('del_schema', exc)
    changed2('cache', before, 'the schema is gone, everything else as before', lambda c, k, h, v: (And(h, Not(And(c == cid_t, k == u.t))), v))
    prove_own('cache')

ptr_ok = fn('fragment_is_pointer', U, B); ptr_of = fn('pointer_of_fragment', U, U); reaches = fn('pointer_reaches', U, U, B); target = fn('pointer_target', U, U, U)
isschema = fn('isinst:jschon.jsonschema.JSONSchema', U, B)
def pointers_(itp):
    """pointer evaluation (contracts established by P02, P04)"""
    def parse(itp, a, kw):
        f = [x for x in a if x is not JSONPointer][0]
        if not branch(ptr_ok(itp.to_u(f))): itp.throw(JSONPointerMalformedError, 'malformed')
        return SObj(ptr_of(itp.to_u(f)), JSONPointer, True)
    CONTRACTS[JSONPointer.parse_uri_fragment.__func__] = parse
    def evaluate(itp, a, kw):
        p, d = a
        if not branch(reaches(p.t, itp.to_u(d))): itp.throw(JSONPointerReferenceError, 'not found')
        return SObj(target(p.t, itp.to_u(d)), JSON)
    CONTRACTS[JSONPointer.evaluate] = evaluate

def lookup(case):
    itp = Interp(); cat = the_catalog(itp); pointers_(itp)
    u, m, cid = uri_obj('uri'), uri_obj('metaschema_uri'), Opaque(z3.Const('cacheid', U), 'id')
    cid_t = cid.t
    uri_facts(u.t)
    base = nofrag(u.t)
    frag = uval('fragment', u.t); assume(kind(frag) == core.STR)
    before = snap2('cache')
    loads, made = [], []
    doc = Opaque(z3.Const('document', U), 'plain')
    def load(itp, a, kw):
        loads.append((a[1] if len(a) > 1 else kw['uri']).t)
        if branch(fn('load_fails', U, B)(loads[-1])): itp.throw(CatalogError, 'cannot load')
        return doc
    CONTRACTS[Catalog.load_json] = load
    new = sch('new_schema')
    def construct(itp, a, kw):
        made.append((a, dict(kw)))
        if branch(z3.Bool('construction_fails')): itp.throw(JSONSchemaError, 'bad schema')
        havoc2('cache')                 # construction adds the schema and its parts to the cache
        st['after'] = snap2('cache')
        return new
    st = {}
    CLASSCALL[JSONSchema] = construct
    args = dict(metaschema_uri=m, cacheid=cid) if case else {}
    if not case: cid_t = strlit('default')
    r, exc = run_contract(lambda: itp.call(Catalog.get_schema, [cat, u], args))
    h, v = look2(before, cid_t, u.t); hb, vb = look2(before, cid_t, base)
    hasfrag = uhas('fragment', u.t); nonempty = And(hasfrag, frag != strlit(''))
    def result(t, what):
        """the value is `t`, or the error for what is not a schema"""
        if exc is not None: prove(what + ': raises the catalog error only for what is not a schema', And(exc_is(exc, CatalogError), Not(isschema(t))), repr(exc))
        else: prove(what, And(itp.to_u(r) == t, Or(z3.BoolVal(isinstance(r, SObj) and issubclass(r.cls, JSONSchema)), isschema(t))))
    def by_pointer(root):
        p = ptr_of(frag)
        if not branch(nonempty): result(root, 'the document itself'); return
        ok = And(ptr_ok(frag), reaches(p, root))
        if not branch(ok): prove('no such part: the catalog error', exc is not None and exc_is(exc, CatalogError), repr(exc)); return
        result(target(p, root), 'the part the fragment points to')
    assume(isschema(v), isschema(vb), isschema(new.t))        # caches hold schemas
    if branch(h):
        result(v, 'the cached schema is returned')
        prove('nothing is loaded', not loads and not made)
    elif branch(And(hasfrag, hb)):
        by_pointer(vb)
        prove('nothing is loaded', not loads and not made)
    else:
        prove('the base URI is loaded', loads == [] if not loads else And(len(loads) == 1, loads[0] == base))
        prove('one load', len(loads) == 1)
        if not made:
            prove('a load failure is the catalog error', exc is not None and exc_is(exc, CatalogError), repr(exc)); return
        a, kw = made[0]
        prove('one schema is constructed from the document', len(made) == 1 and len(a) == 1 and isinstance(a[0], Opaque) and a[0].t.eq(doc.t))
        g = lambda n: kw.get(n)
        prove('in this catalog', isinstance(g('catalog'), SObj) and g('catalog').t.eq(cat.t))
        prove('in the same cache', itp.to_u(kw.get('cacheid', 'default')) == cid_t)
        prove('under the base URI', isinstance(g('uri'), SObj) and g('uri').t.eq(base) if not (isinstance(g('uri'), SObj)) else g('uri').t == base)
        prove('with the given metaschema URI', (isinstance(g('metaschema_uri'), SObj) and g('metaschema_uri').t.eq(m.t)) if case else g('metaschema_uri') is None)
        if 'after' not in st:
            prove('a construction error is passed on', exc is not None and exc_is(exc, JSONSchemaError), repr(exc)); return
        h2, v2 = look2(st['after'], cid_t, u.t)
        assume(Implies(h2, isschema(v2)))
        if branch(h2): result(v2, 'the schema cached by the construction is returned')
        else: by_pointer(new.t)
        before = st['after']
    changed2('cache', before, 'a lookup leaves the caches alone', same)

contract(('P23', 'P21'), 'looking up a schema', 'Catalog.get_schema')(lambda: lookup(0))
contract(('P23', 'P21'), 'looking up a schema in a given cache', 'Catalog.get_schema')(lambda: lookup(1))

class Stop(Exception): pass
class Kill(BaseException): pass
def use(catalog, args, body):
    with catalog.cache(*args) as cid:
        body(cid)
def use_return(catalog, args, body):
    with catalog.cache(*args) as cid:
        return body(cid)
def use_loop(catalog, args, body):
    for i in (1, 2):
        with catalog.cache(*args) as cid:
            body(cid)
            break

@contract('P23', 'context-managed cache', 'Catalog.cache')
def cache_context():
    itp = Interp(); cat = the_catalog(itp)
    cid = Opaque(z3.Const('cacheid', U), 'id')
    anon = core.choose(2)
    before = snap2('cache')
    made = []
    def newid(itp, a, kw):
        t = fresh('uuid', U); made.append(t)
        assume(Not(z3.Select(state('cache')[0], t)))      # a new UUID is unused
        return Opaque(t, 'id')
    CONTRACTS[uuid.uuid4] = newid
    how = core.choose(5)
    seen, st = [], {}
    def body(itp, a, kw):
        seen.append(a[0])
        c, k = z3.Const('any_cache', U), z3.Const('any_uri', U)
        changed2('cache', before, 'entering leaves every cache as it was', same)
        # what add_schema, lookups and nested contexts may do: everything
        havoc2('cache'); st['after'] = snap2('cache')
        if how == 1: raise PyRaise(Stop('stop'))
        if how == 2: raise PyRaise(Kill('kill'))
        return None
    f = {3: use_return, 4: use_loop}.get(how, use)
    used = z3.Select(before[0][0], cid.t)
    _, exc = run_contract(lambda: itp.call(f, [cat, () if anon else (cid,), HostFn(body, 'body')]))
    if not anon and branch(used):
        prove('an identifier in use is rejected', exc is not None and exc_is(exc, CatalogError), repr(exc))
        prove('the block is not entered', not seen)
        changed2('cache', before, 'the existing cache is not disturbed', same)
        d0, d1 = before[0][0], state('cache')[0]
        c = z3.Const('any_cache', U)
        prove('no cache comes or goes', ForAll([c], z3.Select(d0, c) == z3.Select(d1, c)))
        return
    prove('the block is entered once', len(seen) == 1)
    if len(seen) != 1: return
    the = itp.to_u(seen[0])
    if anon: prove('a new identifier', And(*[Or(*[the == t for t in made])]) if made else False)
    else: prove('the identifier is handed over', the == cid.t)
    if how in (1, 2): prove('an exception in the block is passed on', isinstance(exc, (Stop, Kill)), repr(exc))
    else: no_exception('leaving the block', exc)
    changed2('cache', st['after'], 'the cache is gone, others are as the block left them', lambda c, k, h, v: (And(h, c != the), v))
    prove('the identifier is free again', Not(z3.Select(state('cache')[0], the)))

@contract('P23', 'two contexts', 'Catalog.cache')
def nested():
    """an identifier is in use from the start of its context"""
    itp = Interp(); cat = the_catalog(itp)
    cid = Opaque(z3.Const('cacheid', U), 'id')
    assume(Not(z3.Select(state('cache')[0], cid.t)))
    got = []
    def body(itp, a, kw):
        try: itp.call(use, [cat, (cid,), HostFn(lambda itp, a, kw: got.append('entered'), 'inner')])
        except PyRaise as e: got.append(e.exc)
    _, exc = run_contract(lambda: itp.call(use, [cat, (cid,), HostFn(body, 'body')]))
    no_exception('the outer context', exc)
    prove('the same identifier cannot be entered again', len(got) == 1 and got[0] != 'entered' and exc_is(got[0], CatalogError), repr(got))

@contract(('P23', 'P21'), 'changing the URI of a schema', 'JSONSchema.uri', 'Catalog.add_schema', 'Catalog.del_schema')
def change_uri():
    itp = Interp(); cat = the_catalog(itp)
    s = sch('schema'); cid = Opaque(z3.Const('cacheid', U), 'id')
    had = z3.Bool('had_uri'); old, new = uri_obj('old_uri'), uri_obj('new_uri')
    uri_facts(old.t); uri_facts(new.t); assume(sameuri(old.t, new.t) == sameuri(new.t, old.t))
    field = {'v': Opt(had, old)}
    ATTRS[(JSONSchema, '_uri')] = lambda itp, o: field['v']
    def setter(itp, o, v): field['v'] = v
    ATTRS[(JSONSchema, '_uri', 'set')] = setter
    ATTRS[(JSONSchema, 'catalog')] = lambda itp, o: cat
    ATTRS[(JSONSchema, 'cacheid')] = lambda itp, o: cid
    before = snap2('cache')
    value = None if core.choose(2) else new
    _, exc = run_contract(lambda: itp.setattr(s, 'uri', value))
    no_exception('setting the URI', exc)
    keep = And(had, sameuri(old.t, new.t)) if value is not None else Not(had)
    def spec(c, k, h, v):
        gone = And(had, c == cid.t, k == old.t, h, v == s.t)
        if value is None: return z3.If(keep, h, And(h, Not(gone))), v
        at = And(c == cid.t, k == new.t)
        return z3.If(keep, h, Or(at, And(h, Not(gone)))), z3.If(And(Not(keep), at), s.t, v)
    changed2('cache', before, 'its entry moves to the new URI, nothing else changes', spec)
    u, exc = run_contract(lambda: itp.getattr(s, 'uri')); no_exception('uri', exc)
    want = z3.If(had, old.t, U_NONE)
    prove('the schema has the new URI', itp.to_u(u) == (z3.If(keep, want, new.t) if value is not None else z3.If(keep, want, U_NONE)))

@contract('P23', 'catalogs by name', 'Catalog.__init__', 'Catalog.get_catalog')
def catalogs_by_name():
    itp = Interp(); uris(itp)
    core.CUR.store[('K', Catalog, '_catalog_registry')] = new_map('registry', (lambda itp, t: SObj(t, Catalog), lambda itp, v: itp.to_u(v)))
    before = state('registry')
    n, q = text('name'), text('query')
    d = core.choose(2)
    c, exc = run_contract(lambda: itp.construct(Catalog, [] if d else [n], {})); no_exception('Catalog()', exc)
    nt = strlit('catalog') if d else n.t
    changed1('registry', before, 'registered under its name, others as before', lambda k, h, v: (Or(h, k == nt), z3.If(k == nt, itp.to_u(c), v)))
    prove('it has its name', itp.to_u(itp.getattr(c, 'name')) == nt)
    e = core.choose(2)
    qt = strlit('catalog') if e else q.t
    r, exc = run_contract(lambda: itp.call(itp.getattr(Catalog, 'get_catalog'), [] if e else [q]))
    h, v = look1(state('registry'), qt)
    if exc is not None: prove('an unknown name is the catalog error', And(exc_is(exc, CatalogError), Not(h)), repr(exc))
    else: prove('the catalog registered under the name', And(h, itp.to_u(r) == v))
    # nothing of it is shared
    for f in ('_uri_sources', '_vocabularies', '_schema_cache', '_enabled_formats'):
        x = itp.getattr(c, f)
        prove(f'{f} starts empty and its own', isinstance(x, Cont) and not itp.content(x).parts, repr(x))

@contract(('P23', 'P25'), 'vocabularies by URI', 'Catalog.create_vocabulary', 'Catalog.get_vocabulary')
def vocabularies():
    itp = Interp(); uris(itp)
    vs = new_map('vocab', (lambda itp, t: SObj(t, Vocabulary), lambda itp, v: itp.to_u(v)))
    ATTRS[(Catalog, '_vocabularies')] = lambda itp, c: vs
    cat = SObj(z3.Const('catalog', U), Catalog)
    u, q = uri_obj('uri'), uri_obj('query')
    made = []
    def new(itp, a, kw):
        made.append(a); return SObj(z3.Const('new_vocabulary', U), Vocabulary, True)
    CLASSCALL[Vocabulary] = new
    before = state('vocab')
    classes = mk_map(z3.Const('n_classes', I), lambda v: Opaque(fn('kwclass', I, U)(v), 'class')); assume(z3.Const('n_classes', I) >= 0)
    r, exc = run_contract(lambda: itp.call(Catalog.create_vocabulary, [cat, u, _Star(classes)])); no_exception('create_vocabulary', exc)
    prove('the new vocabulary is returned', isinstance(r, SObj) and core.entails(r.t == z3.Const('new_vocabulary', U)))
    changed1('vocab', before, 'registered under its URI, others as before', lambda k, h, v: (Or(h, k == u.t), z3.If(k == u.t, z3.Const('new_vocabulary', U), v)))
    ok = len(made) == 1 and len(made[0]) >= 1 and isinstance(made[0][0], SObj) and made[0][0].t.eq(u.t)
    prove('built once from the URI', ok, repr(made))
    if ok:
        rest = made[0][1:]
        s = rest[0].seq if len(rest) == 1 and isinstance(rest[0], _Star) else None
        prove('and from all the classes given', s is not None and len(s.parts) == 1 and itp_same(itp, s, classes), repr(rest))
    g, exc = run_contract(lambda: itp.call(Catalog.get_vocabulary, [cat, q]))
    h, v = look1(state('vocab'), q.t)
    if exc is not None: prove('an unknown URI is the catalog error', And(exc_is(exc, CatalogError), Not(h)), repr(exc))
    else: prove('the vocabulary registered under the URI', And(h, itp.to_u(g) == v))

def itp_same(itp, s, w):
    from .seqspec import prove_seq
    prove_seq(itp, 'classes in order', s, w)
    return True

@contract(('P23', 'P25'), 'metaschemas by URI', 'Catalog.get_metaschema')
def get_metaschema():
    itp = Interp(); cat = the_catalog(itp)
    u = uri_obj('uri')
    made = []
    ismeta = fn('isinst:jschon.vocabulary.Metaschema', U, B)
    before = snap2('cache')
    h, v = look2(before, strlit('__meta__'), u.t)
    assume(Implies(ismeta(v), And(jtype(v) == strlit('object'), jlen(v) > 0)))       # a metaschema document is not empty
    def create(itp, a, kw):
        made.append((a, kw))
        if branch(z3.Bool('create_fails')): itp.throw(CatalogError, 'cannot load')
        havoc2('cache'); st['after'] = snap2('cache')
        assume(ismeta(z3.Const('new_meta', U)))
        return SObj(z3.Const('new_meta', U), Metaschema)
    st = {}
    CONTRACTS[Catalog.create_metaschema] = create
    r, exc = run_contract(lambda: itp.call(Catalog.get_metaschema, [cat, u]))
    falsy = Not(z3.If(jtype(v) == strlit('boolean'), jbool(v), jlen(v) > 0))
    if not made:
        prove('a cached metaschema is used', h)
        if exc is not None: prove('what is not a metaschema is the catalog error', And(exc_is(exc, CatalogError), Not(ismeta(v))), repr(exc))
        else: prove('the cached metaschema', And(itp.to_u(r) == v, ismeta(v)))
        changed2('cache', before, 'a lookup leaves the caches alone', same)
        return
    prove('loaded only when it is not cached', Or(Not(h), And(falsy, Not(ismeta(v)))))
    prove('loaded by its URI', len(made) == 1 and len(made[0][0]) == 2 and isinstance(made[0][0][1], SObj) and made[0][0][1].t.eq(u.t) and not made[0][1] if made else False, repr(made))
    if 'after' not in st: prove('the failure is passed on', exc is not None and exc_is(exc, CatalogError), repr(exc)); return
    no_exception('get_metaschema', exc)
    prove('the new metaschema', itp.to_u(r) == z3.Const('new_meta', U))

# ------------------------------------------------------------ P22
startswith = fn('startswith', U, U, B); suffix = fn('text_from', U, I, U); endswith = fn('endswith', U, U, B)
def slices(itp):
    def getitem(itp, s, k):
        if isinstance(k, View) and k.kind == 'slice' and k.obj[1] is None and k.obj[2] is None and isinstance(k.obj[0], (SInt, int)):
            n = zint(k.obj[0]); t = itp.to_u(s)
            assume(kind(suffix(t, n)) == core.STR, suffix(t, z3.IntVal(0)) == t)
            return SStr(suffix(t, n))
        return NOT
    CONTRACTS['str_getitem'] = getitem
    def removeprefix(itp, s, a):
        t, p = itp.to_u(s), itp.to_u(a[0])
        r = z3.If(startswith(t, p), suffix(t, strlen(p)), t)
        assume(kind(r) == core.STR)
        return SStr(r)
    CONTRACTS['str_removeprefix'] = removeprefix
    a, b, t = z3.Const('p_a', U), z3.Const('p_b', U), z3.Const('p_t', U)
    assume(strlen(strlit('')) == 0, ForAll([t], startswith(t, strlit('')), patterns=[startswith(t, strlit(''))]),
           ForAll([t, a, b], Implies(And(startswith(t, a), startswith(t, b), strlen(a) == strlen(b)), a == b), patterns=[z3.MultiPattern(startswith(t, a), startswith(t, b))]))

class Broken(Exception): pass
def load_json_case(fails):
    itp = Interp(); uris(itp); slices(itp)
    n = z3.Const('n_sources', I); pk = fn('source_prefix', I, U); sv = fn('source_at', I, U)
    v, w = freshvar('i'), freshvar('j')
    assume(n >= 0, ForAll([v], kind(pk(v)) == core.STR, patterns=[pk(v)]), ForAll([v, w], Implies(And(rng(v, n), rng(w, n), pk(v) == pk(w)), v == w)))
    entries = mk_map(n, lambda v: (SStr(pk(v)), Opaque(sv(v), 'source')))
    m = METHODS
    m[('view:sources', 'items')] = lambda itp, o, a, kw: View('items', o, entries)
    m[('view:sources', 'keys')] = m[('view:sources', '__iter__')] = lambda itp, o, a, kw: mk_map(n, lambda v: SStr(pk(v)))
    m[('view:sources', 'values')] = lambda itp, o, a, kw: View('values', o, mk_map(n, lambda v: Opaque(sv(v), 'source')))
    m[('view:sources', '__len__')] = lambda itp, o, a, kw: SInt(n)
    at = fn('source_index', U, I); known = lambda t: And(rng(at(t), n), pk(at(t)) == t)
    assume(ForAll([v], Implies(rng(v, n), at(pk(v)) == v), patterns=[pk(v)]))
    m[('view:sources', '__contains__')] = lambda itp, o, a, kw: known(itp.to_u(a[0]))
    def getitem(itp, o, a, kw):
        t = itp.to_u(a[0])
        if not branch(known(t)): raise PyRaise(KeyError(a[0]))
        return Opaque(sv(at(t)), 'source')
    m[('view:sources', '__getitem__')] = getitem
    m[('view:sources', 'get')] = lambda itp, o, a, kw: Opaque(sv(at(itp.to_u(a[0]))), 'source') if branch(known(itp.to_u(a[0]))) else (a[1] if len(a) > 1 else None)
    ATTRS[(Catalog, '_uri_sources')] = lambda itp, c: View('sources', None)
    cat = SObj(z3.Const('catalog', U), Catalog)
    u = uri_obj('uri'); t = uri_facts(u.t); txt = utext(t)
    assume(kind(txt) == core.STR)
    calls = []
    doc = Opaque(z3.Const('document', U), 'plain')
    def call(itp, f, a, kw):
        calls.append((f.t, a, kw))
        if fails is not None: raise PyRaise(fails())
        return doc
    ATTRS[('call', 'source')] = call
    r, exc = run_contract(lambda: itp.call(Catalog.load_json, [cat, u]))
    bad = Or(Not(uhas('scheme', t)), Not(unormal(t)), uhas('fragment', t))
    covered = Exists([v], And(rng(v, n), startswith(txt, pk(v))))
    if not calls:
        prove('without a call of a source: the catalog error', exc is not None and exc_is(exc, CatalogError), repr(exc))
        prove('only for an unsuitable URI or without a matching source', Or(bad, Not(covered)))
        return
    prove('unsuitable URIs are rejected', Not(bad))
    ok = len(calls) == 1 and len(calls[0][1]) == 1 and not calls[0][2]
    prove('one source is called with one argument', ok, repr(calls))
    if not ok: return
    f, (arg,), _ = calls[0]
    arg = itp.to_u(arg)
    best = lambda v: And(rng(v, n), startswith(txt, pk(v)), ForAll([w], Implies(And(rng(w, n), startswith(txt, pk(w))), strlen(pk(w)) <= strlen(pk(v)))))
    prove('the source of the longest matching prefix, with the remainder of the URI', Exists([v], And(best(v), f == sv(v), arg == suffix(txt, strlen(pk(v))))))
    if fails is None:
        no_exception('load_json', exc)
        prove('what the source returns', isinstance(r, Opaque) and r.t.eq(doc.t), repr(r))
    else: prove('a failure of the source is the catalog error', exc is not None and exc_is(exc, CatalogError), repr(exc))
for _n, _f in (('loading', None), ('a failing source', lambda: Broken('x')), ('a source without the file', lambda: OSError(2, 'no such file')), ('a source raising the catalog error', lambda: CatalogError('x')),
               ('a source with bad text', lambda: ValueError('x')), ('a source raising KeyError', lambda: KeyError('x')), ('a source raising a library error', lambda: JSONPointerError('x'))):
    contract('P22', _n, 'Catalog.load_json')((lambda f: lambda: load_json_case(f))(_f))

@contract('P22', 'registering a source', 'Catalog.add_uri_source')
def add_uri_source():
    itp = Interp(); uris(itp); slices(itp)
    srcs = new_map('sources', (lambda itp, t: Opaque(t, 'source'), lambda itp, v: itp.to_u(v)))
    ATTRS[(Catalog, '_uri_sources')] = lambda itp, c: srcs
    cat = SObj(z3.Const('catalog', U), Catalog)
    u = uri_obj('base_uri'); t = uri_facts(u.t)
    s = Opaque(z3.Const('source', U), 'source')
    p = uval('path', t)
    assume(kind(p) == core.STR, Not(endswith(strlit(''), strlit('/'))), Implies(uhas('path', t), p != strlit('')), strlen(p) >= 0, (strlen(p) == 0) == (p == strlit('')),
           endswith(p, strlit('/')) == And(strlen(p) > 0, fn('str.at', U, I, U)(p, z3.IntVal(-1)) == strlit('/')))
    before = state('sources')
    default = core.choose(2)
    _, exc = run_contract(lambda: itp.call(Catalog.add_uri_source, [cat, None if default else u, s]))
    bad = z3.BoolVal(False) if default else Or(Not(uhas('scheme', t)), Not(unormal(t)), uhas('fragment', t), Not(uhas('path', t)), Not(endswith(p, strlit('/'))))
    if exc is not None:
        prove('an unsuitable base URI is the catalog error', And(exc_is(exc, CatalogError), bad), repr(exc))
        changed1('sources', before, 'nothing is registered', lambda k, h, v: (h, v)); return
    prove('unsuitable base URIs are rejected', Not(bad))
    k0 = strlit('') if default else utext(t)
    changed1('sources', before, 'registered under the text of the base URI (all URIs without one)', lambda k, h, v: (Or(h, k == k0), z3.If(k == k0, s.t, v)))

joined = fn('path_joined', U, U, U); pathof = fn('path_of_text', U, U); ptext = fn('path_text', U, U)
def cat_text(itp, a, b): return itp.to_u(itp.fmt([SStr(a), SStr(b)]))
def source_case(cls):
    itp = Interp(); uris(itp)
    rel, sfx = text('relative'), text('suffix')
    loaded = []
    P = pathlib.Path
    def newpath(itp, a, kw):
        if not a: raise Unsupported('Path()')
        def one(x):
            if isinstance(x, SObj) and issubclass(x.cls, pathlib.PurePath): return x.t
            return pathof(itp.to_u(x))
        t = one(a[0])
        for x in a[1:]: t = joined(t, pathof(itp.to_u(x)))
        return SObj(t, P, True)
    CLASSCALL[P] = newpath
    def div(itp, a, kw):
        y = a[1]
        return SObj(joined(a[0].t, y.t if isinstance(y, SObj) else pathof(itp.to_u(y))), P, True)
    CONTRACTS[pathlib.PurePath.__truediv__] = div
    CONTRACTS[pathlib.PurePath.joinpath] = lambda itp, a, kw: div(itp, a, kw) if len(a) == 2 else NOT
    def ptxt(itp, o):
        assume(kind(ptext(o.t)) == core.STR); return SStr(ptext(o.t))
    CONTRACTS[('str', P)] = ptxt
    CONTRACTS[pathlib.PurePath.__str__] = lambda itp, a, kw: ptxt(itp, a[0])
    doc = Opaque(z3.Const('document', U), 'plain')
    fail = core.choose(4)
    def load(itp, a, kw):
        loaded.append(a[0])
        if fail == 1: itp.throw(OSError, 2, 'No such file', 'name')
        if fail == 2: itp.throw(ValueError, 'bad text')
        if fail == 3: itp.throw(OSError, 'broken')
        return doc
    CONTRACTS[UT.json_loadf] = load if cls is LocalSource else None
    CONTRACTS[UT.json_loadr] = load if cls is RemoteSource else None
    local = cls is LocalSource
    base = (Opaque(z3.Const('base_dir', U), 'plain') if core.choose(2) else text('base_dir')) if local else uri_obj('base_url')
    if not local: assume(uhas('scheme', base.t))
    with_suffix = core.choose(3)
    args = [{}, dict(suffix=sfx), dict(suffix=None)][with_suffix]
    src, exc = run_contract(lambda: itp.construct(cls, [base], args)); no_exception('constructor', exc)
    r, exc = run_contract(lambda: itp.call(src, [rel]))
    prove('one resource is loaded', len(loaded) == 1, repr(loaded))
    if len(loaded) != 1: return
    x = loaded[0]
    got = ptext(x.t) if isinstance(x, SObj) and issubclass(x.cls, pathlib.PurePath) else itp.to_u(x)
    if local: want = ptext(joined(pathof(itp.to_u(base)), pathof(rel.t)))
    else: want = utext(resolved(parsed(rel.t), base.t))
    if with_suffix == 1:
        if branch(sfx.t != strlit('')): want = cat_text(itp, want, sfx.t)
    prove('the remainder resolved against the base, with the suffix', got == want, f'{x!r}')
    if fail: prove('failures are not hidden', exc is not None and issubclass(exc_class(exc), Exception) and exc_is(exc, (OSError, ValueError, CatalogError)), repr(exc))
    else:
        no_exception('source', exc)
        prove('what was loaded is returned', isinstance(r, Opaque) and r.t.eq(doc.t), repr(r))
contract('P22', 'local source', 'LocalSource.__init__', 'LocalSource.__call__', 'Source.__init__')(lambda: source_case(LocalSource))
contract('P22', 'remote source', 'RemoteSource.__init__', 'RemoteSource.__call__', 'Source.__init__')(lambda: source_case(RemoteSource))
