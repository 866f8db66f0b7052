"""P25: metaschemas, vocabularies and their keyword classes."""
from .catalogs import *
from .textspec import text_obligation, decide
from pyvc import lang
import re, types, pathlib
import jschon
from jschon.jsonschema import Result
from pyvc.interp import _Star
import jschon.vocabulary as VM, jschon.vocabulary.core as VC
from jschon.vocabulary import Keyword, _UnknownKeyword
from jschon.vocabulary.core import VocabularyKeyword, SchemaKeyword
from . import kwbase

vhas = fn('vocabulary_has', U, U, B); vcls = fn('vocabulary_class', U, U, U)       # the keyword classes of a vocabulary, by name
vn = fn('vocabulary_size', U, I); vkey = fn('vocabulary_key', U, I, U); vidx = fn('vocabulary_index', U, U, I)
known = fn('vocabulary_known', U, B); voc = fn('vocabulary_of', U, U)               # the vocabularies of the catalog, by URI
iscore = fn('is_core_uri_text', U, B)
CORE = r'https://json-schema\.org/draft/[^/]+/vocab/core'

def core_hook(itp, method, pattern, flags, s):
    """the code's pattern is recognised by the language it denotes (a trailing newline aside)"""
    if not isinstance(s, SStr): return NOT
    p = pattern
    if p.endswith('$') and not p.endswith(r'\$'): p = p[:-1]
    elif p.endswith(r'\Z'): p = p[:-2]
    elif method != 'fullmatch': p += '(?s:.*)'
    if p.startswith('^'): p = p[1:]
    elif p.startswith(r'\A'): p = p[2:]
    elif method == 'search': p = '(?s:.*)' + p
    text_obligation('the pattern denotes the core vocabulary URIs', lambda: decide(('cmp', p, flags, 'core'), lambda: lang.compare(p, flags, CORE)), f'pattern {pattern!r}')
    return Opt(iscore(s.t), Opaque(fresh('match', U), 'match'))

def vocabulary_model(itp):
    t, k, i = z3.Const('vm_t', U), z3.Const('vm_k', U), freshvar('vm')
    assume(ForAll([t], vn(t) >= 0, patterns=[vn(t)]),
           ForAll([t, i], Implies(rng(i, vn(t)), And(vhas(t, vkey(t, i)), vidx(t, vkey(t, i)) == i, kind(vkey(t, i)) == core.STR)), patterns=[vkey(t, i)]),
           ForAll([t, k], Implies(vhas(t, k), And(rng(vidx(t, k), vn(t)), vkey(t, vidx(t, k)) == k)), patterns=[vhas(t, k)]))
    ATTRS[(Vocabulary, 'kwclasses')] = lambda itp, o: View('vkw', o.t)
    m = METHODS
    items = lambda o: mk_map(vn(o.obj), lambda v: (SStr(vkey(o.obj, v)), Opaque(vcls(o.obj, vkey(o.obj, v)), 'kwclass')))
    m[('view:vkw', 'items')] = lambda itp, o, a, kw: View('items', o, items(o))
    m[('view:vkw', 'keys')] = m[('view:vkw', '__iter__')] = lambda itp, o, a, kw: mk_map(vn(o.obj), lambda v: SStr(vkey(o.obj, v)))
    m[('view:vkw', '__contains__')] = lambda itp, o, a, kw: vhas(o.obj, itp.to_u(a[0]))
    def getitem(itp, o, a, kw):
        k = itp.to_u(a[0])
        if not branch(vhas(o.obj, k)): raise PyRaise(KeyError(a[0]))
        return Opaque(vcls(o.obj, k), 'kwclass')
    m[('view:vkw', '__getitem__')] = getitem
    # the keyword classes of the metaschema under construction: the updates made to them, in order
    core.CUR.opts['kwlog'] = log = itp.new_cont('list')
    def add(x): itp.set_content(log, itp.content(log) + lits([x]))
    def update(itp, o, a, kw):
        if len(a) != 1 or kw or not (isinstance(a[0], View) and a[0].kind == 'vkw'): raise Unsupported(f'update with {a!r}')
        add((strlit('all of'), SAny(a[0].obj), None))
    m[('view:kwlog', 'update')] = update
    def ior(itp, o, a, kw):
        update(itp, o, a, kw); return o
    m[('view:kwlog', '__ior__')] = ior
    def setitem(itp, o, a, kw): add((strlit('one'), SAny(itp.to_u(a[0])), SAny(itp.to_u(a[1]))))
    m[('view:kwlog', '__setitem__')] = setitem
    return log, add

def norm_entry(e):
    return core.lit_of(e[0]), (e[1].t if e[1] is not None else None), (e[2].t if e[2] is not None else None)
def final(seq, K, has, val, outer=()):
    """presence and value of the name K after the updates of seq"""
    for p in seq.parts:
        if isinstance(p, Lit):
            what, x, y = norm_entry(p.v)
            if what == 'all of': h, v = vhas(x, K), vcls(x, K)
            elif what == 'one': h, v = x == K, y
            else: raise Unsupported(f'update {p.v!r}')
            has, val = Or(has, h), z3.If(h, v, val)
        elif isinstance(p, Map):
            def at(j, p=p):
                h, v = z3.BoolVal(False), val
                for g, sub in p.alts:
                    hh, vv = final(sub, K, z3.BoolVal(False), val, outer + (p.var,))
                    h, v = Or(h, And(g, hh)), z3.If(And(g, hh), vv, v)
                return Subst([(p.var, j)]).z(h), Subst([(p.var, j)]).z(v)
            f = z3.Function(core.fresh_name('last'), *[I] * len(outer), I) if outer else z3.Const(core.fresh_name('last'), I)
            l = f(*outer) if outer else f
            j = freshvar('l')
            h, v = at(l)
            some = And(rng(l, p.n), h)
            ax = And(ForAll([j], Implies(And(rng(j, p.n), at(j)[0]), And(some, j <= l))))
            assume(ForAll(list(outer), ax) if outer else ax)
            has, val = Or(has, some), z3.If(some, v, val)
        else: raise Unsupported('updates of unknown number')
    return has, val

def prove_final(itp, what, got, want, base=None):
    K = z3.Const('any_keyword', U)
    base = base or (z3.BoolVal(False), z3.Const('no_class', U))
    h1, v1 = final(got, K, *base); h2, v2 = final(want, K, *base)
    prove(what + ': the names', h1 == h2)
    prove(what + ': their classes', Implies(h1, v1 == v2))
def whole(t): return (strlit('all of'), SAny(t), None)

vkv = fn('declared_uri', I, U); vreq = fn('declared_required', I, B); dpos = fn('declared_index', U, I)
def declaration(itp):
    """the value of "$vocabulary": any mapping of URI texts to booleans"""
    n = z3.Const('n_declared', I); i = freshvar('d')
    assume(n >= 0, ForAll([i], Implies(rng(i, n), And(kind(vkv(i)) == core.STR, dpos(vkv(i)) == i)), patterns=[vkv(i)]))
    has = lambda t: And(rng(dpos(t), n), vkv(dpos(t)) == t)
    m = METHODS
    m[('view:declared', 'items')] = lambda itp, o, a, kw: View('items', o, mk_map(n, lambda v: (SStr(vkv(v)), SBool(vreq(v)))))
    m[('view:declared', 'keys')] = lambda itp, o, a, kw: View('keys', o, mk_map(n, lambda v: SStr(vkv(v))))
    m[('view:declared', '__iter__')] = lambda itp, o, a, kw: mk_map(n, lambda v: SStr(vkv(v)))
    m[('view:declared', 'values')] = lambda itp, o, a, kw: View('values', o, mk_map(n, lambda v: SBool(vreq(v))))
    m[('view:declared', '__len__')] = lambda itp, o, a, kw: SInt(n)
    m[('view:declared', '__contains__')] = lambda itp, o, a, kw: has(itp.to_u(a[0]))
    def getitem(itp, o, a, kw):
        t = itp.to_u(a[0])
        if not branch(has(t)): raise PyRaise(KeyError(a[0]))
        return SBool(vreq(dpos(t)))
    m[('view:declared', '__getitem__')] = getitem
    m[('view:declared', 'get')] = lambda itp, o, a, kw: SBool(vreq(dpos(itp.to_u(a[0])))) if branch(has(itp.to_u(a[0]))) else (a[1] if len(a) > 1 else None)
    core.CUR.opts['declared'] = View('declared', None)
    return core.CUR.opts['declared'], n, has

def get_vocabulary(itp):
    def get(itp, a, kw):
        u = (a[1] if len(a) > 1 else kw['uri']).t
        if not branch(known(u)): itp.throw(CatalogError, 'unrecognized')
        return SObj(voc(u), Vocabulary)
    CONTRACTS[Catalog.get_vocabulary] = get

def vocabulary_keyword(meta):
    itp = Interp(); uris(itp)
    log, add = vocabulary_model(itp)
    value, n, has = declaration(itp)
    get_vocabulary(itp)
    cat = SObj(z3.Const('catalog', U), Catalog)
    corevoc = SObj(z3.Const('core_vocabulary', U), Vocabulary); coreuri = uri_obj('core_uri')
    s = SObj(z3.Const('metaschema', U), Metaschema if meta else JSONSchema)
    if not meta: assume(Not(fn('isinst:jschon.vocabulary.Metaschema', U, B)(s.t)))
    ATTRS[(Metaschema, 'core_vocabulary')] = lambda itp, o: corevoc
    ATTRS[(Vocabulary, 'uri')] = lambda itp, o: coreuri
    ATTRS[(Metaschema, 'kwclasses')] = lambda itp, o: View('kwlog', None)
    ATTRS[(JSONSchema, 'catalog')] = lambda itp, o: cat
    inits = []
    CONTRACTS[Keyword.__init__] = lambda itp, a, kw: inits.append(a[1:])
    _, exc = run_contract(lambda: itp.construct(VocabularyKeyword, [s, value], {}))
    i = freshvar('v')
    u = lambda i: parsed(vkv(i))
    if not meta:
        no_exception('in a schema that is not a metaschema', exc)
        prove('has no effect', not itp.content(log).parts); return
    ct = utext(coreuri.t)
    bad = Or(Not(has(ct)), Not(vreq(dpos(ct))), Exists([i], And(rng(i, n), Or(Not(uhas('scheme', u(i))), Not(unormal(u(i))), And(Not(known(u(i))), vreq(i))))))
    if exc is not None:
        prove('rejected with the schema error', exc_is(exc, JSONSchemaError), repr(exc))
        prove('only for an unsuitable declaration', bad); return
    prove('unsuitable declarations are rejected', Not(bad))
    prove('the keyword is set up as such', len(inits) == 1 and inits[0][1] is value, repr(inits))
    v = freshvar('w')
    prove_final(itp, 'the keywords of the recognised vocabularies', itp.content(log), Seq([Map(v, n, [(known(u(v)), lits([whole(voc(u(v)))]))])]))
contract('P25', 'vocabulary declaration', 'VocabularyKeyword.__init__')(lambda: vocabulary_keyword(True))
contract('P25', 'vocabulary declaration outside of a metaschema', 'VocabularyKeyword.__init__')(lambda: vocabulary_keyword(False))

def the_value(itp, decl):
    """the metaschema document: only "$vocabulary" matters here"""
    present = z3.Bool('declares_vocabularies'); m = METHODS
    def only(a):
        if a[0] != '$vocabulary': raise Unsupported(f'member {a[0]!r} of the metaschema')
    def contains(itp, o, a, kw): only(a); return present
    m[('view:metadoc', '__contains__')] = contains
    def get(itp, o, a, kw): only(a); return Opt(present, decl) if len(a) < 2 or a[1] is None else (decl if branch(present) else a[1])
    m[('view:metadoc', 'get')] = get
    def getitem(itp, o, a, kw):
        only(a)
        if not branch(present): raise PyRaise(KeyError(a[0]))
        return decl
    m[('view:metadoc', '__getitem__')] = getitem
    return View('metadoc', None), present

@contract('P25', 'metaschema', 'Metaschema.__init__')
def metaschema_init():
    itp = Interp(); uris(itp)
    log, add = vocabulary_model(itp)
    decl, n, has = declaration(itp)
    value, present = the_value(itp, decl)
    get_vocabulary(itp)
    core.CUR.opts['re_hook'] = core_hook
    cat = SObj(z3.Const('catalog', U), Catalog)
    hasdef = z3.Bool('has_default_core')
    d = SObj(z3.Const('default_core', U), Vocabulary)
    nd = z3.Const('n_defaults', I); assume(nd >= 0)
    defaults = mk_map(nd, lambda v: SObj(fn('default_vocabulary', I, U)(v), Vocabulary))
    uri = uri_obj('uri')
    supers = []
    CONTRACTS[JSONSchema.__init__] = lambda itp, a, kw: supers.append((a, dict(kw)))
    how = core.choose(2)
    st = {}
    def make(itp, a, kw): pass
    m, exc = run_contract(lambda: itp.construct(Metaschema, [cat, value] + ([Opt(hasdef, d), _Star(defaults)] if how else []), dict(uri=uri)))
    i, j = freshvar('i'), freshvar('j')
    c = lambda i: iscore(vkv(i))
    declares = And(present, n > 0)
    unique = Exists([i], And(rng(i, n), c(i), known(parsed(vkv(i))), ForAll([j], Implies(And(rng(j, n), c(j)), j == i))))
    hd = hasdef if how else z3.BoolVal(False)
    ok = z3.If(declares, unique, hd)
    if exc is not None:
        prove('rejected with the schema error', exc_is(exc, JSONSchemaError), repr(exc))
        prove('only without a unique core vocabulary', Not(ok)); return
    prove('no metaschema without a unique core vocabulary', ok)
    cv = itp.to_u(itp.getattr(m, 'core_vocabulary'))
    prove('the declared core vocabulary, the default one when none is declared',
          z3.If(declares, Exists([i], And(rng(i, n), c(i), cv == voc(parsed(vkv(i))))), cv == d.t))
    dv = itp.getattr(m, 'default_vocabularies')
    from .seqspec import prove_seq
    prove_seq(itp, 'the default vocabularies', itp.iterate(dv), defaults if how else Seq([]))
    prove('the schema is constructed once', len(supers) == 1)
    if len(supers) != 1: return
    a, kw = supers[0]
    prove('from the document', len(a) == 2 and a[0] is m and a[1] is value, repr(a))
    prove('in the catalog, under the URI', isinstance(kw.get('catalog'), SObj) and kw['catalog'].t.eq(cat.t) and isinstance(kw.get('uri'), SObj) and kw['uri'].t.eq(uri.t) and set(kw) == {'catalog', 'uri', 'cacheid'}, repr(kw))
    prove('in the cache of metaschemas', kw.get('cacheid') == '__meta__')
    k = itp.getattr(m, 'kwclasses')
    prove('its keyword classes start out empty', isinstance(k, Cont) and not itp.content(k).parts, repr(k))

@contract('P25', 'keywords of a metaschema', 'Metaschema._bootstrap')
def bootstrap():
    itp = Interp(); uris(itp)
    log, add = vocabulary_model(itp)
    decl, n, has = declaration(itp)
    value, present = the_value(itp, decl)
    s = SObj(z3.Const('metaschema', U), Metaschema)
    corevoc = SObj(z3.Const('core_vocabulary', U), Vocabulary)
    nd = z3.Const('n_defaults', I); assume(nd >= 0)
    dv = fn('default_vocabulary', I, U)
    ATTRS[(Metaschema, 'core_vocabulary')] = lambda itp, o: corevoc
    ATTRS[(Metaschema, 'default_vocabularies')] = lambda itp, o: itp.new_cont('tuple', mk_map(nd, lambda v: SObj(dv(v), Vocabulary)))
    ATTRS[(Metaschema, 'kwclasses')] = lambda itp, o: View('kwlog', None)
    D = z3.Const('declared_keywords', U)
    def super_bootstrap(itp, a, kw):
        prove('on this document', a[0].t.eq(s.t) and a[1] is value)
        # the keywords of the declared, recognised vocabularies (contract of VocabularyKeyword)
        if branch(present): add(whole(D))
    CONTRACTS[JSONSchema._bootstrap] = super_bootstrap
    _, exc = run_contract(lambda: itp.call(Metaschema._bootstrap, [s, value])); no_exception('_bootstrap', exc)
    v = freshvar('w')
    want = lits([whole(D), whole(corevoc.t)]) if branch(present) else lits([whole(corevoc.t)]) + Seq([Map(v, nd, [(z3.BoolVal(True), lits([whole(dv(v))]))])])
    prove_final(itp, 'core, and declared or default vocabularies', itp.content(log), want)

@contract('P25', 'keyword lookup', 'Metaschema.get_kwclass')
def get_kwclass():
    itp = Interp(); uris(itp)
    made = {}
    def unwrap(itp, v):
        if isinstance(v, View) and v.kind == 'newclass': return v.obj
        return itp.to_u(v)
    m = new_map('kwclasses', (lambda itp, t: Opaque(t, 'kwclass'), unwrap))
    ATTRS[(Metaschema, 'kwclasses')] = lambda itp, o: m
    s = SObj(z3.Const('metaschema', U), Metaschema)
    key = text('keyword')
    before = state('kwclasses')
    def newtype(itp, a, kw):
        n, bases, ns = a
        if core.entails(itp.to_u(n) == strlit('')): pass
        # what Python requires of the name of a class
        prove('the name of the new class is acceptable for any keyword', isinstance(n, str) and '\0' not in n, repr(n))
        t = fresh('newclass', U)
        made['n'] = made.get('n', 0) + 1
        made['bases'], made['ns'], made['t'] = bases, lit_items(itp, ns), t
        return View('newclass', t)
    CLASSCALL[type] = newtype
    r, exc = run_contract(lambda: itp.call(Metaschema.get_kwclass, [s, key]))
    no_exception('get_kwclass', exc)
    h, v = look1(before, key.t)
    if branch(h):
        prove('the class of a keyword the metaschema provides', itp.to_u(r) == v if not isinstance(r, View) else False)
        prove('no new class', not made)
        changed1('kwclasses', before, 'lookup changes nothing', lambda k, h, v: (h, v)); return
    prove('otherwise a new class', made.get('n') == 1, repr(r))
    if not made: return
    prove('and that is returned', unwrap(itp, r) == made['t'])
    b = made['bases']
    prove('of unknown keywords', isinstance(b, tuple) and b == (_UnknownKeyword,), repr(b))
    ns = dict(made['ns'])
    prove('for this name', set(ns) == {'key'} and isinstance(ns['key'], SStr) and ns['key'].t.eq(key.t) , repr(ns))
    h1, v1 = look1(state('kwclasses'), key.t)
    changed1('kwclasses', before, 'nothing else changes', lambda k, h, v: (Or(h, And(k == key.t, h1)), z3.If(And(k == key.t, h1), made['t'], v)))

def unknown_case(jtyp):
    """an unknown keyword with a value of any type is an annotation that does not assert"""
    k = kwbase.setup(type('Sample', (_UnknownKeyword,), dict(key='x-sample')), jtyp)
    kwbase.declared(k.cls, 'x-sample', ('null', 'boolean', 'number', 'string', 'array', 'object'))
    kwbase.evaluate(k)
    itp = k.itp
    a = itp.getattr(k.res, 'annotation')
    prove('the annotation is the value of the keyword', itp.to_u(a) == itp.to_u(itp.getattr(k.json, 'value')), repr(a))
    prove('valid', kwbase.valid(k))
    prove('asserts nothing', Not(bool_of(kwbase.fld(k, '_assert'))))
    prove('is not discarded', Not(bool_of(kwbase.fld(k, '_discard'))))
    prove('no error', itp.getattr(k.res, 'error') is None)
    kwbase.no_children(k)
for _t in ('string', 'number', 'boolean', 'array', 'object', 'null'):
    contract('P25', f'unknown keyword with a {_t}', '_UnknownKeyword.evaluate', 'Keyword.__init__')((lambda t: lambda: unknown_case(t))(_t))

@contract('P25', 'vocabulary', 'Vocabulary.__init__')
def vocabulary_init():
    itp = Interp(); uris(itp)
    n = z3.Const('n_classes', I); assume(n >= 0)
    ck = fn('class_key', U, U); cl = fn('kwclass', I, U)
    ATTRS[('opaque', 'kwclass', 'key')] = lambda itp, o: (assume(kind(ck(o.t)) == core.STR), SStr(ck(o.t)))[1]
    i, j = freshvar('i'), freshvar('j')
    assume(ForAll([i, j], Implies(And(rng(i, n), rng(j, n), i != j), ck(cl(i)) != ck(cl(j))), patterns=[z3.MultiPattern(cl(i), cl(j))]))     # one class per name
    u = uri_obj('uri')
    v, exc = run_contract(lambda: itp.construct(Vocabulary, [u, _Star(mk_map(n, lambda v: Opaque(cl(v), 'kwclass')))], {})); no_exception('Vocabulary()', exc)
    g = itp.getattr(v, 'uri')
    prove('its URI', isinstance(g, SObj) and g.t.eq(u.t))
    d = itp.getattr(v, 'kwclasses')
    s = itp.iterate(itp.call(itp.getattr(d, 'items'), []))
    K = z3.Const('any_keyword', U)
    log = []
    for p in s.parts:
        if isinstance(p, Lit): log.append(Lit((strlit('one'), SAny(itp.to_u(p.v[0])), SAny(itp.to_u(p.v[1])))))
        elif isinstance(p, Map): log.append(Map(p.var, p.n, [(g, Seq([Lit((strlit('one'), SAny(itp.to_u(q.v[0])), SAny(itp.to_u(q.v[1])))) for q in sub.parts])) for g, sub in p.alts]))
        else: raise Unsupported('classes of a vocabulary')
    w = freshvar('w')
    prove_final(itp, 'each class by its keyword', Seq(log), Seq([Map(w, n, [(z3.BoolVal(True), lits([(strlit('one'), SAny(ck(cl(w))), SAny(cl(w)))]))])]))

@contract('P25', 'creating a metaschema', 'Catalog.create_metaschema')
def create_metaschema():
    itp = Interp(); uris(itp); get_vocabulary(itp)
    cat = SObj(z3.Const('catalog', U), Catalog)
    u, cu = uri_obj('uri'), uri_obj('default_core_uri')
    nd = z3.Const('n_defaults', I); assume(nd >= 0)
    du = fn('default_uri', I, U)
    doc = Opaque(z3.Const('document', U), 'metadoc2')
    docs, made, checked = [], [], []
    def load(itp, a, kw):
        docs.append((a[1] if len(a) > 1 else kw['uri']).t)
        if branch(z3.Bool('load_fails')): itp.throw(CatalogError, 'cannot load')
        return doc
    CONTRACTS[Catalog.load_json] = load
    meta = SObj(z3.Const('new_meta', U), Metaschema)
    def construct(itp, a, kw):
        made.append((a, dict(kw)))
        if branch(z3.Bool('construction_fails')): itp.throw(JSONSchemaError, 'bad')
        return meta
    CLASSCALL[Metaschema] = construct
    def validate(itp, a, kw):
        checked.append(a[0].t)
        return SObj(z3.Const('validation', U), Result)
    CONTRACTS[JSONSchema.validate] = validate
    ATTRS[(Result, 'valid')] = lambda itp, o: SBool(fn('res_valid', U, B)(o.t))
    ATTRS[(JSONSchema, 'metaschema_uri')] = lambda itp, o: uri_obj('its_metaschema_uri')
    assume(strlen(utext(cu.t)) > 0)      # the URI of a vocabulary is not empty
    how = core.choose(3)
    extra = dict(metaschema_uri=uri_obj('its_metaschema_uri')) if core.choose(2) else {}
    args = [[], [cu], [cu, _Star(mk_map(nd, lambda v: SObj(du(v), URI, True)))]][how]
    r, exc = run_contract(lambda: itp.call(Catalog.create_metaschema, [cat, u] + args, dict(extra)))
    i = freshvar('i')
    ks = z3.BoolVal(True) if how == 0 else known(cu.t)
    if how == 2: ks = And(ks, ForAll([i], Implies(rng(i, nd), known(du(i)))))
    if not made:
        prove('the error of loading or of an unknown vocabulary', exc is not None and exc_is(exc, CatalogError), repr(exc))
        prove('only for an unknown vocabulary or a failed load', Or(Not(ks), z3.Bool('load_fails')) ); return
    prove('the document at the URI is loaded', len(docs) == 1 and docs[0].eq(u.t))
    prove('unknown default vocabularies are rejected', ks)
    a, kw = made[0]
    prove('one metaschema is constructed from it', len(made) == 1 and len(a) >= 2 and isinstance(a[0], SObj) and a[0].t.eq(cat.t) and isinstance(a[1], Opaque) and a[1].t.eq(doc.t), repr(made))
    prove('under the URI', isinstance(kw.get('uri'), SObj) and kw['uri'].t.eq(u.t))
    prove('further arguments are passed on', {k: v.t for k, v in kw.items() if k != 'uri'} == {k: v.t for k, v in extra.items()}, repr(kw))
    c0 = a[2] if len(a) > 2 else None
    if how == 0: prove('no default core vocabulary', c0 is None, repr(c0))
    else: prove('the default core vocabulary', isinstance(c0, SObj) and core.entails(c0.t == voc(cu.t)), repr(c0))
    rest = a[3:]
    seq = Seq([])
    for x in rest: seq = seq + (x.seq if isinstance(x, _Star) else lits([x]))
    from .seqspec import prove_seq
    prove_seq(itp, 'the default vocabularies in order', seq, mk_map(nd, lambda v: SObj(voc(du(v)), Vocabulary)) if how == 2 else Seq([]))
    if exc is not None and not checked:
        prove('a construction error is passed on', And(exc_is(exc, JSONSchemaError), z3.Bool('construction_fails')), repr(exc)); return
    prove('it is validated', len(checked) == 1 and checked[0].eq(meta.t))
    valid = fn('res_valid', U, B)(z3.Const('validation', U))
    if exc is not None: prove('an invalid metaschema is the catalog error', And(exc_is(exc, CatalogError), Not(valid)), repr(exc))
    else: prove('the new metaschema, if valid', And(valid, itp.to_u(r) == meta.t))

# ---- the dialects
def _tables():
    import jschon.vocabulary.annotation as AN, jschon.vocabulary.applicator as AP, jschon.vocabulary.format as F, jschon.vocabulary.legacy as L, jschon.vocabulary.validation as VA, jschon.vocabulary.future as FU
    def t(mod, names, special={}):
        """keyword -> the class verified for it (by P14-P17, P19, P21, P24, P25)"""
        d = {k: getattr(mod, k[0].upper() + k[1:] + 'Keyword') for k in names.split() if k not in special}
        d.update(special); return d
    core = dict({'$schema': VC.SchemaKeyword, '$vocabulary': VC.VocabularyKeyword, '$id': VC.IdKeyword, '$ref': VC.RefKeyword, '$anchor': VC.AnchorKeyword, '$defs': VC.DefsKeyword, '$comment': VC.CommentKeyword})
    dyn = {'$dynamicRef': VC.DynamicRefKeyword, '$dynamicAnchor': VC.DynamicAnchorKeyword}
    inplace = 'allOf anyOf oneOf not if then else dependentSchemas contains properties patternProperties additionalProperties propertyNames items'
    validation = t(VA, 'type enum const multipleOf maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength pattern maxItems minItems uniqueItems maxContains minContains maxProperties minProperties required dependentRequired')
    meta = t(AN, 'title description default deprecated readOnly writeOnly examples')
    content = t(AN, 'contentMediaType contentEncoding contentSchema')
    fmt = t(F, 'format')
    uneval = t(AP, 'unevaluatedItems unevaluatedProperties')
    new = {'applicator': t(AP, inplace + ' prefixItems'), 'unevaluated': uneval, 'validation': validation, 'format-annotation': fmt, 'meta-data': meta, 'content': content}
    return {
        '2019-09': {'core': dict(core, **{'$recursiveRef': L.RecursiveRefKeyword_2019_09, '$recursiveAnchor': L.RecursiveAnchorKeyword_2019_09}),
                    'applicator': t(AP, inplace, {'items': L.ItemsKeyword_2019_09, 'additionalItems': L.AdditionalItemsKeyword_2019_09, 'unevaluatedItems': L.UnevaluatedItemsKeyword_2019_09, 'unevaluatedProperties': L.UnevaluatedPropertiesKeyword_2019_09}),
                    'validation': validation, 'format': fmt, 'meta-data': meta, 'content': content},
        '2020-12': dict(core=dict(core, **dyn), **new),
        'next': dict(core=dict(core, **dyn, **{'$id': FU.IdKeyword_Next}), **new)}

from importlib import import_module
def dialect(version):
    itp = Interp(); uris(itp)
    mod = import_module('jschon.catalog._' + version.replace('-', '_'))
    cat = SObj(z3.Const('catalog', U), Catalog)
    srcs, vocs, metas, locs = [], [], [], []
    CONTRACTS[Catalog.add_uri_source] = lambda itp, a, kw: srcs.append(a[1:] + list(kw.values()))
    def newvoc(itp, a, kw):
        vocs.append(a[1:]); return SObj(fresh('vocabulary', U), Vocabulary)
    CONTRACTS[Catalog.create_vocabulary] = newvoc
    def newmeta(itp, a, kw):
        metas.append((a[1:], kw, len(vocs), len(srcs))); return SObj(fresh('meta', U), Metaschema)
    CONTRACTS[Catalog.create_metaschema] = newmeta
    def loc(itp, a, kw):
        locs.append((a, kw)); return Opaque(fresh('source', U), 'source')
    CLASSCALL[LocalSource] = loc
    CLASSCALL[pathlib.Path] = lambda itp, a, kw: pathlib.Path(*a)
    CONTRACTS[pathlib.PurePath.__truediv__] = lambda itp, a, kw: a[0] / a[1]
    _, exc = run_contract(lambda: itp.call(mod.initialize, [cat])); no_exception('initialize', exc)
    base = f'https://json-schema.org/draft/{version}/'
    isuri = lambda x, s: isinstance(x, SObj) and core.entails(x.t == parsed(strlit(s)))
    prove('one source is registered, for the URIs of the dialect', len(srcs) == 1 and isuri(srcs[0][0], base), repr(srcs))
    want = pathlib.Path(mod.__file__).parent / f'json-schema-{version}'
    ok = len(locs) == 1 and len(locs[0][0]) == 1 and set(locs[0][1]) == {'suffix'}
    prove('reading the files of the dialect', ok and str(locs[0][0][0]) == str(want) and locs[0][1]['suffix'] == '.json', repr(locs))
    table = _tables()[version]
    for n, classes in table.items():
        mine = [v for v in vocs if isuri(v[0], base + 'vocab/' + n)]
        prove(f'the vocabulary {n} is registered', len(mine) >= 1)
        if not mine: continue
        got = {c.key: c for c in mine[-1][1:]}
        prove(f'{n}: exactly its keywords', set(got) == set(classes), f'{set(got) ^ set(classes)}')
        for k, c in sorted(classes.items()): prove(f'{n}: {k} is implemented as in the dialect', got.get(k) is c, f'{got.get(k)}')
    prove('no other vocabularies', all(any(isuri(v[0], base + 'vocab/' + n) for n in table) for v in vocs), repr([v[0] for v in vocs]))
    ok = len(metas) == 1 and len(metas[0][0]) >= 1 and isuri(metas[0][0][0], base + 'schema') and not metas[0][1]
    prove('the metaschema of the dialect is created', ok, repr(metas))
    if not ok: return
    a, _, nv, ns = metas[0]
    prove('after everything it needs is registered', nv == len(vocs) and ns == len(srcs))
    prove('with the core vocabulary of the dialect', len(a) > 1 and isuri(a[1], base + 'vocab/core'))
    rest = [n for n in table if n != 'core']
    prove('and its other vocabularies as defaults', len(a) - 2 == len(rest) and all(any(isuri(x, base + 'vocab/' + n) for x in a[2:]) for n in rest), repr(a))
for _v in ('2019-09', '2020-12', 'next'):
    contract('P25', f'dialect {_v}', 'catalog._' + _v.replace('-', '_') + '.initialize')((lambda v: lambda: dialect(v))(_v))

@contract('P25', 'a catalog for given versions', 'create_catalog')
def create_catalog_():
    itp = Interp(); uris(itp)
    done = itp.new_cont('list')
    mods = {v: import_module('jschon.catalog._' + v.replace('-', '_')) for v in ('2019-09', '2020-12', 'next')}
    cats = []
    new = SObj(z3.Const('new_catalog', U), Catalog)
    def mk(itp, a, kw):
        cats.append((a, kw)); return new
    CLASSCALL[Catalog] = mk
    def init(v):
        def h(itp, a, kw):
            prove('initialised is the new catalog', len(a) == 1 and isinstance(a[0], SObj) and a[0].t.eq(new.t))
            itp.set_content(done, itp.content(done) + lits([SStr(strlit(v))]))
        return h
    for v, m in mods.items(): CONTRACTS[m.initialize] = init(v)
    n = z3.Const('n_versions', I); ver = fn('version', I, U); i = freshvar('i')
    assume(n >= 0, ForAll([i], kind(ver(i)) == core.STR, patterns=[ver(i)]))
    named = core.choose(2); nm = text('name')
    r, exc = run_contract(lambda: itp.call(jschon.create_catalog, [_Star(mk_map(n, lambda v: SStr(ver(v))))], dict(name=nm) if named else {}))
    known = lambda i: Or(*[ver(i) == strlit(v) for v in mods])
    if exc is not None:
        prove('an unrecognised version is a ValueError', And(exc_is(exc, ValueError), Exists([i], And(rng(i, n), Not(known(i))))), repr(exc)); return
    prove('only recognised versions are accepted', ForAll([i], Implies(rng(i, n), known(i))))
    prove('the new catalog is returned', isinstance(r, SObj) and r.t.eq(new.t))
    args = [x for a, kw in cats for x in list(a) + list(kw.values())]
    prove('one catalog of the given name', len(cats) == 1 and len(args) == 1 and itp.to_u(args[0]).eq(nm.t if named else strlit('catalog')), repr(cats))
    w = freshvar('w'); got = freshvar('g')
    # every version given is initialised, and no other
    s = itp.content(done)
    for v in mods:
        prove(f'{v} is initialised when given', seq_exists(s, lambda x: itp.to_u(x) == strlit(v)) == Exists([i], And(rng(i, n), ver(i) == strlit(v))))

@contract('P25', 'metaschema of a schema', 'JSONSchema.metaschema')
def metaschema_of():
    itp = Interp(); uris(itp)
    has, mu = z3.Bool('has_metaschema_uri'), uri_obj('metaschema_uri')
    cat, s, m = SObj(z3.Const('catalog', U), Catalog), SObj(z3.Const('schema', U), JSONSchema), SObj(z3.Const('metaschema', U), Metaschema)
    ATTRS[(JSONSchema, 'metaschema_uri')] = lambda itp, o: mu if branch(has) else None
    ATTRS[(JSONSchema, 'catalog')] = lambda itp, o: cat
    asked = []
    def get(itp, a, kw):
        asked.append((a, dict(kw)))
        if branch(z3.Bool('no_such_metaschema')): raise PyRaise(CatalogError('x'))
        return m
    CONTRACTS[Catalog.get_metaschema] = get
    r, exc = run_contract(lambda: itp.call(JSONSchema.__dict__['metaschema'].func, [s]))
    if exc is not None:
        if exc_is(exc, JSONSchemaError): prove('a schema error only when no metaschema URI is set', Not(has))
        else: prove('the failure of the lookup', exc_is(exc, CatalogError) and len(asked) == 1, repr(exc))
        return
    prove('no metaschema without a URI', has)
    ok = len(asked) == 1 and len(asked[0][0]) == 2 and isinstance(asked[0][0][1], SObj) and asked[0][0][1].t.eq(mu.t) and asked[0][0][0].t.eq(cat.t) and not asked[0][1]
    prove('the metaschema with that URI in the catalog of the schema', ok and isinstance(r, SObj) and r.t.eq(m.t), repr((r, asked)))

@contract('P25', 'validation against the metaschema', 'JSONSchema.validate')
def validate():
    itp = Interp()
    s, m, res = SObj(z3.Const('schema', U), JSONSchema), SObj(z3.Const('metaschema', U), Metaschema), SObj(z3.Const('validation', U), Result)
    ATTRS[(JSONSchema, 'metaschema')] = lambda itp, o: m
    asked = []
    def ev(itp, a, kw):
        asked.append((list(a), dict(kw))); return res
    CONTRACTS[JSONSchema.evaluate] = ev
    r, exc = run_contract(lambda: itp.call(JSONSchema.validate, [s])); no_exception('validate', exc)
    ok = len(asked) == 1 and len(asked[0][0]) + len(asked[0][1]) == 2 and asked[0][0][0].t.eq(m.t) and itp.to_u((asked[0][0] + list(asked[0][1].values()))[1]).eq(s.t)
    prove('the metaschema evaluates the schema', ok, repr(asked))
    prove('and that is the result', isinstance(r, SObj) and r.t.eq(res.t))
