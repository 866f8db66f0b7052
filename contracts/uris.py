"""P26: the URI class over the rfc3986 library.  The library's functions are
external: a reference has five components, each present or absent; parsing,
normalization, resolution and printing are functions of the components."""
from .model import *
from .env import contract
import rfc3986, rfc3986.misc, rfc3986.validators, rfc3986.exceptions
from rfc3986 import URIReference
from jschon.uri import URI
from jschon.exc import URIError

COMPS = ('scheme', 'authority', 'path', 'query', 'fragment')
parse = fn('uriref', U, U); text_of_ref = fn('unsplit', U, U); absolute = fn('ref_absolute', U, B)
resolved = fn('ref_resolved', U, U, U); normal = fn('ref_normal', U, U)
eqref = fn('ref_equal', U, U, B); sameref = fn('ref_same', U, U, B); hashref = fn('ref_hash', U, I)
has_ = lambda c, t: fn('has_' + c, U, B)(t)
val_ = lambda c, t: fn('comp_' + c, U, U)(t)

def ref_setup(itp):
    core.CUR.opts['texts'] = True
    for c in COMPS:
        ATTRS[(URIReference, c)] = (lambda c: lambda itp, o: Opt(has_(c, o.t), comp(o.t, c)))(c)
    def comp(t, c):
        assume(kind(val_(c, t)) == core.STR)
        return SStr(val_(c, t))
    C = CONTRACTS
    C[rfc3986.uri_reference] = lambda itp, a, kw: SObj(parse(itp.to_u(a[0] if a else kw['uri'])), URIReference, True)
    def from_string(itp, a, kw):
        a = [x for x in a if x is not URIReference]
        return SObj(parse(itp.to_u(a[0])), URIReference, True)
    C[URIReference.from_string.__func__] = from_string
    def unsplit(itp, a, kw):
        assume(kind(text_of_ref(a[0].t)) == core.STR)
        return SStr(text_of_ref(a[0].t))
    C[URIReference.unsplit] = unsplit
    C[URIReference.is_absolute] = lambda itp, a, kw: SBool(absolute(a[0].t))
    C[URIReference.normalize] = lambda itp, a, kw: SObj(normal(a[0].t), URIReference, True)
    def resolve_with(itp, a, kw):
        if not branch(has_('scheme', a[1].t)): itp.throw(rfc3986.exceptions.RFC3986Exception, 'cannot resolve')
        return SObj(resolved(a[0].t, a[1].t), URIReference, True)
    C[URIReference.resolve_with] = resolve_with
    def copy_with(itp, a, kw):
        args = dict(zip(COMPS, a[1:])); args.update(kw)
        if not set(args) <= set(COMPS): raise PyRaise(TypeError('unexpected argument'))
        t = fresh('ref', U)
        for c in COMPS:
            v = args.get(c, rfc3986.misc.UseExisting)
            if v is rfc3986.misc.UseExisting: assume(has_(c, t) == has_(c, a[0].t), val_(c, t) == val_(c, a[0].t))
            elif v is None: assume(Not(has_(c, t)))
            elif isinstance(v, (SStr, str)): assume(has_(c, t), val_(c, t) == itp.to_u(v))
            else: prove('components are replaced by texts', False, repr(v)); raise core.Infeasible()
        return SObj(t, URIReference, True)
    C[URIReference.copy_with] = copy_with
    def ref_eq(itp, a, kw):
        x, y = a
        if isinstance(y, SObj) and issubclass(y.cls, URIReference): return mkbool(eqref(x.t, y.t))
        return mkbool(fn('ref_equals_other', U, U, B)(x.t, itp.to_u(y)))
    C[URIReference.__eq__] = ref_eq
    C[('ne', URIReference)] = lambda itp, x, y: mkbool(Not(sameref(x.t, y.t)))
    C[URIReference.normalized_equality] = lambda itp, a, kw: mkbool(eqref(a[0].t, a[1].t))
    BUILTINS[hash] = lambda itp, a, kw: SInt(hashref(a[0].t)) if isinstance(a[0], SObj) and issubclass(a[0].cls, URIReference) else old_hash(itp, a, kw)
    Vd = rfc3986.validators.Validator
    def new_validator(itp, a, kw):
        t = fresh('validator', U)
        core.CUR.store[('validator', t.get_id())] = frozenset(); core.CUR.opts.setdefault('keep', []).append(t)
        return SObj(t, Vd, True)
    CLASSCALL[Vd] = new_validator
    def require(itp, a, kw):
        if not all(isinstance(x, str) for x in a[1:]): raise Unsupported('validator')
        core.CUR.store[('validator', a[0].t.get_id())] |= frozenset(x.lower() for x in a[1:])
        return a[0]
    C[Vd.require_presence_of] = require
    def validate(itp, a, kw):
        req = core.CUR.store[('validator', a[0].t.get_id())]
        u = a[1]
        if not req <= set(COMPS): raise Unsupported('validator')
        if not branch(And(*[has_(c, u.t) for c in req])): itp.throw(rfc3986.exceptions.ValidationError, 'missing')
    C[Vd.validate] = validate
old_hash = BUILTINS.get(hash)

def given(itp, name):
    t = z3.Const(name, U); assume(kind(t) == core.STR)
    u, exc = run_contract(lambda: itp.call(URI, [SStr(t)]))
    no_exception('URI()', exc)
    r = itp.getattr(u, '_uriref')
    prove('a URI holds the parsed text', isinstance(r, SObj) and r.t.eq(parse(t)))
    return u, parse(t)

def unchanged(itp, u, r, what=''):
    x = itp.getattr(u, '_uriref')
    prove('the URI itself is not changed' + what, isinstance(x, SObj) and x.t.eq(r))

def is_uri(itp, o):
    ok = isinstance(o, Inst) and o.cls is URI
    prove('the result is a URI', ok, repr(o))
    if not ok: raise core.Infeasible()
    r = itp.getattr(o, '_uriref')
    ok = isinstance(r, SObj) and issubclass(r.cls, URIReference)
    prove('the result holds a reference', ok, repr(r))
    if not ok: raise core.Infeasible()
    return r.t

@contract('P26', 'components and text', 'URI.__init__', 'URI.scheme', 'URI.authority', 'URI.path', 'URI.query', 'URI.fragment', 'URI.__str__', 'URI.__len__', 'URI.is_absolute')
def components():
    itp = Interp(); ref_setup(itp)
    u, r = given(itp, 'text')
    for c in COMPS:
        v, exc = run_contract(lambda: itp.getattr(u, c))
        no_exception(c, exc)
        prove(f'{c} is the {c} component', itp.to_u(v) == z3.If(has_(c, r), val_(c, r), U_NONE))
    s, exc = run_contract(lambda: itp.call(str, [u])); no_exception('str()', exc)
    prove('the text is that of the components', itp.to_u(s) == text_of_ref(r))
    n, exc = run_contract(lambda: itp.call(len, [u])); no_exception('len()', exc)
    prove('the length is that of the text', zint(n) == strlen(text_of_ref(r)))
    b, exc = run_contract(lambda: itp.call(URI.is_absolute, [u])); no_exception('is_absolute', exc)
    prove('is_absolute', bool_of(b) == absolute(r))
    unchanged(itp, u, r)

@contract('P26', 'equality and hash', 'URI.__eq__', 'URI.__hash__')
def equality():
    itp = Interp(); ref_setup(itp)
    u, r = given(itp, 'text'); w, q = given(itp, 'other_text')
    b, exc = run_contract(lambda: itp.call(URI.__eq__, [u, w])); no_exception('==', exc)
    prove('URIs are equal as references', bool_of(b) == eqref(r, q))
    b, exc = run_contract(lambda: itp.call(URI.__eq__, [u, None])); no_exception('==', exc)
    prove('a URI is not None', Not(bool_of(b)))
    s = SStr(z3.Const('astring', U)); assume(kind(s.t) == core.STR)
    b, exc = run_contract(lambda: itp.call(URI.__eq__, [u, s])); no_exception('==', exc)
    prove('compared with a text as the reference is', bool_of(b) == fn('ref_equals_other', U, U, B)(r, s.t))
    h, exc = run_contract(lambda: itp.call(URI.__hash__, [u])); no_exception('hash', exc)
    h2, exc = run_contract(lambda: itp.call(URI.__hash__, [w])); no_exception('hash', exc)
    assume(Implies(r == q, eqref(r, q)))
    prove('equal components, equal hash', Implies(r == q, zint(h) == zint(h2)))

@contract('P26', 'resolve', 'URI.resolve')
def resolve():
    itp = Interp(); ref_setup(itp)
    u, r = given(itp, 'text'); w, q = given(itp, 'base_text')
    o, exc = run_contract(lambda: itp.call(URI.resolve, [u, w]))
    if exc is not None:
        prove('fails only against a base without a scheme', Not(has_('scheme', q)), repr(exc)); return
    prove('resolution as in RFC 3986', is_uri(itp, o) == resolved(r, q))
    prove('a new URI', o.id not in (u.id, w.id))
    unchanged(itp, u, r); unchanged(itp, w, q, ' (base)')

def copy_case(comp):
    itp = Interp(); ref_setup(itp)
    u, r = given(itp, 'text')
    kw, want = {}, {}
    others = core.choose(3)
    for c in COMPS:
        m = core.choose(5) if c == comp else others
        s = SStr(z3.Const('new_' + c, U)); assume(kind(s.t) == core.STR)
        keep, drop = (has_(c, r), val_(c, r)), (z3.BoolVal(False), None)
        if m == 4: want[c] = keep; continue
        kw[c], want[c] = [(True, keep), (False, drop), (s, (z3.BoolVal(True), s.t)), (None, drop)][m]
    o, exc = run_contract(lambda: itp.call(URI.copy, [u], kw))
    no_exception('copy', exc)
    n = is_uri(itp, o)
    for c in COMPS:
        h, v = want[c]
        prove(f'{c} of the copy', And(has_(c, n) == h, Implies(has_(c, n), val_(c, n) == v) if v is not None else True))
    prove('a new URI', o.id != u.id)
    unchanged(itp, u, r)
for _c in COMPS:
    contract('P26', f'copy: {_c}', 'URI.copy')((lambda c: lambda: copy_case(c))(_c))

@contract('P26', 'has_absolute_base', 'URI.has_absolute_base')
def has_absolute_base():
    itp = Interp(); ref_setup(itp)
    u, r = given(itp, 'text')
    asked = []
    def absq(itp, a, kw):
        asked.append(a[0].t); return SBool(absolute(a[0].t))
    CONTRACTS[URIReference.is_absolute] = absq
    b, exc = run_contract(lambda: itp.call(URI.has_absolute_base, [u])); no_exception('has_absolute_base', exc)
    # a reference is determined by its components
    n = z3.Const('without_fragment', U)
    same = lambda x, y: And(*[And(has_(c, x) == has_(c, y), Implies(has_(c, x), val_(c, x) == val_(c, y))) for c in COMPS])
    assume(Not(has_('fragment', n)), *[And(has_(c, n) == has_(c, r), val_(c, n) == val_(c, r)) for c in COMPS[:4]])
    for t in asked: assume(Implies(same(t, n), absolute(t) == absolute(n)))
    prove('whether it is absolute, its fragment aside', bool_of(b) == absolute(n))
    unchanged(itp, u, r)

@contract('P26', 'validate', 'URI.validate')
def validate():
    itp = Interp(); ref_setup(itp)
    u, r = given(itp, 'text')
    names = ('require_scheme', 'require_normalized', 'allow_fragment', 'allow_non_empty_fragment')
    fl = {n: z3.Bool(n) for n in names}
    kw = {n: SBool(t) for n, t in fl.items()}
    if core.choose(2): kw = {}
    _, exc = run_contract(lambda: itp.call(URI.validate, [u], kw))
    if not kw: assume(Not(fl['require_scheme']), Not(fl['require_normalized']), fl['allow_fragment'], fl['allow_non_empty_fragment'])
    frag, hf = val_('fragment', r), has_('fragment', r)
    bad = Or(And(fl['require_scheme'], Not(has_('scheme', r))), And(fl['require_normalized'], Not(sameref(r, normal(r)))),
             And(Not(fl['allow_fragment']), hf), And(Not(fl['allow_non_empty_fragment']), hf, frag != strlit('')))
    if exc is not None:
        prove('raises the URI error', issubclass(exc_class(exc), URIError), repr(exc))
        prove('raises only when a requirement is not met', bad); return
    prove('accepts only what meets every requirement', Not(bad))
    unchanged(itp, u, r)
