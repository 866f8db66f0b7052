"""P01-P05: JSON pointers and relative JSON pointers."""
from .textspec import *
from .seqspec import *
from .env import contract
import collections.abc as cabc
import jschon.jsonpointer as JP
import jschon.formats as FM
from jschon.exc import *
from jschon.jsonpointer import RelativeJSONPointer

for _c in (JSONPointer.__eq__, JSONPointer.__truediv__): CONTRACTS.pop(_c, None)
pn = fn('keys_n', U, I); pat = fn('keys_at', U, I, U)

def keyseq(t): return mk_map(pn(t), lambda v: SStr(pat(t, v)))
def sym_ptr(itp, name, cls=JSONPointer):
    """an arbitrary pointer: any number of keys, any texts"""
    t = z3.Const(name, U)
    i = freshvar('k')
    assume(pn(t) >= 0, ForAll([i], kind(pat(t, i)) == core.STR, patterns=[pat(t, i)]))
    o = itp.alloc_inst(cls)
    c = itp.new_cont('list', keyseq(t))
    itp.set_field(o, '_keys', c)
    return o, t, c

def keys(itp, o):
    return itp.iterate(itp.getattr(o, '_keys'))

def unchanged(itp, *trip):
    for o, t, c in trip:
        k = itp.getattr(o, '_keys')
        prove('operands are not altered', isinstance(k, Cont) and k.id == c.id)
        prove_seq(itp, 'operands are not altered', itp.content(c), keyseq(t))

def fresh_keys(itp, r, *trip):
    k = itp.getattr(r, '_keys')
    prove('the result does not share its keys with an operand', isinstance(k, Cont) and all(k.id != c.id for _, _, c in trip))

def build(label, mk):
    @contract('P03', label, 'JSONPointer.__new__', 'JSONPointer.__truediv__')
    def scen():
        itp = Interp()
        texts(itp, 'pointer')
        ops, run, want = mk(itp)
        r, exc = run_contract(run)
        no_exception(label, exc)
        prove('a JSONPointer', isinstance(r, Inst) and r.cls is JSONPointer)
        prove_seq(itp, 'concatenated keys', keys(itp, r), want)
        unchanged(itp, *ops); fresh_keys(itp, r, *ops)

build('construct()', lambda itp: ([], lambda: itp.construct(JSONPointer, [], {}), EMPTY))
def _b(itp):
    A, B_ = sym_ptr(itp, 'A'), sym_ptr(itp, 'B')
    return [A, B_], lambda: itp.construct(JSONPointer, [A[0], B_[0]], {}), keyseq(A[1]) + keyseq(B_[1])
build('construct(pointer, pointer)', _b)
def _b(itp):
    A = sym_ptr(itp, 'A'); s = View('seq', None, keyseq(z3.Const('S', U))); assume(pn(z3.Const('S', U)) >= 0)
    return [A], lambda: itp.construct(JSONPointer, [A[0], s], {}), keyseq(A[1]) + keyseq(z3.Const('S', U))
build('construct(pointer, tuple)', _b)
def _b(itp):
    A = sym_ptr(itp, 'A'); S = z3.Const('S', U); s = itp.new_cont('list', keyseq(S)); assume(pn(S) >= 0)
    return [A, (A[0], A[1], A[2])], lambda: itp.construct(JSONPointer, [s, A[0]], {}), keyseq(S) + keyseq(A[1])
build('construct(list, pointer)', _b)
def _b(itp):
    S = z3.Const('S', U); s = GenV(keyseq(S)); assume(pn(S) >= 0)
    return [], lambda: itp.construct(JSONPointer, [s], {}), keyseq(S)
build('construct(generator)', _b)
def _b(itp):
    A = sym_ptr(itp, 'A'); k = SStr(z3.Const('key', U)); assume(kind(k.t) == core.STR)
    return [A], lambda: itp.binop('/', A[0], k) if False else itp.call(JSONPointer.__truediv__, [A[0], k]), keyseq(A[1]) + lits([k])
build('pointer / key', _b)
def _b(itp):
    A, B_ = sym_ptr(itp, 'A'), sym_ptr(itp, 'B')
    return [A, B_], lambda: itp.call(JSONPointer.__truediv__, [A[0], B_[0]]), keyseq(A[1]) + keyseq(B_[1])
build('pointer / pointer', _b)
def _b(itp):
    A = sym_ptr(itp, 'A'); S = z3.Const('S', U); s = View('seq', None, keyseq(S)); assume(pn(S) >= 0)
    return [A], lambda: itp.call(JSONPointer.__truediv__, [A[0], s]), keyseq(A[1]) + keyseq(S)
build('pointer / keys', _b)

@contract('P03', 'construct(any number of pointers)', 'JSONPointer.__new__')
def many():
    """for every number of arguments (a loop over the argument list)"""
    itp = Interp(); texts(itp, 'pointer')
    V_ = z3.Const('args', U); at = fn('arg_at', U, I, U)
    assume(pn(V_) >= 0)
    ATTRS[(JSONPointer, '_keys')] = lambda itp, o: View('seq', None, keyseq(o.t))
    v = freshvar('q'); assume(ForAll([v], pn(at(V_, v)) >= 0))
    from pyvc.interp import _Star
    r, exc = run_contract(lambda: itp.call(JSONPointer.__new__, [JSONPointer, _Star(mk_map(pn(V_), lambda v: SObj(at(V_, v), JSONPointer, True)))]))
    no_exception('construction', exc)
    a, b = freshvar('a'), freshvar('b')
    want = Seq([Map(a, pn(V_), [(True, Seq([Map(b, pn(at(V_, a)), [(True, Seq([Lit(SStr(pat(at(V_, a), b)))]))])]))])])
    prove_seq(itp, 'concatenated keys', keys(itp, r), want)

@contract('P03', 'length, index', 'JSONPointer.__len__', 'JSONPointer.__getitem__')
def index():
    itp = Interp()
    A = sym_ptr(itp, 'A'); o, t, c = A
    prove('length', zint(itp.call(JSONPointer.__len__, [o])) == pn(t))
    i = z3.Int('index'); n = pn(t)
    v, exc = run_contract(lambda: itp.call(JSONPointer.__getitem__, [o, SInt(i)]))
    inr = And(i >= -n, i < n)
    if exc is not None:
        prove('index error exactly when out of range', And(Not(inr), exc_is(exc, IndexError)))
    else:
        prove('index within range', inr)
        prove('the key at that index', itp.to_u(v) == pat(t, z3.If(i < 0, i + n, i)))
    unchanged(itp, A)

def exc_is(exc, cls):
    from pyvc.interp import exc_class
    return issubclass(exc_class(exc), cls)

def slices(label, a, b):
    @contract('P03', label, 'JSONPointer.__getitem__')
    def scen():
        itp = Interp(); texts(itp, 'pointer')
        A = sym_ptr(itp, 'A'); o, t, c = A
        n = pn(t)
        x, y = (None if a is None else z3.Int('start')), (None if b is None else z3.Int('stop'))
        sl = View('slice', (None if x is None else SInt(x), None if y is None else SInt(y), None))
        r, exc = run_contract(lambda: itp.call(JSONPointer.__getitem__, [o, sl]))
        no_exception('slice', exc)
        prove('a JSONPointer', isinstance(r, Inst) and r.cls is JSONPointer)
        def clamp(z, d): return d if z is None else z3.If(z < 0, z3.If(z + n < 0, z3.IntVal(0), z + n), z3.If(z > n, n, z))
        lo, hi = clamp(x, z3.IntVal(0)), clamp(y, n)
        ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        prove_seq(itp, 'the slice of the keys', keys(itp, r), mk_map(z3.simplify(ln), lambda v: SStr(pat(t, v + lo))))
        unchanged(itp, A); fresh_keys(itp, r, A)
slices('slice [:]', None, None); slices('slice [a:]', 1, None); slices('slice [:b]', None, 1); slices('slice [a:b]', 1, 1)

def prefix(t, u):
    v = freshvar('p')
    return And(pn(t) <= pn(u), ForAll([v], Implies(rng(v, pn(t)), pat(t, v) == pat(u, v))))
def equal_keys(t, u): return And(pn(t) == pn(u), prefix(t, u))

import operator
OPS = {'==': lambda t, u: equal_keys(t, u), '!=': lambda t, u: Not(equal_keys(t, u)), '<=': prefix, '<': lambda t, u: And(prefix(t, u), Not(equal_keys(t, u))),
       '>=': lambda t, u: prefix(u, t), '>': lambda t, u: And(prefix(u, t), Not(equal_keys(t, u)))}
PYOP = {'==': ast.Eq, '!=': ast.NotEq, '<=': ast.LtE, '<': ast.Lt, '>=': ast.GtE, '>': ast.Gt} if 'ast' in globals() else None
import ast
PYOP = {'==': ast.Eq, '!=': ast.NotEq, '<=': ast.LtE, '<': ast.Lt, '>=': ast.GtE, '>': ast.Gt}
def comparison(op):
    @contract('P03', f'pointer {op} pointer', 'JSONPointer.__eq__', 'JSONPointer.__le__', 'JSONPointer.__lt__')
    def scen():
        itp = Interp()
        A, B_ = sym_ptr(itp, 'A'), sym_ptr(itp, 'B')
        r, exc = run_contract(lambda: itp.compare(PYOP[op](), A[0], B_[0]))
        no_exception('comparison', exc)
        prove(f'{op} is as specified on key sequences', tb(itp.truth(r) if isinstance(r, V) or not z3.is_expr(r) else r) == OPS[op](A[1], B_[1]))
        unchanged(itp, A, B_)
    return scen
for _o in OPS: comparison(_o)

@contract('P03', 'hash', 'JSONPointer.__hash__')
def hash_():
    """equal key sequences give equal hashes: hash of a tuple of texts is a
    function of that sequence"""
    itp = Interp()
    seen = []
    def hk(itp, v):
        seen.append(v); return SInt(fn('hash_of_tuple', U, I)(z3.Const('hashed', U)))
    ATTRS['hash'] = hk
    A = sym_ptr(itp, 'A')
    try: r = itp.call(JSONPointer.__hash__, [A[0]])
    finally: ATTRS.pop('hash')
    v = seen[0] if len(seen) == 1 else None
    prove('hash of one immutable sequence', isinstance(v, (View, tuple)))
    if v is not None: prove_seq(itp, 'a function of the key sequence', itp.iterate(v), keyseq(A[1]))
    prove('the hash value is used as it is', isinstance(r, SInt) and r.t.eq(fn('hash_of_tuple', U, I)(z3.Const('hashed', U))))
    unchanged(itp, A)

# ------------------------------------------------------------------- P01, P04
def prove_tokens(itp, seq, s):
    """the keys are the decoded raw tokens of the accepted text s"""
    ok = len(seq.parts) == 1 and isinstance(seq.parts[0], Map) and is_pure(seq.parts[0])
    if not ok:
        prove('decomposed into its tokens', Not(tb(seq_nonempty(seq))) if not seq.parts else False, str(seq))
        return
    m = seq.parts[0]
    prove('as many keys as tokens', m.n == ptok_n(s))
    v = m.alts[0][1].parts[0].v
    root, ch = chain_of(itp.to_u(v))
    v2 = freshvar('tk')
    prove('keys come from the tokens in order', z3.substitute(root, (m.var, v2)) == ptok(s, v2))
    text_obligation('keys are the unescaped tokens', lambda: chain_is(ch, lang.UNESCAPE, 'unescape', lang.TOKEN), f'{key_of(ch)}')

@contract(('P01', 'P04'), 'parse', 'JSONPointer.__new__', 'JSONPointer.unescape')
def parse():
    itp = Interp(); texts(itp, 'pointer')
    s = SStr(z3.Const('text', U)); assume(kind(s.t) == core.STR)
    r, exc = run_contract(lambda: itp.construct(JSONPointer, [s], {}))
    if exc is not None:
        prove('rejected with the malformed-pointer error', exc_is(exc, JSONPointerMalformedError))
        prove('rejected only when it violates the grammar', Not(inlang['pointer'](s.t)))
        return
    prove('accepted only when it matches the grammar', inlang['pointer'](s.t))
    if not core.entails(inlang['pointer'](s.t)): return
    prove('a JSONPointer', isinstance(r, Inst) and r.cls is JSONPointer)
    prove_tokens(itp, keys(itp, r), s.t)
    # back to text
    t, exc = run_contract(lambda: itp.call(JSONPointer.__str__, [r]))
    no_exception('str', exc)
    j = joined_of(t) if isinstance(t, SStr) else None
    ps = pieces(j) if j is not None else None
    prove('the text is made of "/"-prefixed tokens', ps is not None and len(ps) == 1)
    if ps:
        p, term = ps[0]
        root, ch = chain_of(term)
        v2 = freshvar('tk')
        prove('tokens in order', And(p.n == ptok_n(s.t), z3.substitute(root, (p.var, v2)) == ptok(s.t, v2)))
        text_obligation('re-escaping the decoded token gives the token back', lambda: chain_is(ch, [lang.Hom({})], 'identity', lang.TOKEN), f'{key_of(ch)}')

@contract(('P01', 'P04'), 'print and parse', 'JSONPointer.__str__', 'JSONPointer.escape', 'JSONPointer.__new__', 'JSONPointer.unescape')
def roundtrip():
    itp = Interp(); texts(itp, 'pointer')
    A = sym_ptr(itp, 'A'); o, t, c = A
    s, exc = run_contract(lambda: itp.call(JSONPointer.__str__, [o]))
    no_exception('str', exc)
    printed(itp, s, t)
    unchanged(itp, A)
    q, exc = run_contract(lambda: itp.construct(JSONPointer, [s], {}))
    no_exception('parsing the printed pointer', exc)
    same_keys(itp, q, t)

def printed(itp, s, t):
    j = joined_of(s) if isinstance(s, SStr) else None
    ps = pieces(j) if j is not None else None
    prove('the text is made of "/"-prefixed tokens', ps is not None and len(ps) == 1 and isinstance(ps[0][0], Map))
    if ps:
        p, term = ps[0]
        root, ch = chain_of(term)
        v2 = freshvar('tk')
        prove('one token per key, in order', And(p.n == pn(t), z3.substitute(root, (p.var, v2)) == pat(t, v2)))
        text_obligation('tokens are escaped as RFC 6901 says', lambda: chain_is(ch, lang.ESCAPE, 'escape', lang.ANY), f'{key_of(ch)}')

def same_keys(itp, q, t):
    prove('a JSONPointer', isinstance(q, Inst) and q.cls is JSONPointer)
    s = keys(itp, q)
    ok = len(s.parts) == 1 and isinstance(s.parts[0], Map) and is_pure(s.parts[0])
    prove('equal keys', ok)
    if not ok: return
    m = s.parts[0]
    root, ch = chain_of(itp.to_u(m.alts[0][1].parts[0].v))
    v2 = freshvar('tk')
    prove('equal keys: same number, same order', And(m.n == pn(t), z3.substitute(root, (m.var, v2)) == pat(t, v2)))
    text_obligation('equal keys: decoding undoes encoding', lambda: chain_is(ch, [lang.Hom({})], 'identity', lang.ANY), f'{key_of(ch)}')

@contract('P01', 'format json-pointer', 'validate_json_pointer')
def fmt():
    itp = Interp(); texts(itp, 'pointer')
    s = SStr(z3.Const('text', U)); assume(kind(s.t) == core.STR)
    _, exc = run_contract(lambda: itp.call(FM.validate_json_pointer, [s]))
    if exc is None: prove('accepted exactly as a JSON pointer', inlang['pointer'](s.t))
    else: prove('rejected with ValueError exactly when not a JSON pointer', And(Not(inlang['pointer'](s.t)), exc_is(exc, ValueError)))
    from jschon.vocabulary.format import _format_validators as reg
    prove('registered for strings under its name', reg.get('json-pointer') is not None and any(x is FM.validate_json_pointer for x in flatten(reg['json-pointer'])))

def flatten(x):
    if isinstance(x, (list, tuple)): return [z for y in x for z in flatten(y)]
    if isinstance(x, dict): return [z for y in x.values() for z in flatten(y)]
    return [x]

@contract('P04', 'fragment', 'JSONPointer.uri_fragment', 'JSONPointer.__str__', 'JSONPointer.parse_uri_fragment')
def fragment():
    itp = Interp(); texts(itp, 'pointer')
    A = sym_ptr(itp, 'A'); o, t, c = A
    f, exc = run_contract(lambda: itp.call(JSONPointer.uri_fragment, [o]))
    no_exception('uri_fragment', exc)
    q_ = isinstance(f, SStr) and z3.is_app(f.t) and f.t.decl().name() == 'quoted'
    prove('percent-encoded', q_)
    if not q_: return
    printed(itp, SStr(f.t.arg(0)), t)
    q, exc = run_contract(lambda: itp.call(itp.getattr(JSONPointer, 'parse_uri_fragment'), [f]))
    no_exception('decoding the fragment', exc)
    same_keys(itp, q, t)

@contract('P04', 'parse fragment', 'JSONPointer.parse_uri_fragment')
def parse_fragment():
    itp = Interp(); texts(itp, 'pointer')
    s = SStr(z3.Const('text', U)); assume(kind(s.t) == core.STR)
    r, exc = run_contract(lambda: itp.call(itp.getattr(JSONPointer, 'parse_uri_fragment'), [s]))
    d = unquoted(s.t)
    if exc is not None:
        prove('rejected with the malformed-pointer error exactly when it decodes to no pointer', And(Not(inlang['pointer'](d)), exc_is(exc, JSONPointerMalformedError)))
        return
    prove('accepted only when it decodes to a pointer', inlang['pointer'](d))
    if core.entails(inlang['pointer'](d)): prove_tokens(itp, keys(itp, r), d)

# ------------------------------------------------------------------- P02
res_ok = fn('ptr_res_ok', U, I, B); res = fn('ptr_res', U, I, U)      # outcome of looking up keys i, i+1, ... from a value
p_kind = fn('plain_kind', U, I)      # 0 mapping, 1 list/tuple, 2 str, 3 any other scalar
p_has = fn('plain_has', U, U, B); p_get = fn('plain_get', U, U, U)
p_len = fn('plain_len', U, I); p_at = fn('plain_at', U, I, U)

def plain_setup(itp):
    def isinst(itp, v, c):
        if isinstance(v, Opaque) and v.what == 'plain':
            if c is cabc.Mapping: return mkbool(p_kind(v.t) == 0)
            if c is cabc.Sequence: return mkbool(Or(p_kind(v.t) == 1, p_kind(v.t) == 2))
            if c is str: return mkbool(p_kind(v.t) == 2)
            if c is dict: return mkbool(And(p_kind(v.t) == 0, fn('plain_exact', U, B)(v.t)))
            if c in (list, tuple): return mkbool(And(p_kind(v.t) == 1, fn('plain_' + c.__name__, U, B)(v.t)))
            if issubclass(c, JSON): return False
            raise Unsupported(f'isinstance of a plain value with {c}')
        return NOT
    core.CUR.opts['isinstance'] = isinst
    def getitem(itp, o, a, kw):
        k = a[0]
        if branch(p_kind(o.t) == 0):
            if not isinstance(k, (str, SStr)): raise PyRaise(KeyError(k))
            if not branch(p_has(o.t, itp.to_u(k))): raise PyRaise(KeyError(k))
            return Opaque(p_get(o.t, itp.to_u(k)), 'plain')
        if branch(p_kind(o.t) == 1):
            if not isinstance(k, (int, SInt)): raise PyRaise(TypeError('indices must be integers'))
            assume(p_len(o.t) >= 0, p_len(o.t) < MAXLEN)
            i, n = zint(k), p_len(o.t)
            if not branch(And(i >= -n, i < n)): raise PyRaise(IndexError(k))
            return Opaque(p_at(o.t, z3.simplify(z3.If(i < 0, i + n, i))), 'plain')
        if branch(p_kind(o.t) == 2):
            if not isinstance(k, (int, SInt)): raise PyRaise(TypeError('string indices must be integers'))
            if branch(fn('plain_str_idx', U, I, B)(o.t, zint(k))): return Opaque(fn('plain_char', U, I, U)(o.t, zint(k)), 'plain')
            raise PyRaise(IndexError(k))
        raise PyRaise(TypeError('not subscriptable'))
    METHODS[('opaque:plain', '__getitem__')] = getitem
    def ln(itp, o, a, kw):
        if branch(Or(p_kind(o.t) == 0, p_kind(o.t) == 1)): assume(p_len(o.t) >= 0); return SInt(p_len(o.t))
        if branch(p_kind(o.t) == 2): assume(strlen(o.t) >= 0); return SInt(strlen(o.t))
        raise PyRaise(TypeError('no len()'))
    METHODS[('opaque:plain', '__len__')] = ln
    METHODS[('opaque:plain', '__contains__')] = lambda itp, o, a, kw: p_has(o.t, itp.to_u(a[0])) if branch(p_kind(o.t) == 0) else (_ for _ in ()).throw(Unsupported('in'))

def step_spec(jsonside, v, k):
    """RFC 6901 section 4: (exists, value) of one reference token"""
    n = fn('str2int', U, I)(k)
    ix = inlang['index'](k)
    if jsonside:
        obj, arr = jtype(v) == strlit('object'), jtype(v) == strlit('array')
        return Or(And(obj, jhas(v, k)), And(arr, ix, n < jlen(v))), z3.If(obj, jchild(v, jidx(v, k)), jchild(v, n))
    obj, arr = p_kind(v) == 0, p_kind(v) == 1
    return Or(And(obj, p_has(v, k)), And(arr, ix, n < p_len(v))), z3.If(obj, p_get(v, k), p_at(v, n))

def wrap_node(jsonside, t): return SObj(t, JSON) if jsonside else Opaque(t, 'plain')

def evaluation(jsonside):
    what = 'JSON node' if jsonside else 'plain value'
    @contract('P02', f'evaluate on a {what}', 'JSONPointer.evaluate', 'JSONPointer.evaluate.<locals>.resolve')
    def scen():
        itp = Interp(); texts(itp, 'index')
        core.CUR.opts['isinstance'] = None
        if not jsonside: plain_setup(itp)
        P = sym_ptr(itp, 'ptr'); o, t, c = P
        doc = wrap_node(jsonside, z3.Const('document', U))
        v_ = freshvar('t', U)
        assume(ForAll([v_], And(jlen(v_) >= 0, jlen(v_) < MAXLEN), patterns=[jlen(v_)]))
        first = []
        def split(a):
            """(value, keys left) of the arguments: the keys as a sequence, or as the index of the next one"""
            vals = [x for x in a if isinstance(x, (SObj, Opaque))]
            ks = [x for x in a if isinstance(x, (Cont, View))]
            ns = [x for x in a if isinstance(x, (int, SInt)) and not isinstance(x, bool)]
            if len(vals) != 1 or len(ks) + len(ns) != 1: return None
            return vals[0], (ks or ns)[0]
        def left(k):
            return itp.iterate(k) if isinstance(k, (Cont, View)) else mk_map(z3.simplify(pn(t) - zint(k)), lambda x: SStr(pat(t, x + zint(k))))
        def hook(itp, fv, a, kw):
            if kw or fv.fn is not None and fv.fn.__module__ != 'jschon.jsonpointer': return NOT
            if not first:
                if split(a) is None: return NOT
                first.append((fv, list(a)))
                raise Captured()
            if any(k is (fv.fn or fv.node) for k in itp.stack) and fv.node is first[0][0].node:
                r = split(a)
                if r is None: raise Unsupported('recursive call outside the contract')
                v, ks = r
                j1 = z3.simplify(core.CUR.opts['level'] + 1)
                s = left(ks)
                if s.parts: prove_seq(itp, 'the recursive call gets the remaining keys', s, mk_map(z3.simplify(pn(t) - j1), lambda x: SStr(pat(t, x + j1))))
                else: prove('the recursive call gets the remaining keys', j1 == pn(t))
                if branch(res_ok(v.t, j1)): return wrap_node(jsonside, res(v.t, j1))
                itp.throw(JSONPointerReferenceError, 'not found')
            return NOT
        class Captured(Exception): pass
        core.CUR.opts['funcv_hooks'] = [hook]
        j = z3.Int('level')
        n = pn(t)
        # the values along the way, as long as every step has one
        V = fn('value_after', I, U); v = freshvar('v')
        def facts(x):
            return And(Or(*[jtype(x) == strlit(y) for y in TYPES]), jlen(x) >= 0, jlen(x) < MAXLEN) if jsonside else And(p_kind(x) >= 0, p_kind(x) <= 3, p_len(x) >= 0, p_len(x) < MAXLEN)
        okv = lambda i: step_spec(jsonside, V(i), pat(t, i))
        assume(V(z3.IntVal(0)) == doc.t, ForAll([v], facts(V(v)), patterns=[V(v)]),
               ForAll([v], Implies(And(rng(v, n), okv(v)[0]), V(v + 1) == okv(v)[1]), patterns=[V(v)]))
        core.CUR.opts['loop_inv'] = [lambda itp, init, x: (lambda i: wrap_node(jsonside, V(i))) if type(init) is type(doc) and init.t.eq(doc.t) else None]
        try:
            r, exc = run_contract(lambda: itp.call(JSONPointer.evaluate, [o, doc]))
        except Captured:
            # evaluate() hands document and all keys to the recursion
            fv, a = first[0]
            r = split(a)
            prove('the document is resolved', r is not None and r[0].t.eq(doc.t))
            prove_seq(itp, 'against all keys in order', left(r[1]), keyseq(t))
            ks = r[1]
            prove('on a private copy of the keys', not isinstance(ks, (Cont, View)) or isinstance(ks, View) or ks.id != c.id)
            assume(j >= 0, j <= n)
            core.CUR.opts['level'] = j
            val = wrap_node(jsonside, z3.Const('value_at_level', U))
            if jsonside: typ(val.t)
            else: assume(p_kind(val.t) >= 0, p_kind(val.t) <= 3, p_len(val.t) >= 0, p_len(val.t) < MAXLEN)
            rest = itp.new_cont(ks.kind, mk_map(z3.simplify(n - j), lambda x: SStr(pat(t, x + j)))) if isinstance(ks, Cont) else SInt(j) if not isinstance(ks, View) else None
            if rest is None: raise Unsupported('keys of the recursion')
            args = [rest if x is ks else val if x is r[0] else x for x in a]
            r, exc = run_contract(lambda: itp.call(fv.fn or fv, args))
            k = pat(t, j)
            ok, nxt = step_spec(jsonside, val.t, k)
            if exc is not None:
                prove('the pointer-reference error and no other', exc_is(exc, JSONPointerReferenceError), repr(exc))
                prove('raised only when a step has no value', And(j < n, Or(Not(ok), Not(res_ok(nxt, j + 1)))))
                return
            if not isinstance(r, (SObj, Opaque)): prove('returns a value of the document', False, repr(r)); return
            prove('the value itself when no key is left', Implies(j == n, r.t == val.t))
            prove('otherwise what the next key leads to', Implies(j < n, And(ok, res_ok(nxt, j + 1), r.t == res(nxt, j + 1))))
            unchanged(itp, P)
            return
        # resolved by a loop over the keys
        if exc is not None:
            prove('the pointer-reference error and no other', exc_is(exc, JSONPointerReferenceError), repr(exc))
            prove('raised only when a step has no value', Exists([v], And(rng(v, n), Not(okv(v)[0]))))
            return
        if not isinstance(r, (SObj, Opaque)): prove('returns a value of the document', False, repr(r)); return
        prove('the value the keys lead to, one after the other', And(ForAll([v], Implies(rng(v, n), okv(v)[0])), r.t == V(n)))
        unchanged(itp, P)
    return scen
evaluation(True); evaluation(False)

@contract('P02', 'evaluate returns what the recursion returns', 'JSONPointer.evaluate')
def passthrough():
    itp = Interp(); texts(itp, 'index')
    P = sym_ptr(itp, 'ptr'); o, t, c = P
    doc = SObj(z3.Const('document', U), JSON)
    out = SObj(z3.Const('outcome', U), JSON)
    ok = z3.Bool('resolves')
    called = []
    def hook(itp, fv, a, kw):
        if fv.fn is JSONPointer.evaluate or not any(isinstance(x, SObj) and x.t.eq(doc.t) for x in a): return NOT
        called.append(fv)
        if branch(ok): return out
        itp.throw(JSONPointerReferenceError, 'not found')
    core.CUR.opts['funcv_hooks'] = [hook]
    r, exc = run_contract(lambda: itp.call(JSONPointer.evaluate, [o, doc]))
    if not called: prove('resolved without a recursion', True); return
    if exc is not None: prove('the error of the recursion is passed on', And(Not(ok), exc_is(exc, JSONPointerReferenceError)))
    else: prove('the value of the recursion is returned', And(ok, isinstance(r, SObj) and r.t.eq(out.t)))
    unchanged(itp, P)

# ------------------------------------------------------------------- P05
anc = fn('ancestor', U, I, U)
g_up, g_over, g_ref = fn('rel_up', U, U), fn('rel_over', U, U), fn('rel_ref', U, U)
ptr_text = fn('ptr_text', U, U)      # text of a pointer (P01: a bijection onto the language)
ptr_of = fn('ptr_of', U, U)

def rel_setup(itp):
    """pointers as values: JSONPointer(text) and str(pointer) by the contracts
    of P01 (mutually inverse between pointers and the pointer language)"""
    texts(itp, 'relative', 'index', 'over')
    base = lang_hook(('relative',))
    GR = {'up': (g_up, 'index'), 'over': (g_over, 'over'), 'ref': (g_ref, None)}
    def hook(itp, method, pattern, flags, s):
        r = base(itp, method, pattern, flags, s)
        if not isinstance(r, Opt): return r
        core.CUR.opts['rel_pattern'] = (pattern, flags)
        return Opt(r.cond, Opaque(s.t, 'relmatch'))
    core.CUR.opts['re_hook'] = hook
    def group(itp, a, kw):
        o, names = a[0], a[1:]
        pattern, flags = core.CUR.opts['rel_pattern']
        def ok():
            import re as _re
            try: unamb = decide(('amb', pattern, flags), lambda: lang.capture_unambiguous(pattern, flags, names))
            except KeyError as e: return f'no group {e}'
            if not unamb: return 'ambiguous groups'
            # each group denotes its part of the grammar
            for n, want in (('up', lang.NONNEG), ('over', lang.OVER), ('ref', '(?:#|' + lang.POINTER + ')')):
                if n in names:
                    w = decide(('grp', pattern, flags, n), lambda: group_language(pattern, flags, n, want))
                    if w is not None: return f'group {n}: {w}'
            return None
        text_obligation('the groups of the pattern are the parts of the grammar', ok)
        t = o.t
        up, ov, rf = g_up(t), g_over(t), g_ref(t)
        n = fn('str2int', U, I)
        lit = strlit('')
        istr = fn('istr', I, U)
        core.CUR.opts.setdefault('cats', {})[t.get_id()] = (t, [up, ov, rf])
        plus = fn('cat:+\x00\x01', U, U)
        assume(kind(up) == core.STR, kind(ov) == core.STR, kind(rf) == core.STR,
               inlang['index'](up), n(up) >= 0, istr(n(up)) == up,
               inlang['over'](ov), Implies(ov != lit, And(n(ov) != 0, is_int_text(ov), z3.If(n(ov) < 0, istr(n(ov)) == ov, plus(istr(n(ov))) == ov))),
               Or(rf == strlit('#'), inlang['pointer'](rf)), Not(inlang['pointer'](strlit('#'))), inlang['pointer'](lit))
        assume(Not(too_long(up)), Not(too_long(ov)))      # precondition: int() converts at most 4300 digits
        m = {'up': SStr(up), 'over': SStr(ov), 'ref': SStr(rf)}
        r = tuple(m[x] for x in names)
        return r if len(r) != 1 else r[0]
    ATTRS[('opaque', 'relmatch', 'group')] = lambda itp, o: BoundM(o, HostFn(group, 'group'), 'group')
    METHODS[('opaque:relmatch', '__getitem__')] = lambda itp, o, a, kw: group(itp, [o] + a, {})
    ATTRS[('opaque', 'relmatch', 'groupdict')] = lambda itp, o: BoundM(o, HostFn(lambda itp, a, kw: itp.new_cont('dict', lits(list(zip(('up', 'over', 'ref'), group(itp, [a[0], 'up', 'over', 'ref'], {}))))), 'groupdict'), 'groupdict')
    def new(itp, a, kw):
        if len(a) == 0: t = ptr_of(strlit('')); assume(ptr_text(t) == strlit('')); return SObj(t, JSONPointer, True)
        if len(a) == 1 and isinstance(a[0], (SStr, str)):
            s = itp.to_u(a[0])
            if branch(inlang['pointer'](s)):
                assume(ptr_text(ptr_of(s)) == s)
                return SObj(ptr_of(s), JSONPointer, True)
            itp.throw(JSONPointerMalformedError, 'malformed')
        if len(a) == 1 and isinstance(a[0], SObj): return a[0]
        raise Unsupported('JSONPointer()')
    CLASSCALL[JSONPointer] = new
    def text(itp, v):
        assume(ptr_of(ptr_text(v.t)) == v.t, inlang['pointer'](ptr_text(v.t)), kind(ptr_text(v.t)) == core.STR)
        return SStr(ptr_text(v.t))
    CONTRACTS[('str', JSONPointer)] = lambda itp, v: text(itp, v) if isinstance(v, SObj) else NOT
    CONTRACTS[JSONPointer.__str__] = lambda itp, a, kw: text(itp, a[0]) if isinstance(a[0], SObj) else NOT
    CONTRACTS[JSONPointer.__eq__] = ptr_eq
    CONTRACTS[JSONPointer.__hash__] = lambda itp, a, kw: SInt(fn('hash', U, I)(a[0].t)) if isinstance(a[0], SObj) else NOT

is_int_text = fn('is_int_text', U, B)
def group_language(pattern, flags, name, want):
    """the language of one group, against the wanted one"""
    import re as _re
    p = lang.sre.parse(pattern, flags)
    g = p.state.groupdict.get(name)
    for op, av in p:
        if str(op) == 'SUBPATTERN' and av[0] == g:
            n1 = lang.NFA(); s, e = lang.build(n1, av[3], p.state.flags, {})
            n2 = lang.to_nfa(want)
            parts = lang.atoms(lang.sets_of(n1) + lang.sets_of(n2[0]))
            a, b = lang.determinize(n1, s, e, parts), lang.determinize(*n2[:3], parts)
            return lang.compare_dfa(a, b)
    return f'group {name} not found'

def rel_fields(itp, o): return [itp.getattr(o, f) for f in ('up', 'over', 'path', 'index')]

def sym_rel(itp, nm):
    """an arbitrary relative pointer built from components by the real constructor"""
    up, over = z3.Int(nm + '_up'), z3.Int(nm + '_over')
    assume(up >= 0)
    hsh = branch(z3.Bool(nm + '_hash'))
    ref = '#' if hsh else SObj(z3.Const(nm + '_ref', U), JSONPointer, True)
    o, exc = run_contract(lambda: itp.construct(RelativeJSONPointer, [], dict(up=SInt(up), over=SInt(over), ref=ref)))
    no_exception('construction from components', exc)
    return o, up, over, hsh, ref

def contract5(name, *f, **kw):
    def deco(g):
        def scen():
            itp = Interp(); rel_setup(itp)
            g(itp)
        return contract('P05', name, *f, **kw)(scen)
    return deco

@contract5('parse and print', 'RelativeJSONPointer.__new__', 'RelativeJSONPointer.__str__')
def rel_parse(itp):
    s = SStr(z3.Const('text', U)); assume(kind(s.t) == core.STR)
    r, exc = run_contract(lambda: itp.construct(RelativeJSONPointer, [s], {}))
    if exc is not None:
        prove('rejected with the malformed error exactly outside the grammar', And(Not(inlang['relative'](s.t)), exc_is(exc, RelativeJSONPointerMalformedError)))
        return
    prove('accepted only within the grammar', inlang['relative'](s.t))
    if not core.entails(inlang['relative'](s.t)): return
    t = s.t
    n = fn('str2int', U, I)
    up, over, path, index = rel_fields(itp, r)
    prove('levels', zint(up) == n(g_up(t)))
    prove('index adjustment', zint(over) == z3.If(g_over(t) == strlit(''), z3.IntVal(0), n(g_over(t))))
    hsh = g_ref(t) == strlit('#')
    prove('asks for the key exactly for "#"', tb(itp.truth(index)) == hsh)
    prove('pointer part', And(Implies(Not(hsh), itp.to_u(path) == ptr_of(g_ref(t))), Implies(hsh, itp.to_u(path) == U_NONE)))
    txt, exc = run_contract(lambda: itp.call(RelativeJSONPointer.__str__, [r]))
    no_exception('str', exc)
    got = itp.str_parts(txt)
    prove_text('prints as it was written', got, t, up, over, hsh)

def prove_text(name, got, t, up, over, hsh):
    """the parts printed are exactly the three parts of the text t"""
    want = [g_up(t)]
    istr, plus = fn('istr', I, U), fn('cat:+\x00\x01', U, U)
    fl = []
    for q in got:
        if isinstance(q, str): fl += list(q)
        else: fl.append(q)
    ov = []
    # up | [sign] digits | '#' or pointer
    parts = list(fl)
    if not parts or isinstance(parts[0], str): prove(name, False, str(got)); return
    prove(name + ': levels', parts.pop(0) == g_up(t))
    tail = parts.pop() if parts else None
    if isinstance(tail, str): prove(name + ': "#"', And(hsh, tail == '#'))
    elif tail is not None and (len(parts) > 0 or True):
        if z3.is_expr(tail): prove(name + ': pointer', Or(tail == g_ref(t), And(g_ref(t) == strlit(''), tail == g_over(t)) if False else tail == g_ref(t)))
    else: prove(name + ': nothing follows the levels', And(g_ref(t) == strlit(''), g_over(t) == strlit('')))
    if len(parts) == 0: prove(name + ': no adjustment', g_over(t) == strlit(''))
    elif len(parts) == 1 and not isinstance(parts[0], str): prove(name + ': adjustment', parts[0] == g_over(t))
    elif len(parts) == 2 and parts[0] == '+': prove(name + ': positive adjustment', plus(parts[1]) == g_over(t))
    else: prove(name, False, str(got))

@contract5('components', 'RelativeJSONPointer.__new__', 'RelativeJSONPointer.__str__')
def rel_components(itp):
    o, up, over, hsh, ref = sym_rel(itp, 'a')
    u, v, path, index = rel_fields(itp, o)
    prove('levels and adjustment are kept', And(zint(u) == up, zint(v) == over))
    prove('key or pointer', And(tb(itp.truth(index)) == hsh, itp.to_u(path) == (U_NONE if hsh else ref.t)))
    txt, exc = run_contract(lambda: itp.call(RelativeJSONPointer.__str__, [o]))
    no_exception('str', exc)
    istr = fn('istr', I, U)
    got = itp.str_parts(txt)
    want = [istr(up)] + ([] if core.entails(over == 0) else [istr(over)] if core.entails(over < 0) else ['+', istr(over)]) + (['#'] if hsh else [ptr_text(ref.t)])
    fl = [c for q in got for c in (q if isinstance(q, str) else [q])]
    prove('prints the components', len(fl) == len(want) and all(isinstance(a, str) == isinstance(b, str) for a, b in zip(fl, want)) and
          And(*[(a == b) for a, b in zip(fl, want)]), f'{got} vs {want}')

@contract5('equality and hash', 'RelativeJSONPointer.__eq__', 'RelativeJSONPointer.__hash__')
def rel_eq(itp):
    a, b = sym_rel(itp, 'a'), sym_rel(itp, 'b')
    r, exc = run_contract(lambda: itp.compare(ast.Eq(), a[0], b[0]))
    no_exception('==', exc)
    samet = And(a[1] == b[1], a[2] == b[2], a[3] == b[3], True if a[3] or b[3] else a[4].t == b[4].t)
    c = tb(itp.truth(r) if isinstance(r, V) or not z3.is_expr(r) else r)
    prove('equal exactly when all components are', c == samet)
    h1, h2 = itp.call(RelativeJSONPointer.__hash__, [a[0]]), itp.call(RelativeJSONPointer.__hash__, [b[0]])
    prove('equal pointers hash equally', Implies(samet, zint(h1) == zint(h2)))

@contract5('parsed equals built from components', 'RelativeJSONPointer.__new__', 'RelativeJSONPointer.__eq__', 'RelativeJSONPointer.__hash__')
def rel_parsed(itp):
    s = SStr(z3.Const('text', U)); assume(kind(s.t) == core.STR, inlang['relative'](s.t))
    r, exc = run_contract(lambda: itp.construct(RelativeJSONPointer, [s], {}))
    no_exception('parsing', exc)
    t = s.t; n = fn('str2int', U, I)
    hsh = branch(g_ref(t) == strlit('#'))
    b, exc = run_contract(lambda: itp.construct(RelativeJSONPointer, [], dict(up=SInt(n(g_up(t))), over=SInt(z3.If(g_over(t) == strlit(''), z3.IntVal(0), n(g_over(t)))), ref='#' if hsh else SObj(ptr_of(g_ref(t)), JSONPointer, True))))
    no_exception('construction', exc)
    e = itp.compare(ast.Eq(), r, b)
    prove('equal', tb(itp.truth(e) if isinstance(e, V) or not z3.is_expr(e) else e))
    prove('equal hashes', zint(itp.call(RelativeJSONPointer.__hash__, [r])) == zint(itp.call(RelativeJSONPointer.__hash__, [b])))

@contract5('evaluate', 'RelativeJSONPointer.evaluate')
def rel_evaluate(itp):
    o, up, over, hsh, ref = sym_rel(itp, 'r')
    doc = SObj(z3.Const('node', U), JSON)
    i = freshvar('i'); x = freshvar('x', U)
    depth = z3.Int('depth')
    # the chain of parents of a node of a document: `depth` levels up to the root
    assume(depth >= 0, anc(doc.t, z3.IntVal(0)) == doc.t,
           ForAll([i], Implies(And(i >= 0, i <= depth), jhasparent(anc(doc.t, i)) == (i < depth)), patterns=[anc(doc.t, i)]),
           ForAll([i], Implies(And(i >= 0, i < depth), anc(doc.t, i + 1) == jparent(anc(doc.t, i))), patterns=[anc(doc.t, i)]))
    # node invariant (P06): an item of an array knows its index
    pos = fn('jpos', U, I)
    assume(ForAll([x], Implies(And(jhasparent(x), jtype(jparent(x)) == strlit('array')),
           And(inlang['index'](jkeyof(x)), Not(too_long(jkeyof(x))), fn('str2int', U, I)(jkeyof(x)) == pos(x), pos(x) >= 0, pos(x) < jlen(jparent(x)))), patterns=[jkeyof(x)]),
           ForAll([x, i], Implies(And(jtype(x) == strlit('array'), i >= 0, i < jlen(x)), And(jhasparent(jchild(x, i)), jparent(jchild(x, i)) == x, pos(jchild(x, i)) == i)), patterns=[jchild(x, i)]),
           ForAll([x], kind(jkeyof(x)) == core.STR, patterns=[jkeyof(x)]))
    core.CUR.opts['loop_inv'] = [lambda itp, init, v: (lambda j: SObj(anc(doc.t, j), JSON)) if isinstance(init, SObj) and init.t.eq(doc.t) else None]
    rok, rv = fn('ptr_doc_ok', U, U, B), fn('ptr_doc', U, U, U)
    def ev(itp, a, kw):
        p, d = a
        if not isinstance(p, SObj): return NOT
        if branch(rok(p.t, d.t)): return SObj(rv(p.t, d.t), JSON)
        itp.throw(JSONPointerReferenceError, 'x')
    itp.local_contracts[JSONPointer.evaluate] = ev
    r, exc = run_contract(lambda: itp.call(RelativeJSONPointer.evaluate, [o, doc]))
    n = anc(doc.t, up)
    par = jparent(n)
    arr = jtype(par) == strlit('array')
    adj = pos(n) + over
    over_ok = Or(over == 0, And(jhasparent(n), arr, adj >= 0, adj < jlen(par)))
    tgt = z3.If(over == 0, n, jchild(par, adj))
    if hsh: fin = jhasparent(tgt)
    else: fin = rok(ref.t, tgt)
    ok = And(up <= depth, over_ok, fin)
    if exc is not None:
        prove('the relative-pointer reference error and no other', exc_is(exc, RelativeJSONPointerReferenceError), repr(exc))
        prove('raised only when the location does not exist', Not(ok))
        return
    prove('succeeds only when the location exists', ok)
    if hsh:
        if isinstance(r, (SInt, int)):
            prove('"#" gives the index of an array item', And(jtype(jparent(tgt)) == strlit('array'), zint(r) == pos(tgt)))
        else:
            prove('"#" gives the name of an object member', And(jtype(jparent(tgt)) != strlit('array'), itp.to_u(r) == jkeyof(tgt)))
    else:
        prove('the value at the pointer', isinstance(r, SObj) and r.t == rv(ref.t, tgt))
