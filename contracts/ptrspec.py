"""JSON pointers as abstract key sequences, by the contracts proved in P01-P03:
construction, truth value, length, first keys, last key, prefix order; and
evaluation by the contract of P02, against JSON nodes or mutable plain values."""
from .textspec import *
from .env import contract
from jschon.exc import *
import collections.abc as cabc

pn = fn('keys_n', U, I); pat = fn('keys_at', U, I, U)
p_init = fn('ptr_init', U, U)
p_parse = fn('ptr_parse', U, U)
p_prefix = fn('ptr_proper_prefix', U, U, B)
n_ok = fn('node_resolves', U, U, B); n_val = fn('node_at_ptr', U, U, U)       # (pointer, node)

def last(t): return pat(t, pn(t) - 1)
def ptr(t):
    i = freshvar('k')
    assume(pn(t) >= 0)
    assume(Implies(pn(t) > 0, And(kind(last(t)) == core.STR, pn(p_init(t)) == pn(t) - 1)), Implies(pn(t) == 0, p_init(t) == t))
    return SObj(t, JSONPointer, True)

def exc_is(exc, cls):
    from pyvc.interp import exc_class
    return issubclass(exc_class(exc), cls)

def ptr_setup(itp, evaluate):
    texts(itp, 'index', 'pointer')
    def new(itp, a, kw, f=None):
        if kw or len(a) != 1: raise Unsupported('JSONPointer()')
        v = a[0]
        if isinstance(v, SObj) and issubclass(v.cls, JSONPointer): return v
        if isinstance(v, str): v = SStr(strlit(v))
        if not isinstance(v, SStr): raise Unsupported('JSONPointer() of other keys')
        if not branch(inlang['pointer'](v.t)): itp.throw(JSONPointerMalformedError, 'malformed')
        t = p_parse(v.t)
        assume((pn(t) == 0) == (v.t == strlit('')))
        return ptr(t)
    CLASSCALL[JSONPointer] = new
    assume(inlang['pointer'](strlit('')), pn(p_parse(strlit(''))) == 0)
    lc = itp.local_contracts
    lc[JSONPointer.__len__] = lambda itp, a, kw: mkint(pn(a[0].t)) if isinstance(a[0], SObj) else NOT
    def getitem(itp, a, kw):
        o, k = a
        if not isinstance(o, SObj): return NOT
        n = pn(o.t)
        if isinstance(k, (int, SInt)) and not isinstance(k, bool):
            if not branch(n > 0):
                assume(n == 0)
                itp.throw(IndexError, 'list index out of range')
            if core.entails(Or(zint(k) == -1, zint(k) == n - 1)): return SStr(last(o.t))
            raise Unsupported('index into a pointer')
        if isinstance(k, slice): a_, b_, c_ = k.start, k.stop, k.step
        elif isinstance(k, View) and k.kind == 'slice': a_, b_, c_ = k.obj
        else: raise Unsupported(f'subscript of a pointer {k!r}')
        if c_ in (None, 1) and (a_ is None or core.entails(zint(a_) == 0)) and b_ is not None and core.entails(Or(zint(b_) == -1, And(n > 0, zint(b_) == n - 1))):
            return ptr(p_init(o.t))
        raise Unsupported('slice of a pointer')
    lc[JSONPointer.__getitem__] = getitem
    lc[JSONPointer.__str__] = lambda itp, a, kw: SStr(fn('ptr_text', U, U)(a[0].t)) if isinstance(a[0], SObj) else NOT
    def cmp(f):
        def h(itp, a, kw):
            if isinstance(a[0], SObj) and isinstance(a[1], SObj): return mkbool(f(a[0].t, a[1].t))
            return NOT
        return h
    lc[JSONPointer.__lt__] = cmp(lambda x, y: p_prefix(x, y))
    lc[JSONPointer.__le__] = cmp(lambda x, y: Or(p_prefix(x, y), x == y))
    lc[JSONPointer.__gt__] = cmp(lambda x, y: p_prefix(y, x))
    lc[JSONPointer.__ge__] = cmp(lambda x, y: Or(p_prefix(y, x), x == y))
    lc[JSONPointer.evaluate] = lambda itp, a, kw: evaluate(itp, a[0], a[1]) if isinstance(a[0], SObj) else NOT

def index_number(k): return fn('str2int', U, I)(k)

# ---- evaluation against JSON nodes (P02, with P06's parents and keys)
def eval_node(itp, p, doc):
    if not isinstance(doc, SObj) or not issubclass(doc.cls, JSON): raise Unsupported(f'evaluation against {doc!r}')
    node_facts(itp, p.t, doc.t)
    if not branch(n_ok(p.t, doc.t)): itp.throw(JSONPointerReferenceError, 'not found')
    return SObj(n_val(p.t, doc.t), JSON)

def node_facts(itp, p, d):
    """the value at a pointer, from the value at all its keys but the last"""
    n = pn(p)
    pp = p_init(p); par = n_val(pp, d); k = last(p)
    obj, arr = jtype(par) == strlit('object'), jtype(par) == strlit('array')
    i = index_number(k)
    v = n_val(p, d)
    assume(Implies(n == 0, And(n_ok(p, d), v == d)))
    assume(Implies(n == 1, par == d))
    step = And(n_ok(pp, d), Or(And(obj, jhas(par, k)), And(arr, inlang['index'](k), i >= 0, i < jlen(par))))
    assume(Implies(n > 0, n_ok(p, d) == step))
    assume(Implies(And(n > 0, n_ok(p, d)), And(jhasparent(v), jparent(v) == par,
           Implies(obj, And(v == jchild(par, jidx(par, k)), jkeyof(v) == k)), Implies(arr, And(v == jchild(par, i), jkeyof(v) == fn('istr', I, U)(i), inlang['index'](jkeyof(v)), index_number(jkeyof(v)) == i)))))
    assume(jlen(par) >= 0, jlen(par) < MAXLEN)
    return par, obj, arr, k, i
