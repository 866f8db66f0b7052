"""P13: patch operations and patches as objects.  Observations are made through
the public interface of objects built by the real constructors."""
from .textspec import *
from .seqspec import *
from .env import contract
from .ptrspec import exc_is
from jschon.exc import *
import collections.abc as cabc
import jschon.jsonpatch as JP
from jschon.jsonpatch import JSONPatch, JSONPatchOperation, PatchOp
from pyvc.interp import _Star

NAMES = ('add', 'remove', 'replace', 'move', 'copy', 'test')
VALUED = ('add', 'replace', 'test'); SOURCED = ('move', 'copy')
p_parse = fn('ptr_parse', U, U); p_text = fn('ptr_text', U, U); p_ok = fn('ptr_text_ok', U, B)
jsonof = fn('json_of', U, U)
isop = fn('is_operation', U, B); opfrom = fn('operation_from', U, U); opeq = fn('operations_equal', U, U, B); asd = fn('operation_dict', U, U)

def osetup(itp):
    core.CUR.opts['texts'] = True
    core.CUR.opts['narrow_facts'] = []
    for a in JEQ_AXIOMS(): assume(a)
    p = z3.Const('q_p', U)
    assume(ForAll([p], And(p_parse(p_text(p)) == p, p_ok(p_text(p)), kind(p_text(p)) == core.STR), patterns=[p_text(p)]))    # P01
    def newptr(itp, a, kw):
        if kw or len(a) != 1: raise Unsupported('JSONPointer()')
        if isinstance(a[0], SObj): return a[0]
        t = itp.to_u(a[0])
        if not branch(p_ok(t)): itp.throw(JSONPointerMalformedError, 'malformed')
        return SObj(p_parse(t), JSONPointer, True)
    CLASSCALL[JSONPointer] = newptr
    CONTRACTS[('str', JSONPointer)] = lambda itp, o: SStr(p_text(o.t)) if isinstance(o, SObj) else NOT
    itp.local_contracts[JSONPointer.__str__] = lambda itp, a, kw: SStr(p_text(a[0].t)) if isinstance(a[0], SObj) else NOT
    def newop(itp, a, kw):
        if kw or len(a) != 1: raise Unsupported('PatchOp()')
        v = a[0]
        if isinstance(v, PatchOp): return v
        if isinstance(v, (str, SStr)):
            for n in NAMES:
                if branch(itp.to_u(v) == strlit(n)): return PatchOp(n)
        itp.throw(ValueError, 'not a valid PatchOp')
    CLASSCALL[PatchOp] = newop
    def newjson(itp, a, kw):
        if kw or len(a) != 1: raise Unsupported('JSON()')
        return SObj(jsonof(itp.to_u(a[0])), JSON)
    CLASSCALL[JSON] = newjson

def value(n='value'): return Opaque(z3.Const(n, U), 'pyvalue')
def sstr_(n):
    s = SStr(z3.Const(n, U)); assume(kind(s.t) == core.STR); return s
def pick_op():
    for n in NAMES[:-1]:
        if branch(z3.Bool('op_is_' + n)): return n
    return NAMES[-1]

def same_op(itp, what, o, op, path, val, frm):
    g = lambda n: itp.getattr(o, n)
    prove(f'{what}: op', isinstance(g('op'), PatchOp) and g('op').value == op, repr(g('op')))
    p = g('path')
    prove(f'{what}: path', isinstance(p, SObj) and issubclass(p.cls, JSONPointer) and p.t == path)
    prove(f'{what}: value', itp.to_u(g('value')) == itp.to_u(val), repr(g('value')))
    f = g('from_')
    if frm is None: prove(f'{what}: no from location', f is None, repr(f))
    else: prove(f'{what}: from location', isinstance(f, SObj) and issubclass(f.cls, JSONPointer) and f.t == frm, repr(f))

def build(itp, op, how):
    """an operation with exactly the members its kind has, from text or pointers"""
    ptext, given = z3.Const('path_text', U), SObj(z3.Const('path_pointer', U), JSONPointer, True)
    ftext, fgiven = z3.Const('from_text', U), SObj(z3.Const('from_pointer', U), JSONPointer, True)
    assume(kind(ptext) == core.STR, kind(ftext) == core.STR)
    kw = {'op': PatchOp(op) if how[0] else op}
    kw['path'], path = (given, given.t) if how[1] else (SStr(ptext), p_parse(ptext))
    val = frm = None
    if op in VALUED: kw['value'] = val = value()
    if op in SOURCED:
        v, frm = (fgiven, fgiven.t) if how[1] else (SStr(ftext), p_parse(ftext))
        kw['from_' if how[2] else 'from'] = v
    return kw, path, val, frm, Or(And(not how[1], Not(p_ok(ptext))), And(not how[1], op in SOURCED, Not(p_ok(ftext))))

for _o in (0, 1):
  for _p in (0, 1):
    for _f in (0, 1):
        def mk(how):
            @contract('P13', f'operation from {"a PatchOp" if how[0] else "a name"}, {"pointers" if how[1] else "pointer texts"}, {"from_" if how[2] else "from"}', 'JSONPatchOperation.__new__', 'JSONPatchOperation.asdict', 'JSONPatchOperation.__eq__')
            def scen():
                itp = Interp(); osetup(itp)
                op = pick_op()
                kw, path, val, frm, bad = build(itp, op, how)
                o, exc = run_contract(lambda: itp.construct(JSONPatchOperation, [], kw))
                if exc is not None:
                    prove('fails only on a malformed pointer', And(bad, exc_is(exc, JSONPointerMalformedError)), repr(exc)); return
                same_op(itp, 'constructed', o, op, path, val, frm)
                # the dictionary form
                d, exc = run_contract(lambda: itp.call(JSONPatchOperation.asdict, [o]))
                no_exception('asdict', exc)
                ok = isinstance(d, Cont) and d.kind == 'dict' and all(isinstance(p, Lit) for p in itp.content(d).parts)
                prove('a dictionary', ok)
                if not ok: return
                m = {k: v for k, v in (p.v for p in itp.content(d).parts)}
                want = {'op': strlit(op), 'path': p_text(path)}
                if op in VALUED: want['value'] = itp.to_u(val)
                if op in SOURCED: want['from'] = p_text(frm)
                prove('exactly the members of RFC 6902', set(m) == set(want), f'{set(m)}')
                for k in want:
                    if k in m: prove(f'member {k}', (strlit(m[k].value if isinstance(m[k], PatchOp) else m[k]) if isinstance(m[k], str) else itp.to_u(m[k])) == want[k], repr(m[k]))
                # and back
                o2, exc = run_contract(lambda: itp.construct(JSONPatchOperation, [], dict(m)))
                no_exception('rebuilding from the dictionary', exc)
                same_op(itp, 'rebuilt', o2, op, path, val, frm)
                r, exc = run_contract(lambda: itp.eq(o, o2))
                no_exception('==', exc)
                prove('the rebuilt operation is equal', tb(r))
            return scen
        mk((_o, _p, _f))

@contract('P13', 'unknown operation names', 'JSONPatchOperation.__new__')
def unknown():
    itp = Interp(); osetup(itp)
    op = sstr_('op')
    assume(*[op.t != strlit(n) for n in NAMES])
    kw = dict(op=op, path=SObj(z3.Const('path', U), JSONPointer, True))
    if branch(z3.Bool('has_value')): kw['value'] = value()
    if branch(z3.Bool('has_from')): kw['from'] = SObj(z3.Const('from', U), JSONPointer, True)
    o, exc = run_contract(lambda: itp.construct(JSONPatchOperation, [], kw))
    prove('rejected with ValueError', exc is not None and exc_is(exc, ValueError), repr(exc))

for _ops in (False, True):
    def mk2(mapping):
        @contract('P13', f'operation == {"dictionary" if mapping else "operation"}', 'JSONPatchOperation.__eq__')
        def opeq_():
            itp = Interp(); osetup(itp)
            a, b = pick_op(), None
            for n in NAMES[:-1]:
                if branch(z3.Bool('other_is_' + n)): b = n; break
            b = b or NAMES[-1]
            P = lambda n: SObj(z3.Const(n, U), JSONPointer, True)
            def mk(n, op):
                kw = dict(op=op, path=P(n + '_path'))
                if branch(z3.Bool(n + '_has_value')): kw['value'] = value(n + '_value')
                if branch(z3.Bool(n + '_has_from')): kw['from_'] = P(n + '_from')
                return kw
            ka, kb = mk('a', a), mk('b', b)
            x = itp.construct(JSONPatchOperation, [], ka)
            y = itp.construct(JSONPatchOperation, [], kb) if not mapping else itp.new_cont('dict', lits([(('from' if k == 'from_' else k), SStr(p_text(v.t)) if isinstance(v, SObj) else v) for k, v in kb.items()]))
            jv = lambda k: jsonof(itp.to_u(k.get('value')))
            fa, fb = ka.get('from_'), kb.get('from_')
            want = And(a == b, ka['path'].t == kb['path'].t, (fa is None) == (fb is None), fa.t == fb.t if fa and fb else True, jeq(jv(ka), jv(kb)))
            for op in (ast.Eq, ast.NotEq) if mapping is False and a == b == 'add' else (ast.Eq,):
                r, exc = run_contract(lambda: itp.compare(op(), x, y))
                no_exception('comparison', exc)
                prove('equal exactly when op, path, from and JSON value are' if op is ast.Eq else '!= is the negation', bool_of(r) == (want if op is ast.Eq else Not(want)))
    mk2(_ops)
import ast

# ------------------------------------------------------------------ patches
def opd(t): return Opaque(t, 'operand')
def op_isinstance(itp, v, c):
    if isinstance(v, Opaque) and v.what == 'operand':
        if c is JSONPatchOperation: return mkbool(isop(v.t))
        if c in (cabc.Mapping, dict):
            return mkbool(And(Not(isop(v.t)), True if c is cabc.Mapping else fn('exactly_dict', U, B)(v.t)))
        if c in (str, bool, int, list, tuple, type(None)): return False
        raise Unsupported(f'isinstance of an operand with {c}')
    return NOT

def psetup(itp):
    osetup(itp)
    core.CUR.opts['isinstance'] = op_isinstance
    def newoperation(itp, a, kw):
        """JSONPatchOperation(**mapping): by the contract above"""
        if a or set(kw) != {'**'} or not isinstance(kw['**'], Opaque): return NOT
        x = kw['**']
        prove('only dictionaries are converted', Not(isop(x.t)))
        if branch(fn('bad_operation', U, B)(x.t)): itp.throw(ValueError, 'no operation')
        assume(isop(opfrom(x.t)))
        return opd(opfrom(x.t))
    CLASSCALL[JSONPatchOperation] = newoperation
    # collections.abc: a sequence is iterated by its (verified) item access
    itp.local_contracts[cabc.Sequence.__iter__] = lambda itp, a, kw: itp.iterate(itp.getattr(a[0], '_operations')) if isinstance(a[0], Inst) and a[0].cls is JSONPatch else NOT
    ATTRS[('opaque', 'operand', 'asdict')] = lambda itp, o: BoundM(o, HostFn(lambda itp, a, kw: Opaque(asd(a[0].t), 'dict'), 'asdict'), 'asdict')

def as_operation(x): return z3.If(isop(x), x, opfrom(x))

def patch(itp, name='operation', n=None):
    """a patch holding n arbitrary operations"""
    f = fn(name, I, U); n = z3.Int(f'{name}_count') if n is None else n
    i = freshvar('i')
    assume(n >= 0, ForAll([i], isop(f(i)), patterns=[f(i)]))
    P, exc = run_contract(lambda: itp.construct(JSONPatch, [_Star(mk_map(n, lambda v: opd(f(v))))], {}))
    no_exception('JSONPatch()', exc)
    return P, f, n

def observe(itp, what, P, n, at):
    """length, and item by index, are those of the list (n, at)"""
    r, exc = run_contract(lambda: itp.call(JSONPatch.__len__, [P]))
    no_exception(f'{what}: len()', exc)
    prove(f'{what}: length', zint(r) == n)
    i = z3.Int('index')
    x, exc = run_contract(lambda: itp.getitem(P, SInt(i)))
    if exc is not None:
        prove(f'{what}: indexing fails only out of range', And(exc_is(exc, IndexError), Or(i >= n, i < -n)), repr(exc)); return
    prove(f'{what}: indexing fails out of range', And(i < n, i >= -n))
    prove(f'{what}: item', itp.to_u(x) == at(z3.If(i < 0, i + n, i)), repr(x))

@contract('P13', 'a patch from operations and dictionaries', 'JSONPatch.__init__', 'JSONPatch.__len__', 'JSONPatch.__getitem__', 'JSONPatch.aslist')
def patch_init():
    itp = Interp(); psetup(itp)
    f = fn('given', I, U); n = z3.Int('count'); assume(n >= 0)
    P, exc = run_contract(lambda: itp.construct(JSONPatch, [_Star(mk_map(n, lambda v: opd(f(v))))], {}))
    if exc is not None:
        prove('fails only on a dictionary that is no operation', exc_is(exc, ValueError)); return
    observe(itp, 'patch', P, n, lambda i: as_operation(f(i)))

@contract('P13', 'list of dictionaries', 'JSONPatch.aslist')
def aslist():
    itp = Interp(); psetup(itp)
    P, f, n = patch(itp)
    l, exc = run_contract(lambda: itp.call(JSONPatch.aslist, [P]))
    no_exception('aslist', exc)
    prove('a list', isinstance(l, Cont) and l.kind == 'list')
    prove_seq(itp, 'the dictionaries of the operations in order', itp.content(l), mk_map(n, lambda v: Opaque(asd(f(v)), 'dict')))
    observe(itp, 'patch', P, n, f)

@contract('P13', 'slicing', 'JSONPatch.__getitem__')
def slicing():
    itp = Interp(); psetup(itp)
    # the list of operations as Python list, sliced by the language
    f = fn('operation', I, U); sl = z3.Const('slice', U)
    P, f, n = patch(itp)
    a, b = z3.Int('start'), z3.Int('stop')
    opts = [None, SInt(a)][branch(z3.Bool('with_start'))], [None, SInt(b)][branch(z3.Bool('with_stop'))]
    k = View('slice', (*opts, None))
    Q, exc = run_contract(lambda: itp.getitem(P, k))
    no_exception('slice', exc)
    prove('a patch', isinstance(Q, Inst) and Q.cls is JSONPatch and not (Q.id == P.id))
    clip = lambda v, d: d if v is None else z3.If(zint(v) < 0, z3.If(zint(v) + n < 0, z3.IntVal(0), zint(v) + n), z3.If(zint(v) > n, n, zint(v)))
    lo, hi = clip(opts[0], z3.IntVal(0)), clip(opts[1], n)
    m = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    observe(itp, 'slice', Q, m, lambda i: f(lo + i))

@contract('P13', 'patch[index] = operation', 'JSONPatch.__setitem__')
def setitem():
    itp = Interp(); psetup(itp)
    P, f, n = patch(itp)
    k = z3.Int('at'); x = z3.Const('new', U)
    _, exc = run_contract(lambda: itp.setitem(P, SInt(k), opd(x)))
    if exc is not None:
        prove('fails only out of range or on a dictionary that is no operation', Or(And(exc_is(exc, IndexError), Or(k >= n, k < -n)), And(exc_is(exc, ValueError), Not(isop(x)))), repr(exc))
        observe(itp, 'unchanged', P, n, f); return
    prove('within range', And(k < n, k >= -n))
    j = z3.If(k < 0, k + n, k)
    observe(itp, 'assigned', P, n, lambda i: z3.If(i == j, as_operation(x), f(i)))

@contract('P13', 'del patch[index]', 'JSONPatch.__delitem__')
def delitem():
    itp = Interp(); psetup(itp)
    P, f, n = patch(itp)
    k = z3.Int('at')
    _, exc = run_contract(lambda: itp.delitem(P, SInt(k)))
    if exc is not None:
        prove('fails only out of range', And(exc_is(exc, IndexError), Or(k >= n, k < -n)), repr(exc))
        observe(itp, 'unchanged', P, n, f); return
    prove('within range', And(k < n, k >= -n))
    j = z3.If(k < 0, k + n, k)
    observe(itp, 'deleted', P, n - 1, lambda i: z3.If(i < j, f(i), f(i + 1)))

@contract('P13', 'insert', 'JSONPatch.insert')
def insert():
    itp = Interp(); psetup(itp)
    P, f, n = patch(itp)
    k = z3.Int('at'); x = z3.Const('new', U)
    _, exc = run_contract(lambda: itp.call(JSONPatch.insert, [P, SInt(k), opd(x)]))
    if exc is not None:
        prove('fails only on a dictionary that is no operation', And(exc_is(exc, ValueError), Not(isop(x))), repr(exc))
        observe(itp, 'unchanged', P, n, f); return
    j = z3.If(k < 0, z3.If(k + n < 0, z3.IntVal(0), k + n), z3.If(k > n, n, k))
    observe(itp, 'inserted', P, n + 1, lambda i: z3.If(i < j, f(i), z3.If(i == j, as_operation(x), f(i - 1))))

for _it in (False, True):
    def mk3(iterable):
        @contract('P13', f'patch == {"iterable of operations" if iterable else "patch"}', 'JSONPatch.__eq__')
        def patcheq():
            itp = Interp(); psetup(itp)
            itp.local_contracts[JSONPatchOperation.__eq__] = lambda itp, a, kw: NOT
            P, f, n = patch(itp)
            if iterable:
                g = fn('given', I, U); m = z3.Int('given_count'); assume(m >= 0)
                Q = View('seq', None, mk_map(m, lambda v: opd(g(v))))
                at = lambda i: as_operation(g(i))
            else: Q, at, m = patch(itp, 'other')
            i = freshvar('i')
            oe = fn('opq_eq', U, U, B)
            want = And(n == m, ForAll([i], Implies(rng(i, n), oe(f(i), at(i)))))
            r, exc = run_contract(lambda: itp.compare(ast.Eq(), P, Q))
            if exc is not None:
                prove('fails only on a dictionary that is no operation', iterable and exc_is(exc, ValueError), repr(exc)); return
            prove('equal exactly when all operations are', bool_of(r) == want)
        return patcheq
    mk3(_it)
