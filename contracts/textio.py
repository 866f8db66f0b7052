"""P10: JSON texts.  The standard json module, files and HTTP responses are
external: their contracts are stated here and every call the code makes to
them is checked against those contracts."""
from .textspec import *
from .env import contract
import json, builtins
import jschon.utils as U_
from .jsonnode import py_isinstance, wrapval
from pyvc.interp import func_ast

CONTRACTS.pop(JSON.__str__, None); CONTRACTS.pop(JSON.dumps, None); CONTRACTS.pop(('str', JSON), None)
jvalue = fn('jvalue', U, U)
nonfinite = fn('holds_nonfinite', U, B)       # a value holds NaN or an infinity somewhere
jtext = fn('json_text_of', U, U)              # the JSON text of a value
parsed = fn('parsed', U, U)                   # the value a JSON text denotes
hasconst = fn('text_has_constant', U, B)      # NaN, Infinity or -Infinity occur in a text
illformed = fn('text_illformed', U, B)
contents = fn('contents_of', U, U)            # what a file or response holds

def term_of(itp, v):
    """the value serialized when `v` is passed to json.dumps with a default that unwraps nodes"""
    if isinstance(v, SObj): return jvalue(v.t)
    if isinstance(v, (JList, JDict)): return jvalue(v.r)
    return itp.to_u(v)

def a_data_(itp, o):
    d = a_data(itp, o)
    if not isinstance(d, (JList, JDict)): assume(jvalue(o.t) == itp.to_u(d))
    return d

def check_default(itp, f, obj):
    """`default` unwraps any node by one level or more"""
    if not isinstance(obj, (SObj, JList, JDict)): return
    if f is None:
        prove('nested nodes are serializable', False); return
    n = SObj(z3.Const('nested', U), JSON)
    r, exc = run_contract(lambda: itp.call(f, [n]))
    no_exception('default serializer', exc)
    prove('a nested node is serialized as its own value', not isinstance(r, SObj) and term_of(itp, r) == jvalue(n.t))

def serialize(itp, obj, kw):
    kw = dict(kw)
    strict = kw.pop('allow_nan', True)
    asc = kw.pop('ensure_ascii', True)
    dflt = kw.pop('default', None)
    for k in ('indent', 'separators', 'sort_keys', 'check_circular'):
        v = kw.pop(k, None)
        if k == 'separators' and v is not None:
            vs = [p.v for p in itp.iterate(v).parts] if isinstance(v, (tuple, list, Cont)) else []
            if not (len(vs) == 2 and all(isinstance(x, str) for x in vs) and vs[0].strip(' \t\r\n') == ',' and vs[1].strip(' \t\r\n') == ':'): raise Unsupported('separators')
        if k == 'indent' and isinstance(v, str) and v.strip(' \t\r\n'): raise Unsupported('indent')
    if kw: raise Unsupported(f'json.dumps({", ".join(kw)})')
    if not isinstance(strict, bool) or not isinstance(asc, bool): raise Unsupported('json.dumps flags')
    t = term_of(itp, obj)
    check_default(itp, dflt, obj)
    if strict is False and branch(nonfinite(t)): itp.throw(ValueError, 'not JSON compliant')
    core.CUR.opts['ascii'] = asc
    return Opaque(jtext(t), 'text')

def dumps_(itp, a, kw):
    kw = dict(kw); obj = a[0] if a else kw.pop('obj')
    return serialize(itp, obj, kw)
def dump_(itp, a, kw):
    kw = dict(kw); a = list(a)
    obj = a.pop(0) if a else kw.pop('obj')
    f = a.pop(0) if a else kw.pop('fp')
    t = serialize(itp, obj, kw)
    log_app(itp, 'written', (f, t))

def deserialize(itp, text, kw):
    kw = {k: v for k, v in kw.items() if v is not None}
    pc = kw.pop('parse_constant', None)
    if kw: raise Unsupported(f'json.loads({", ".join(kw)})')
    t = itp.to_u(text)
    if branch(illformed(t)): itp.throw(ValueError, 'not JSON')
    if branch(hasconst(t)):
        if pc is not None:
            c = SStr(z3.Const('constant', U)); assume(Or(*[c.t == strlit(x) for x in ('NaN', 'Infinity', '-Infinity')]))
            itp.call(pc, [c])
    return Opaque(parsed(t), 'pyvalue')
def loads_(itp, a, kw):
    kw = dict(kw); s = a[0] if a else kw.pop('s')
    return deserialize(itp, s, kw)
def load_(itp, a, kw):
    kw = dict(kw); f = a[0] if a else kw.pop('fp')
    return deserialize(itp, read_(itp, f), kw)

def read_(itp, f):
    if not isinstance(f, Opaque) or f.what != 'file': raise Unsupported('read of an unknown file')
    m = core.CUR.opts['files'][f.t.get_id()]
    prove('the file is opened for reading', m[1].replace('t', '').replace('b', '') == 'r')
    return Opaque(contents(itp.to_u(m[0])), 'text')

def open_(itp, a, kw):
    kw = dict(kw); a = list(a)
    names = ('file', 'mode', 'buffering', 'encoding', 'errors', 'newline')
    got = dict(zip(names, a)); got.update(kw)
    mode, enc = got.get('mode', 'r'), got.get('encoding')
    if not isinstance(mode, str) or not (enc is None or isinstance(enc, str)) or got.get('errors') not in (None, 'strict'): raise Unsupported('open()')
    t = fresh('file', U)
    core.CUR.opts.setdefault('files', {})[t.get_id()] = (got['file'], mode, (enc or 'utf-8').lower().replace('_', '-'))
    core.CUR.opts.setdefault('keep', []).append(t)
    return Opaque(t, 'file')
def with_file(itp, cm, inner):
    if isinstance(cm, Opaque) and cm.what == 'file': return inner(cm)
    raise Unsupported('with')

def iosetup(itp):
    core.CUR.opts['isinstance'] = py_isinstance
    core.CUR.opts['texts'] = True
    core.CUR.opts['narrow_facts'] = []
    for n in ('written', 'made', 'http'): init_log(n)
    for f, h in ((json.dumps, dumps_), (json.dump, dump_), (json.loads, loads_), (json.load, load_)): CONTRACTS[f] = h
    BUILTINS[open] = open_
    ATTRS[('with', 'opaque:file')] = with_file
    meth = lambda what, name: ATTRS.__setitem__(('opaque', what, name), lambda itp, o: BoundM(o, HostFn(lambda itp, a, kw: METHODS[(f'opaque:{what}', name)](itp, a[0], a[1:], kw), name), name))
    METHODS[('opaque:file', 'read')] = lambda itp, o, a, kw: read_(itp, o)
    METHODS[('opaque:file', 'write')] = lambda itp, o, a, kw: log_app(itp, 'written', (o, a[0]))
    METHODS[('opaque:file', 'close')] = lambda itp, o, a, kw: None
    METHODS[('opaque:file', 'flush')] = lambda itp, o, a, kw: None
    for m in ('read', 'write', 'close', 'flush'): meth('file', m)
    def get(itp, o, a, kw):
        log_app(itp, 'http', ('get', a[0]))
        return Opaque(fn('response', U, U)(itp.to_u(a[0])), 'response')
    METHODS[('opaque:requests', 'get')] = get
    METHODS[('opaque:response', 'raise_for_status')] = lambda itp, o, a, kw: status(itp, o)
    METHODS[('opaque:response', 'json')] = lambda itp, o, a, kw: (log_app(itp, 'http', ('json', o)), deserialize(itp, Opaque(contents(o.t), 'text'), kw))[1]
    meth('requests', 'get'); meth('response', 'raise_for_status'); meth('response', 'json')
    ATTRS[('opaque', 'response', 'text')] = lambda itp, o: Opaque(contents(o.t), 'text')
    core.CUR.store[('G', id(vars(U_)), 'requests')] = Opaque(z3.Const('requests', U), 'requests') if branch(z3.Bool('requests_loaded')) else None
    def imp(itp, a, kw): core.CUR.store[('G', id(vars(U_)), 'requests')] = Opaque(z3.Const('requests', U), 'requests')
    if hasattr(U_, '_import_requests'): itp.local_contracts[U_._import_requests] = imp
    ATTRS[(JSON, 'data')] = a_data_
    ATTRS[(JSON, 'value')] = lambda itp, o: Opaque(jvalue(o.t), 'pyvalue')

def status(itp, o):
    log_app(itp, 'http', ('status', o))
    if branch(fn('http_error', U, B)(o.t)): itp.throw(OSError, 'HTTP error')

def node(n):
    t = z3.Const(n, U); typ(t); return SObj(t, JSON)

def text_out(label, call, fnname):
    @contract('P10', label, fnname, 'json_dumps', '_serialize_custom_obj')
    def scen():
        itp = Interp(); iosetup(itp)
        n = node('node')
        r, exc = run_contract(lambda: call(itp, n))
        nf = nonfinite(jvalue(n.t))
        if exc is not None:
            prove('fails only with ValueError, and only on NaN or an infinity', And(nf, issubclass(exc_class(exc), ValueError)), repr(exc)); return
        prove('NaN and infinities are rejected', Not(nf))
        prove('the text is the JSON text of the value', itp.to_u(r) == jtext(jvalue(n.t)), repr(r))
        prove('nothing is written', not get_log('written').parts)
    return scen
text_out('dumps', lambda itp, n: itp.call(JSON.dumps, [n]), 'JSON.dumps')
text_out('str()', lambda itp, n: itp.call(JSON.__str__, [n]), 'JSON.__str__')

@contract('P10', 'dumpf', 'JSON.dumpf', 'json_dumpf', '_serialize_custom_obj')
def dumpf():
    itp = Interp(); iosetup(itp)
    n = node('node'); path = Opaque(z3.Const('path', U), 'pathname')
    r, exc = run_contract(lambda: itp.call(JSON.dumpf, [n, path]))
    nf = nonfinite(jvalue(n.t))
    if exc is not None:
        prove('fails only with ValueError, and only on NaN or an infinity', And(nf, issubclass(exc_class(exc), ValueError)), repr(exc)); return
    prove('NaN and infinities are rejected', Not(nf))
    w = get_log('written').parts
    prove('one text is written', len(w) == 1 and isinstance(w[0], Lit))
    if len(w) != 1: return
    f, t = w[0].v
    prove('the text is the JSON text of the value', itp.to_u(t) == jtext(jvalue(n.t)))
    ok = isinstance(f, Opaque) and f.t.get_id() in core.CUR.opts.get('files', {})
    prove('it is written to a file', ok)
    if not ok: return
    p, mode, enc = core.CUR.opts['files'][f.t.get_id()]
    prove('the file is the one asked for', p is path)
    prove('its former contents are replaced', mode.replace('t', '') in ('w', 'x', 'w+') and mode[0] == 'w', mode)
    prove('any text can be encoded', core.CUR.opts['ascii'] or enc in ('utf-8', 'utf8', 'utf-16', 'utf-32'), enc)
    # reading it back uses the same encoding
    core.CUR.opts['files'] = {}
    r2, exc2 = run_contract(lambda: itp.call(U_.json_loadf, [path]))
    for q, m2, enc2 in core.CUR.opts['files'].values():
        prove('written and read with the same encoding', enc2 == enc or ('b' in m2 and enc in ('utf-8', 'utf8')) or (core.CUR.opts['ascii'] and enc in ('utf-8', 'utf8', 'ascii', 'latin-1') and enc2 in ('utf-8', 'utf8', 'ascii', 'latin-1')), f'{enc} {enc2}')

def text_in(label, what, src):
    @contract('P10', label, f'JSON.{what}', f'json_{what}', '_parse_invalid_const')
    def scen():
        itp = Interp(); iosetup(itp)
        a = Opaque(z3.Const('source', U), 'text' if what == 'loads' else 'pathname')
        cls = ClassV(z3.Const('class', U), JSON)
        kwargs = {'tag': Opaque(z3.Const('kwarg', U), 'kwarg'), 'itemclass': Opaque(z3.Const('kwitem', U), 'kwarg')}
        made = []
        def build(itp, args, kw, f=None):
            made.append((f, list(args), dict(kw)))
            return SObj(z3.Const('built', U), JSON)
        CLASSCALL[JSON] = build
        f = JSON.__dict__[what].__func__
        r, exc = run_contract(lambda: itp.call(f, [cls, a], kwargs))
        text = src(itp, a)
        bad = Or(hasconst(text), illformed(text))
        if exc is not None:
            httperr = fn('http_error', U, B)(fn('response', U, U)(a.t))
            prove('fails only on a text that is not JSON', Or(And(bad, issubclass(exc_class(exc), ValueError)), And(httperr, what == 'loadr')), repr(exc)); return
        prove('NaN and infinities are rejected', Not(bad))
        prove('the node is built by the class asked for', len(made) == 1 and isinstance(made[0][0], ClassV) and made[0][0].t.eq(cls.t) and isinstance(r, SObj) and r.t.eq(z3.Const('built', U)))
        if len(made) != 1: return
        vs = made[0][1]
        prove('from the value the text denotes', And(len(vs) == 1, itp.to_u(vs[0]) == parsed(text)) if vs else False)
        prove('with the keyword arguments given', set(made[0][2]) == set(kwargs) and all(made[0][2][k] is v for k, v in kwargs.items()))
    return scen
text_in('loads', 'loads', lambda itp, a: a.t)
text_in('loadf', 'loadf', lambda itp, a: contents(a.t))
text_in('loadr', 'loadr', lambda itp, a: contents(fn('response', U, U)(a.t)))
