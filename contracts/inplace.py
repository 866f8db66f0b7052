"""P08: in-place add, remove and replace."""
from .jsonnode import *
from .ptrspec import *

def isetup(itp):
    jsetup(itp)
    core.CUR.opts['may_fail'] = True
    ptr_setup(itp, eval_node)
    core.CUR.opts['narrow_facts'] = []
    init_log('events')
    ATTRS[(JSON, 'type')] = lambda itp, o: SStr(typ(o.t))
    ATTRS[(JSON, 'path')] = lambda itp, o: SObj(jpath(o.t), JSONPointer, True)
    ATTRS[(JSON, 'parent')] = lambda itp, o: SObj(jparent(o.t), JSON) if core.entails(jhasparent(o.t)) else Opt(jhasparent(o.t), SObj(jparent(o.t), JSON))
    ATTRS[(JSON, 'key')] = lambda itp, o: SStr(jkeyof(o.t)) if core.entails(jhasparent(o.t)) else Opt(jhasparent(o.t), SStr(jkeyof(o.t)))
    def ev(kind_):
        def h(itp, a, kw):
            if not isinstance(a[0], SObj): return NOT
            if kw: raise Unsupported('keyword arguments')
            if kind_ != 'del':
                v = a[2]
                vt = jvalue(v.t) if isinstance(v, SObj) else itp.to_u(v)
                if branch(incompat(vt)): itp.throw(TypeError, 'not JSON-compatible')
            log_app(itp, 'events', (kind_, a[0], a[1], a[2] if kind_ != 'del' else None))
        return h
    for f, n in ((JSON.insert, 'insert'), (JSON.__setitem__, 'set'), (JSON.__delitem__, 'del')): itp.local_contracts[f] = ev(n)

def events():
    s = get_log('events')
    if any(not isinstance(p, Lit) for p in s.parts): raise Unsupported('mutation in a loop')
    return [p.v for p in s.parts]

def one_event(itp, what, kind_, target, key, value):
    es = events()
    prove(f'{what}: exactly one change, the right one', len(es) == 1 and es[0][0] == kind_, f'{es}')
    if len(es) != 1 or es[0][0] != kind_: return
    _, t, k, v = es[0]
    prove(f'{what}: in the right container', t.t == target, f'{t}')
    if isinstance(key, tuple): prove(f'{what}: at the right index', zint(k) == key[0] if isinstance(k, (int, SInt)) else False, f'{k}')
    else: prove(f'{what}: under the right name', itp.to_u(k) == key, f'{k}')
    if kind_ != 'del': prove(f'{what}: the given value', itp.to_u(v) == itp.to_u(value) if not isinstance(v, Opaque) or not isinstance(value, SObj) else itp.to_u(v) == jvalue(value.t), f'{v}')

def given(itp, src):
    t = z3.Const('given', U)
    return (SObj(t, JSON), jvalue(t)) if src == 'node' else (wrapval(t), t)

def path_arg(itp, form):
    if form == 'text':
        s = SStr(z3.Const('path_text', U)); assume(kind(s.t) == core.STR)
        return s, p_parse(s.t)
    t = z3.Const('path', U)
    return ptr(t), t

def ops(op, src, form):
    label = f'{op}({form}{", " + src if op != "remove" else ""})'
    @contract('P08', label, f'JSON.{op}')
    def scen():
        itp = Interp(); isetup(itp)
        me = SObj(z3.Const('self', U), JSON)
        p, pt = path_arg(itp, form)
        v, vt = given(itp, src)
        if form == 'text': assume(p.t != strlit(''))
        else: assume(pn(pt) > 0)
        args = [me, p] + ([v] if op != 'remove' else [])
        if form == 'text' and not branch(inlang['pointer'](p.t)):
            _, exc = run_contract(lambda: itp.call(getattr(JSON, op), args))
            prove('a malformed pointer raises', exc is not None and exc_is(exc, JschonError), repr(exc))
            prove('and changes nothing', not events()); return
        ptr(pt)
        if form == 'text': assume(pn(pt) > 0)
        par, obj, arr, k, i = node_facts(itp, pt, me.t)
        _, exc = run_contract(lambda: itp.call(getattr(JSON, op), args))
        ix = And(inlang['index'](k), i >= 0)
        if op == 'add':
            n = jlen(par)
            fits = Or(k == strlit('-'), And(ix, i <= n))
            ok = And(n_ok(p_init(pt), me.t), Or(obj, And(arr, fits)))
        else: ok = n_ok(pt, me.t)
        if exc is not None:
            prove('nothing is changed', not events(), f'{events()}')
            if op == 'remove': prove('the JSON error, exactly when the target does not exist', And(Not(ok), exc_is(exc, JSONError)), repr(exc))
            else: prove('the JSON error, exactly when the operation is impossible', Or(And(Not(ok), exc_is(exc, JSONError)), And(ok, incompat(vt), exc_is(exc, TypeError))), repr(exc))
            return
        prove('an impossible operation raises', ok)
        if branch(jtype(par) == strlit('array')):
            if op == 'add': one_event(itp, op, 'insert', par, (z3.If(k == strlit('-'), jlen(par), i),), v)
            else: one_event(itp, op, 'del' if op == 'remove' else 'set', par, (i,), v)
        else: one_event(itp, op, 'del' if op == 'remove' else 'set', par, k, v)
    return scen
for _op in ('add', 'remove', 'replace'):
    for _src in (('node', 'plain value') if _op != 'remove' else ('node',)):
        for _form in ('pointer', 'text'): ops(_op, _src, _form)

def whole(op, src, form, ty):
    label = f'{op}(empty {form}{", " + src if op != "remove" else ""}) on {ty}'
    @contract('P08', label, f'JSON.{op}', 'JSON.__init__')
    def scen():
        itp = Interp(); isetup(itp)
        ATTRS[(JSON, 'key')] = kid_key; ATTRS[(JSON, 'parent')] = kid_parent
        ATTRS[(JSON, 'value')] = node_value
        for f in (JSON.insert, JSON.__setitem__, JSON.__delitem__): itp.local_contracts.pop(f)
        core.CUR.opts['may_fail'] = False
        core.CUR.opts['real_init'] = 0
        o, t, c, par, icls, ikw = sym_node(itp, ty)
        fields = fields_of(itp, o, 'parent', 'key', 'itemclass', 'itemkwargs', 'path')
        v, vt = given(itp, src)
        nk = v_kind(vt); assume(Or(nk == 0, nk == 1))
        if form == 'text': p = ''
        else: p = ptr(z3.Const('path', U)); assume(pn(p.t) == 0)
        _, exc = run_contract(lambda: itp.call(getattr(JSON, op), [o, p] + ([v] if op != 'remove' else [])))
        no_exception(op, exc)
        same_fields(itp, f'{op}: the node keeps its place', o, fields)
        prove(f'{op}: the node forgets its value', not cached(itp, o, 'value'))
        if itp.get_field(o, 'parent') is not None: prove(f'{op}: and so do its ancestors', tb(seq_exists(get_log('invvalue'), lambda e: e.t == par.t)))
        d = itp.get_field(o, 'data')
        if op == 'remove':
            prove('removed: null', d is None and itp.get_field(o, 'type') == 'null'); return
        arr = branch(nk == 1)
        prove(f'{op}: type', itp.get_field(o, 'type') == ('array' if arr else 'object'))
        prove(f'{op}: new data', isinstance(d, Cont) and d.kind == ('list' if arr else 'dict') and (not isinstance(c, Cont) or d.id != c.id))
        if not isinstance(d, Cont): return
        item = lambda j, key: SObj(node_of(v_at(vt, j), itp.to_u(o), key), JSON)
        prove_seq(itp, f'{op}: items', itp.content(d), mk_map(v_len(vt), lambda j: item(j, fn('istr', I, U)(j))) if arr else mk_map(v_len(vt), lambda j: (SStr(v_name(vt, j)), item(j, v_name(vt, j)))))
        built_right(itp, op, o, icls, ikw)
    return scen
for _op in ('add', 'remove', 'replace'):
    for _src in (('node', 'plain value') if _op != 'remove' else ('node',)):
        for _form in ('pointer', 'text'):
            for _ty in ('array', 'object', 'string'): whole(_op, _src, _form, _ty)
