"""P07: mutations keep a document coherent."""
from .jsonnode import *
from jschon.exc import *

def exc_is(exc, cls): return issubclass(exc_class(exc), cls)

def msetup(itp):
    jsetup(itp)
    core.CUR.opts['may_fail'] = True

def nv(itp, o):
    """reading the value of some other node may cache values of this node and
    its ancestors (the node may contain this one)"""
    log_app(itp, 'order', ('read', o))
    me = core.CUR.opts.get('me')
    if me is not None and core.CUR.opts.get('reads_cache'):
        if branch(z3.Bool('source_contains_node')): itp.set_field(me[2], 'value', Opaque(z3.Const('recached_value', U), 'jsonvalue'))
    return wrapval(jvalue(o.t))

def operand(itp, label):
    """what is assigned: a node of any document, or any plain value"""
    ATTRS[(JSON, 'value')] = nv
    core.CUR.opts['reads_cache'] = True
    t = z3.Const('given', U)
    if label == 'node': return SObj(t, JSON), jvalue(t)
    v = wrapval(t)
    return v, t

def finish_mut(itp, what, o, t, ty, c, par, icls, ikw, want, fields):
    d = itp.getattr(o, 'data')
    prove(f'{what}: data stays a {"list" if ty == "array" else "dict"} of the node', isinstance(d, Cont) and d.kind == c.kind)
    if not isinstance(d, Cont): return
    prove_seq(itp, f'{what}: items', itp.content(d), want)
    tree_ok(itp, what, o, ty)
    forgets(itp, what, o, par)
    built_right(itp, what, o, icls, ikw)
    same_fields(itp, what, o, fields)

def forgets(itp, what, o, par):
    prove(f'{what}: the node forgets its value', not cached(itp, o, 'value'))
    if itp.get_field(o, 'parent') is None: return
    inv = get_log('invvalue')
    prove(f'{what}: and so do its ancestors', tb(seq_exists(inv, lambda e: e.t == par.t)))
    ev = get_log('order')
    if any(isinstance(p, Map) for p in ev.parts): return
    ks = [p.v[0] for p in ev.parts]
    prove(f'{what}: no value is remembered after the ancestors forgot theirs', 'inv' in ks and 'read' not in ks[ks.index('inv'):] if ks else True)

def inv2(itp, a, kw):
    """contract of _invalidate_value: the node and all nodes above it forget their values"""
    if isinstance(a[0], Inst):
        me = core.CUR.opts.get('me')
        if me is None or me[2].id != a[0].id or a[0].idxs: return NOT
        if cached(itp, a[0], 'value'): itp.delattr(a[0], 'value')
        par = itp.get_field(a[0], 'parent')
        if isinstance(par, SObj): log_app(itp, 'invvalue', par); log_app(itp, 'order', ('inv', par))
        return
    if not isinstance(a[0], SObj): return NOT
    log_app(itp, 'invvalue', a[0]); log_app(itp, 'order', ('inv', a[0]))

def start(itp, ty):
    msetup(itp)
    itp.local_contracts[JSON._invalidate_value] = inv2
    o, t, c, par, icls, ikw = sym_node(itp, ty)
    return o, t, c, par, icls, ikw, fields_of(itp, o, *OWN)

def kids(t): return mk_map(jlen(t), lambda v: SObj(jchild(t, v), JSON))
def part(t, a, b): return mk_map(b - a, lambda v: SObj(jchild(t, z3.simplify(v + a)), JSON))
def members(t): return mk_map(jlen(t), lambda v: (SStr(jkey(t, v)), SObj(jchild(t, v), JSON)))
def mpart(t, a, b): return mk_map(b - a, lambda v: (SStr(jkey(t, z3.simplify(v + a))), SObj(jchild(t, z3.simplify(v + a)), JSON)))

for src in ('node', 'plain value'):
    def mk(src):
        @contract('P07', f'array[index] = {src}', 'JSON.__setitem__')
        def set_array():
            itp = Interp()
            o, t, c, par, icls, ikw, fields = start(itp, 'array')
            v, vt = operand(itp, src)
            k = z3.Int('index'); n = jlen(t)
            _, exc = run_contract(lambda: itp.call(JSON.__setitem__, [o, SInt(k), v]))
            inr = And(k >= -n, k < n)
            if exc is not None:
                prove('an assignment fails only out of range or for a value that is no JSON', Or(And(Not(inr), exc_is(exc, IndexError)), And(incompat(vt), exc_is(exc, TypeError))))
                untouched(itp, 'failed assignment', o, t, 'array', c, fields); return
            prove('within range', inr)
            j = k + n if branch(k < 0) else k
            new = node_of(vt, itp.to_u(o), itp.istr(j))
            finish_mut(itp, 'assignment', o, t, 'array', c, par, icls, ikw, part(t, z3.IntVal(0), j) + lits([SObj(new, JSON)]) + part(t, j + 1, n), fields)

        @contract('P07', f'object[name] = {src}', 'JSON.__setitem__')
        def set_object():
            itp = Interp()
            o, t, c, par, icls, ikw, fields = start(itp, 'object')
            v, vt = operand(itp, src)
            k = SStr(z3.Const('name', U)); assume(kind(k.t) == core.STR)
            n = jlen(t)
            _, exc = run_contract(lambda: itp.call(JSON.__setitem__, [o, k, v]))
            if exc is not None:
                prove('an assignment fails only for a value that is no JSON', And(incompat(vt), exc_is(exc, TypeError)))
                untouched(itp, 'failed assignment', o, t, 'object', c, fields); return
            new = (k, SObj(node_of(vt, itp.to_u(o), k.t), JSON))
            if branch(jhas(t, k.t)):
                j = jidx(t, k.t)
                want = mpart(t, z3.IntVal(0), j) + lits([new]) + mpart(t, j + 1, n)
            else: want = members(t) + lits([new])
            finish_mut(itp, 'assignment', o, t, 'object', c, par, icls, ikw, want, fields)

        @contract('P07', f'array.insert(index, {src})', 'JSON.insert')
        def insert():
            itp = Interp()
            o, t, c, par, icls, ikw, fields = start(itp, 'array')
            v, vt = operand(itp, src)
            k = z3.Int('index'); n = jlen(t)
            _, exc = run_contract(lambda: itp.call(JSON.insert, [o, SInt(k), v]))
            if exc is not None:
                prove('an insertion fails only for a value that is no JSON', And(incompat(vt), exc_is(exc, TypeError)))
                untouched(itp, 'failed insertion', o, t, 'array', c, fields); return
            j = (z3.IntVal(0) if branch(k + n < 0) else k + n) if branch(k < 0) else (n if branch(k > n) else k)
            new = node_of(vt, itp.to_u(o), itp.istr(j))
            finish_mut(itp, 'insertion', o, t, 'array', c, par, icls, ikw, part(t, z3.IntVal(0), j) + lits([SObj(new, JSON)]) + part(t, j, n), fields)
    mk(src)

@contract('P07', 'del array[index]', 'JSON.__delitem__')
def del_array():
    itp = Interp()
    o, t, c, par, icls, ikw, fields = start(itp, 'array')
    k = z3.Int('index'); n = jlen(t)
    _, exc = run_contract(lambda: itp.call(JSON.__delitem__, [o, SInt(k)]))
    inr = And(k >= -n, k < n)
    if exc is not None:
        prove('a deletion fails only out of range', And(Not(inr), exc_is(exc, IndexError)))
        untouched(itp, 'failed deletion', o, t, 'array', c, fields); return
    prove('within range', inr)
    j = k + n if branch(k < 0) else k
    finish_mut(itp, 'deletion', o, t, 'array', c, par, icls, ikw, part(t, z3.IntVal(0), j) + part(t, j + 1, n), fields)

@contract('P07', 'del object[name]', 'JSON.__delitem__')
def del_object():
    itp = Interp()
    o, t, c, par, icls, ikw, fields = start(itp, 'object')
    k = SStr(z3.Const('name', U)); assume(kind(k.t) == core.STR)
    n = jlen(t)
    _, exc = run_contract(lambda: itp.call(JSON.__delitem__, [o, k]))
    if exc is not None:
        prove('a deletion fails only for a missing name', And(Not(jhas(t, k.t)), exc_is(exc, KeyError)))
        untouched(itp, 'failed deletion', o, t, 'object', c, fields); return
    prove('the name was present', jhas(t, k.t))
    j = jidx(t, k.t)
    finish_mut(itp, 'deletion', o, t, 'object', c, par, icls, ikw, mpart(t, z3.IntVal(0), j) + mpart(t, j + 1, n), fields)

# ---- caches
anc = fn('node_above', I, U); above = z3.Int('nodes_above')
for ty in ('array', 'object', 'string'):
    def mk(ty):
        @contract('P07', f'forget the path of {ty}', 'JSON._invalidate_path')
        def inv_path():
            itp = Interp(); msetup(itp)
            f = JSON._invalidate_path
            o, t, c, par, icls, ikw = sym_node(itp, ty)
            fields = fields_of(itp, o, *OWN)
            hv = cached(itp, o, 'value')
            _, exc = run_contract(lambda: itp.call(f, [o]))
            no_exception('_invalidate_path', exc)
            prove('the path is forgotten', not cached(itp, o, 'path'))
            same_fields(itp, '_invalidate_path', o, fields)
            if ty != 'string':
                untouched(itp, '_invalidate_path', o, t, ty, c, fields)
                i = z3.Int('item'); assume(i >= 0, i < jlen(t))
                prove('and the paths of all items', tb(seq_exists(get_log('invpath'), lambda e: e.t == jchild(t, i))))
        @contract('P07', f'forget the value of {ty}', 'JSON._invalidate_value')
        def inv_val():
            itp = Interp(); msetup(itp)
            f = JSON._invalidate_value
            o, t, c, par, icls, ikw = sym_node(itp, ty)
            fields = fields_of(itp, o, *OWN)
            # the nodes above: by the contract of the function itself, or in a loop
            i = freshvar('a')
            assume(above >= 0, anc(z3.IntVal(0)) == par.t, ForAll([i], Implies(rng(i, above + 1), jhasparent(anc(i)) == (i < above)), patterns=[anc(i)]),
                   ForAll([i], Implies(rng(i, above), anc(i + 1) == jparent(anc(i))), patterns=[anc(i)]))
            core.CUR.opts['loop_inv'] = [lambda itp, init, v: (lambda j: Opt(j <= above, SObj(anc(j), JSON))) if isinstance(init, SObj) and init.t.eq(par.t) else None]
            def forget(itp, x):
                log_app(itp, 'forgotten', x)
                if not branch(fn('caches_value', U, B)(x.t)): raise PyRaise(AttributeError('value'))
            ATTRS[(JSON, 'value', 'del')] = forget
            init_log('forgotten')
            _, exc = run_contract(lambda: itp.call(f, [o]))
            no_exception('_invalidate_value', exc)
            prove('the value is forgotten', not cached(itp, o, 'value'))
            same_fields(itp, '_invalidate_value', o, fields)
            if itp.get_field(o, 'parent') is not None:
                q = z3.Int('some_ancestor')
                prove('and those of the ancestors', Or(tb(seq_exists(get_log('invvalue'), lambda e: e.t == par.t)), Implies(rng(q, above + 1), tb(seq_exists(get_log('forgotten'), lambda e: e.t == anc(q))))))
            if ty != 'string': untouched(itp, '_invalidate_value', o, t, ty, c, fields)
    mk(ty)

INHERITED = {cabc.MutableSequence: ('append', 'extend', 'pop', 'reverse', '__iadd__'),
             cabc.MutableMapping: ('update', 'setdefault', 'popitem')}
@contract('P07', 'inherited operations', 'JSON')
def inherited():
    """they are the standard library's, built from item access, assignment,
    deletion, insertion and length alone"""
    for c, names in INHERITED.items():
        for n in names:
            if getattr(JSON, n) is not getattr(c, n): raise Unsupported(f'JSON.{n} is not the inherited operation')
    prove('inherited operations are built from the operations above', True)
