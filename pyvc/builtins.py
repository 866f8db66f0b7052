"""Models of Python builtins, container methods and the few standard-library
functions the verified code calls (part of the trusted base)."""
from __future__ import annotations
import builtins, collections, collections.abc, copy, functools, inspect, re, typing, types, itertools, uuid, fractions
import z3
from . import core
from .core import (U, I, B, R, Unsupported, Infeasible, And, Or, Not, Implies, ForAll, Exists, fresh, freshvar, assume,
                   branch, strlit, kind, fn as zfn, U_NONE, U_TRUE, U_FALSE, boxI, unboxI)
from .values import *
from .interp import (DELETED, exc_class, BUILTINS, METHODS, ATTRS, CONTRACTS, CLASSCALL, PyRaise, NOT, UNBOUND, tb, tb_, host_kind, num_term,
                     both_int, is_generator, func_ast, Interp)

def builtin(*fs):
    def deco(h):
        for f in fs:
            BUILTINS[f] = h
        return h
    return deco

def method(kinds, *names):
    def deco(h):
        for k in kinds.split():
            for n in names:
                METHODS[(k, n)] = h
        return h
    return deco

ABC_OF = {
    'list': (list, collections.abc.Sequence, collections.abc.MutableSequence, collections.abc.Iterable, collections.abc.Collection, collections.abc.Sized, collections.abc.Container),
    'dict': (dict, collections.abc.Mapping, collections.abc.MutableMapping, collections.abc.Iterable, collections.abc.Collection, collections.abc.Sized, collections.abc.Container),
}
def real_cls(c):
    o = typing.get_origin(c)
    return o if o is not None and not isinstance(c, type) else c

@builtin(isinstance)
def b_isinstance(itp, a, kw):
    v, c = a
    if isinstance(v, Opt):
        if branch(v.cond): return b_isinstance(itp, [v.val, c], kw)
        v = None
    if isinstance(v, Ite):
        return b_isinstance(itp, [v.a if branch(v.cond) else v.b, c], kw)
    if isinstance(c, tuple):
        r = [b_isinstance(itp, [v, x], kw) for x in c]
        if any(x is True for x in r): return True
        return mkbool(Or(*[tb(x.t if isinstance(x, SBool) else x) for x in r]))
    c = real_cls(c)
    if isinstance(c, types.UnionType) or typing.get_origin(c) is typing.Union:
        return b_isinstance(itp, [v, typing.get_args(c)], kw)
    for h in (core.CUR.opts.get('isinstance'), ATTRS.get('isinstance')):
        if h is not None:
            r = h(itp, v, c)
            if r is not NOT: return r
    if not isinstance(c, type):
        raise Unsupported(f'isinstance with {c!r}')
    if isinstance(v, SAny):
        v = itp.narrow(v)
    if isinstance(v, SNum):
        if c is int: return mkbool(tb(v.isint))
        if c is float: return mkbool(Not(v.isint))
        if c is bool: return False
        return c is object or c.__module__ == 'numbers'
    if isinstance(v, SFrac):
        return issubclass(fractions.Fraction, c)
    if isinstance(v, (Inst,)):
        return issubclass(v.cls, c)
    if isinstance(v, SObj):
        if issubclass(v.cls, c): return True
        if v.exact or not issubclass(c, v.cls):
            # classes of the verified code base: no common subclasses unless related
            return False
        return mkbool(zfn(f'isinst:{c.__module__}.{c.__qualname__}', U, B)(v.t))
    k = itp.class_of(v)
    if isinstance(v, GenV):
        return c in (collections.abc.Iterable, collections.abc.Iterator, collections.abc.Generator, object)
    if isinstance(v, View) and v.kind in ('keys', 'values', 'items') and v.seq is None:
        return c in (collections.abc.Iterable, collections.abc.Collection, collections.abc.Sized, collections.abc.Container, object) or (v.kind == 'keys' and c is collections.abc.Set)
    if isinstance(v, (FuncV, BoundM, HostFn)):
        return c in (collections.abc.Callable, object)
    if isinstance(v, ClassV):
        return c in (type, object)
    if isinstance(v, Opaque):
        raise Unsupported(f'isinstance of opaque {v.what}')
    if k is None:
        raise Unsupported(f'isinstance of {v!r}')
    return issubclass(k, c) if isinstance(v, V) else isinstance(v, c)

@builtin(issubclass)
def b_issubclass(itp, a, kw):
    c, d = a
    if isinstance(c, ClassV):
        h = ATTRS.get('issubclass')
        if h is not None:
            r = h(itp, c, d)
            if r is not NOT: return r
        raise Unsupported('issubclass of symbolic class')
    return issubclass(c, d)

@builtin(len)
def b_len(itp, a, kw):
    return itp.length(a[0])

@builtin(str)
def b_str(itp, a, kw):
    if not a: return ''
    v = a[0]
    if isinstance(v, (str, SStr)): return v
    return itp.fmt([v])

@builtin(repr)
def b_repr(itp, a, kw):
    v = a[0]
    if itp.is_native(v): return repr(v)
    return SStr(zfn('reprof', U, U)(itp.to_u(v)))

def is_dec(t): return zfn('is_int_text', U, B)(t)

@builtin(int)
def b_int(itp, a, kw):
    if not a: return 0
    v = a[0]
    if isinstance(v, SAny): v = itp.narrow(v)
    if isinstance(v, Opt):
        v = v.val if branch(v.cond) else None
    if isinstance(v, SInt): return v
    if isinstance(v, SBool): return mkint(zint(v))
    if isinstance(v, SNum) or isinstance(v, SFrac):
        t = v.t
        return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(v, SStr):
        # int(str(n)) == n
        if z3.is_app(v.t) and v.t.decl().name() == 'istr':
            return mkint(v.t.arg(0))
        h = CONTRACTS.get('int_of_str')
        if h:
            r = h(itp, v)
            if r is not NOT: return r
        if branch(is_dec(v.t)):
            return mkint(zfn('str2int', U, I)(v.t))
        itp.throw(ValueError, 'invalid literal for int()')
    if isinstance(v, (Inst, SObj)):
        d = itp.static_attr(v.cls, '__int__')
        if d is not UNBOUND: return itp.call(BoundM(v, d, '__int__'))
        itp.throw(TypeError, 'int()')
    if isinstance(v, V): itp.throw(TypeError, 'int()')
    try:
        return int(*a, **kw)
    except Exception as e:
        raise PyRaise(e)

@builtin(float)
def b_float(itp, a, kw):
    v = a[0]
    if isinstance(v, V): raise Unsupported('float()')
    return float(v)

@builtin(bool)
def b_bool(itp, a, kw):
    if not a: return False
    return mkbool(tb(itp.truth(a[0])))

@builtin(abs)
def b_abs(itp, a, kw):
    v = a[0]
    if isinstance(v, SInt): return mkint(z3.If(v.t >= 0, v.t, -v.t))
    if isinstance(v, SNum): return SNum(z3.If(v.t >= 0, v.t, -v.t), v.isint)
    return abs(v)

@builtin(hash)
def b_hash(itp, a, kw):
    v = a[0]
    if itp.is_native(v):
        try: return hash(v)
        except TypeError as e: raise PyRaise(e)
    if isinstance(v, (Cont, JList, JDict)): itp.throw(TypeError, 'unhashable')
    h = ATTRS.get('hash')
    if h is not None:
        r = h(itp, v)
        if r is not NOT: return r
    return SInt(zfn('hash', U, I)(itp.to_u(v)))

@builtin(id)
def b_id(itp, a, kw):
    return SInt(zfn('idof', U, I)(itp.to_u(a[0])))

@builtin(callable)
def b_callable(itp, a, kw):
    v = a[0]
    if isinstance(v, (FuncV, BoundM, HostFn, ClassV)): return True
    if isinstance(v, V): raise Unsupported('callable')
    return callable(v)

@builtin(enumerate)
def b_enumerate(itp, a, kw):
    s = itp.iterate(a[0])
    st = a[1] if len(a) > 1 else kw.get('start', 0)
    off = zint(st)
    out = []
    for p in s.parts:
        if isinstance(p, Lit):
            out.append(Lit((mkint(off), p.v))); off = off + 1
        elif is_pure(p):
            o = off
            out.append(Map(p.var, p.n, [(True, Seq([Lit((mkint(o + p.var), p.alts[0][1].parts[0].v))]))]))
            off = off + (p.n if core.entails(p.n >= 0) else z3.If(p.n >= 0, p.n, z3.IntVal(0)))
        else:
            raise Unsupported('enumerate of a filtered sequence')
    return GenV(Seq(out))

@builtin(range)
def b_range(itp, a, kw):
    if itp.is_native(a): 
        try: return range(*a)
        except Exception as e: raise PyRaise(e)
    a = [itp.narrow(x) if isinstance(x, SAny) else x for x in a]
    for x in a:
        if not isinstance(x, (int, SInt, SBool)): itp.throw(TypeError, 'range()')
    if len(a) == 3: 
        if a[2] == -1:
            lo, hi = zint(a[1]) + 1, zint(a[0])
            n = z3.simplify(z3.If(hi >= lo, hi - lo + 1, z3.IntVal(0)))
            return View('seq', 'range', mk_map(n, lambda v: mkint(hi - v)))
        raise Unsupported('range step')
    lo, hi = (z3.IntVal(0), zint(a[0])) if len(a) == 1 else (zint(a[0]), zint(a[1]))
    d = z3.simplify(hi - lo)
    n = d if core.entails(d >= 0) else z3.If(d >= 0, d, z3.IntVal(0))
    return View('seq', 'range', mk_map(n, lambda v: mkint(lo + v)))

def consume(itp, v):
    return itp.iterate(v)

@builtin(list)
def b_list(itp, a, kw):
    return itp.new_cont('list', itp.iterate(a[0]) if a else EMPTY)

@builtin(tuple)
def b_tuple(itp, a, kw):
    if not a: return ()
    s = itp.iterate(a[0])
    if all(isinstance(p, Lit) for p in s.parts): return tuple(p.v for p in s.parts)
    return View('seq', None, s)

@builtin(set, frozenset)
def b_set(itp, a, kw):
    return itp.new_cont('set', itp.iterate(a[0]) if a else EMPTY)

@builtin(dict)
def b_dict(itp, a, kw):
    c = itp.new_cont('dict')
    if a: METHODS[('dict', 'update')](itp, c, [a[0]], {})
    for k, v in kw.items():
        itp.dict_set(c, k, v)
    return c

@builtin(collections.deque)
def b_deque(itp, a, kw):
    if kw or len(a) > 1: raise Unsupported('deque maxlen')
    return itp.new_cont('deque', itp.iterate(a[0]) if a else EMPTY)

@builtin(iter)
def b_iter(itp, a, kw):
    if len(a) > 1: raise Unsupported('iter sentinel')
    return GenV(itp.iterate(a[0]))

@builtin(reversed)
def b_reversed(itp, a, kw):
    return GenV(seq_reverse(itp.iterate(a[0])))

@builtin(zip)
def b_zip(itp, a, kw):
    ss = [itp.iterate(x) for x in a]
    if all(all(isinstance(p, Lit) for p in s.parts) for s in ss):
        return GenV(lits(zip(*[[p.v for p in s.parts] for s in ss])))
    pu = [as_pure(s) for s in ss]
    if any(x is None for x in pu): raise Unsupported('zip')
    n = pu[0][0]
    for m, _ in pu[1:]:
        n = z3.If(n <= m, n, m)
    return GenV(mk_map(z3.simplify(n), lambda v: tuple(at(v) for _, at in pu)))

@builtin(any)
def b_any(itp, a, kw):
    return mkbool(tb(seq_exists(itp.iterate(a[0]), lambda v: tb(itp.truth(v)))))

@builtin(all)
def b_all(itp, a, kw):
    return mkbool(tb(seq_forall(itp.iterate(a[0]), lambda v: tb(itp.truth(v)))))

@builtin(sum)
def b_sum(itp, a, kw):
    s = itp.iterate(a[0])
    tot = z3.IntVal(0)
    for p in s.parts:
        if isinstance(p, Lit):
            tot = tot + zint(p.v)
        elif isinstance(p, Map):
            alts = []
            for g, sub in p.alts:
                for q in sub.parts:
                    if not isinstance(q, Lit): raise Unsupported('sum')
                    if q.v == 1 and not isinstance(q.v, V): alts.append((g, Seq([q])))
                    elif isinstance(q.v, (bool, SBool)): alts.append((And(g, tb(itp.truth(q.v))), Seq([q])))
                    elif not isinstance(q.v, V) and q.v == 0: pass
                    else: raise Unsupported('sum of symbolic numbers')
            tot = tot + count_term(p.n, p.var, alts) if alts else tot
        else: raise Unsupported('sum')
    return mkint(tot + (zint(a[1]) if len(a) > 1 else 0))

@builtin(min, max)
def b_minmax(itp, a, kw): raise Unsupported('min/max')
def filtered_extreme(itp, s, key, ismax):
    """the first largest (smallest) element of a filtered sequence; UNBOUND when it is empty"""
    p = s.parts[0] if len(s.parts) == 1 else None
    if not isinstance(p, Map) or any(len(sub.parts) != 1 or not isinstance(sub.parts[0], Lit) for g, sub in p.alts): raise Unsupported('min/max of a filtered sequence')
    i, j = freshvar('i'), freshvar('j')
    some = lambda t: Or(*[g for g, sub in inst_part(p, t)])
    if not branch(Exists([i], And(rng(i, p.n), some(i)))): return UNBOUND
    k = fresh('argmax', I)
    assume(rng(k, p.n), some(k))
    f = (lambda v: itp.call(key, [v])) if key else (lambda v: v)
    for g, sub in inst_part(p, k):
        if g is True or branch(g):
            best = sub.parts[0].v; fk = zint(f(best))
            for h, q in inst_part(p, j):
                h = True if h is True else h
                fj = zint(f(q.parts[0].v))
                assume(ForAll([j], Implies(And(rng(j, p.n), h), fj <= fk if ismax else fj >= fk)), ForAll([j], Implies(And(j >= 0, j < k, h), fj < fk if ismax else fj > fk)))
            return best
    raise Infeasible()
def _mm(ismax):
    def h(itp, a, kw):
        if len(a) == 1:
            if itp.is_native(a[0]): return (max if ismax else min)(a[0], **kw)
            s = itp.iterate(a[0])
            if all(isinstance(p, Lit) for p in s.parts) and s.parts and not kw.get('key'): a = [p.v for p in s.parts]
            else:
                key = kw.get('key')
                pu = as_pure(s)
                if pu is None:
                    r = filtered_extreme(itp, s, key, ismax)
                    if r is not UNBOUND: return r
                    if 'default' in kw: return kw['default']
                    itp.throw(ValueError, 'max() arg is an empty sequence')
                n, at = pu
                if not branch(n > 0):
                    if 'default' in kw: return kw['default']
                    itp.throw(ValueError, 'max() arg is an empty sequence')
                k = fresh('argmax', I); j = freshvar('j')
                f = (lambda v: itp.call(key, [v])) if key else (lambda v: v)
                fk, fj = zint(f(at(k))), zint(f(at(j)))
                assume(rng(k, n), ForAll([j], Implies(rng(j, n), fj <= fk if ismax else fj >= fk)),
                       ForAll([j], Implies(And(j >= 0, j < k), fj < fk if ismax else fj > fk)))
                return at(k)
        if itp.is_native(a): return (max if ismax else min)(*a, **kw)
        r = a[0]
        for x in a[1:]:
            x, r = itp.narrow(x), itp.narrow(r)
            x_, r_ = zint(x), zint(r)
            if branch(x_ > r_ if ismax else x_ < r_): r = x
        return r
    return h
BUILTINS[max] = _mm(True)
BUILTINS[min] = _mm(False)

@builtin(sorted)
def b_sorted(itp, a, kw):
    if itp.is_native(a) and itp.is_native(kw): return itp.new_cont('list', lits(sorted(a[0], **kw)))
    c = itp.new_cont('list', itp.iterate(a[0]))
    METHODS[('list', 'sort')](itp, c, [], kw)
    return c

@builtin(filter)
def b_filter(itp, a, kw):
    f, it = a
    s = itp.iterate(it)
    from . import loops
    acc = itp.new_cont('list')
    def body(v):
        if itp.test(v if f is None else itp.call(f, [v])):
            itp.set_content(acc, itp.content(acc) + lits([v]))
    loops.run_for(itp, s, body)
    return GenV(itp.content(acc))

@builtin(map)
def b_map(itp, a, kw):
    f = a[0]
    from . import loops
    acc = itp.new_cont('list')
    if len(a) > 2:
        s = itp.iterate(b_zip(itp, a[1:], {}))
    else:
        s = itp.iterate(a[1])
    def body(v):
        itp.set_content(acc, itp.content(acc) + lits([itp.call(f, list(v) if len(a) > 2 else [v])]))
    loops.run_for(itp, s, body)
    return GenV(itp.content(acc))

@builtin(next)
def b_next(itp, a, kw):
    from . import pymodels
    g = a[0]
    if isinstance(g, GenV) and not g.used:
        if not g.seq.parts:
            if len(a) > 1: return a[1]
            itp.throw(StopIteration)
        if isinstance(g.seq.parts[0], Lit):
            v = g.seq.parts[0].v; g.seq = Seq(g.seq.parts[1:])
            return v
    elif not isinstance(g, GenV):
        raise Unsupported('next() of another iterator')
    return itp.call(pymodels.first, [g, a[1]]) if len(a) > 1 else itp.call(pymodels.first_or_stop, [g])

@builtin(hasattr)
def b_hasattr(itp, a, kw):
    o, n = a
    h = ATTRS.get('hasattr')
    if h is not None:
        r = h(itp, o, n)
        if r is not NOT: return r
    if not isinstance(n, str): raise Unsupported('hasattr')
    M = object()
    return itp.getattr(o, n, M) is not M

@builtin(getattr)
def b_getattr(itp, a, kw):
    o, n = a[0], a[1]
    if isinstance(n, Ite):
        n = n.a if branch(n.cond) else n.b
    if not isinstance(n, str): raise Unsupported('getattr of symbolic name')
    return itp.getattr(o, n, a[2]) if len(a) > 2 else itp.getattr(o, n)

@builtin(setattr)
def b_setattr(itp, a, kw):
    if not isinstance(a[1], str): raise Unsupported('setattr')
    itp.setattr(a[0], a[1], a[2])

@builtin(type)
def b_type(itp, a, kw):
    if len(a) == 3:
        h = CLASSCALL.get(type)
        if h is not None: return h(itp, a, kw)
        raise Unsupported('type()')
    v = a[0]
    if isinstance(v, SAny): v = itp.narrow(v)
    if isinstance(v, Opt): v = v.val if branch(v.cond) else None
    if isinstance(v, SNum):
        return int if branch(tb(v.isint)) else float
    if isinstance(v, SObj) and not v.exact:
        return ClassV(zfn('classof', U, U)(v.t), v.cls)
    c = itp.class_of(v)
    if c is None: raise Unsupported(f'type({v!r})')
    return c

@builtin(super)
def b_super(itp, a, kw):
    return SuperV(a[0], a[1])

@builtin(slice)
def b_slice(itp, a, kw):
    a = list(a)
    if len(a) == 1: a = [None, a[0], None]
    return View('slice', tuple((a + [None, None])[:3]))

@builtin(object.__new__)
def b_new(itp, a, kw):
    c = a[0]
    if isinstance(c, ClassV): 
        if c.bound is None: raise Unsupported('object.__new__ of a symbolic class')
        c = c.bound
    return itp.alloc_inst(c)

@builtin(object.__init__)
def b_init(itp, a, kw): return None
@builtin(object.__eq__)
def b_oeq(itp, a, kw):
    c = itp.is_(a[0], a[1])
    return True if branch(tb(c)) else NotImplemented
@builtin(object.__ne__)
def b_one(itp, a, kw):
    raise Unsupported('object.__ne__')
@builtin(object.__repr__, object.__str__)
def b_orepr(itp, a, kw): return SStr(fresh('repr', U))
@builtin(object.__hash__)
def b_ohash(itp, a, kw): return SInt(zfn('hash', U, I)(itp.to_u(a[0])))

@builtin(inspect.getmro)
def b_getmro(itp, a, kw):
    if isinstance(a[0], ClassV): raise Unsupported('getmro of a symbolic class')
    return inspect.getmro(a[0])

@builtin(uuid.uuid4)
def b_uuid(itp, a, kw):
    return Opaque(fresh('uuid', U), 'uuid')

@builtin(copy.deepcopy)
def b_deepcopy(itp, a, kw):
    h = CONTRACTS.get('deepcopy')
    if h is not None:
        r = h(itp, a[0])
        if r is not NOT: return r
    v = a[0]
    if v is None or isinstance(v, (bool, int, float, str, SInt, SBool, SStr, SNum)): return v
    raise Unsupported('deepcopy')

@builtin(copy.copy)
def b_copy(itp, a, kw):
    v = a[0]
    if v is None or isinstance(v, (bool, int, float, str, SInt, SBool, SStr, SNum)): return v
    if isinstance(v, Cont): return itp.new_cont(v.kind, itp.content(v))
    raise Unsupported('copy')

@builtin(fractions.Fraction)
def b_fraction(itp, a, kw):
    v = a[0]
    if isinstance(v, (SNum, SInt, SFrac)): return SFrac(num_term(v))
    if isinstance(v, SStr):
        h = CONTRACTS.get('fraction_of_str')
        if h: return h(itp, v)
        raise Unsupported('Fraction(str)')
    if isinstance(v, V): raise Unsupported('Fraction')
    try:
        f = fractions.Fraction(*a)
    except Exception as e: raise PyRaise(e)
    return SFrac(z3.Q(f.numerator, f.denominator))

@builtin(typing.cast)
def b_cast(itp, a, kw): return a[1]

@builtin(print)
def b_print(itp, a, kw): return None

# ------------------------------------------------------------ containers
@method('list deque', 'append')
def m_append(itp, c, a, kw):
    itp.set_content(c, itp.content(c) + lits([a[0]]))
@method('list deque', 'extend')
def m_extend(itp, c, a, kw):
    itp.set_content(c, itp.content(c) + itp.iterate(a[0]))
@method('deque', 'appendleft')
def m_appendleft(itp, c, a, kw):
    itp.set_content(c, lits([a[0]]) + itp.content(c))
@method('deque', 'extendleft')
def m_extendleft(itp, c, a, kw):
    itp.set_content(c, seq_reverse(itp.iterate(a[0])) + itp.content(c))
@method('deque', 'popleft')
def m_popleft(itp, c, a, kw):
    s = itp.content(c)
    if not s.parts: itp.throw(IndexError, 'pop from an empty deque')
    if isinstance(s.parts[0], Lit):
        itp.set_content(c, Seq(s.parts[1:])); return s.parts[0].v
    if not branch(tb(seq_nonempty(s))): itp.throw(IndexError, 'pop from an empty deque')
    v = seq_at(s, 0)
    itp.set_content(c, seq_slice(s, 1, None))
    return v
@method('list deque', 'pop')
def m_pop(itp, c, a, kw):
    s = itp.content(c)
    if not a:
        if s.parts and isinstance(s.parts[-1], Lit):
            itp.set_content(c, Seq(s.parts[:-1])); return s.parts[-1].v
        n = seq_len(s)
        i = itp.norm_index(-1, n)
    else:
        n = seq_len(s)
        i = itp.norm_index(a[0], n)
    v = seq_at(s, i)
    itp.delitem(c, i)
    return v
@method('list', 'insert')
def m_insert(itp, c, a, kw):
    s = itp.content(c)
    n = seq_len(s)
    k = a[0]
    if isinstance(k, SAny): k = itp.narrow(k)
    kt, nt = zint(k), zint(n)
    if branch(tb_(kt < 0)):
        kt = kt + nt
        if branch(tb_(kt < 0)): kt = z3.IntVal(0)
    if branch(tb_(kt >= nt)):
        itp.set_content(c, s + lits([a[1]])); return
    i = mkint(kt)
    if isinstance(i, int) and all(isinstance(p, Lit) for p in s.parts[:i]) and len(s.parts) >= i:
        itp.set_content(c, Seq(s.parts[:i] + (Lit(a[1]),) + s.parts[i:])); return
    itp.set_content(c, seq_slice(s, 0, i) + lits([a[1]]) + seq_slice(s, i, None))
@method('list', 'remove')
def m_remove(itp, c, a, kw):
    s = itp.content(c)
    if all(isinstance(p, Lit) for p in s.parts):
        for j, p in enumerate(s.parts):
            if branch(tb(itp.eq(p.v, a[0]))):
                itp.set_content(c, Seq(s.parts[:j] + s.parts[j + 1:])); return
        itp.throw(ValueError, 'not in list')
    raise Unsupported('list.remove')
@method('list deque set dict', 'clear')
def m_clear(itp, c, a, kw): itp.set_content(c, EMPTY)
@method('list deque set dict', 'copy', '__copy__')
def m_copy(itp, c, a, kw): return itp.new_cont(c.kind, itp.content(c))
@method('list deque', 'reverse')
def m_reverse(itp, c, a, kw): itp.set_content(c, seq_reverse(itp.content(c)))
@method('list', 'sort')
def m_sort(itp, c, a, kw):
    s = itp.content(c)
    if len(s.parts) == 0 or (len(s.parts) == 1 and isinstance(s.parts[0], Lit)): return
    n = zint(seq_len(s))
    key = kw.get('key'); rev = kw.get('reverse', False)
    if not isinstance(rev, bool): raise Unsupported('sort reverse')
    # the result: a sequence of the same elements, ordered by key, stable
    m = fresh('perm', I)
    perm = z3.Function(core.fresh_name('perm'), *[I] * len(core.CUR.idx), I, I)
    ixs = list(core.CUR.idx)
    src = fresh('n', I)
    items = []
    for p in s.parts:
        if isinstance(p, Lit): items.append(('l', p))
        elif isinstance(p, Map) and all(len(x.parts) == 1 and isinstance(x.parts[0], Lit) for _, x in p.alts): items.append(('m', p))
        else: raise Unsupported('sort')
    if len(items) != 1: raise Unsupported('sort of a composite list')
    p = items[0][1]
    if not isinstance(p, Map) or len(p.alts) != 1: raise Unsupported('sort')
    g, sub = p.alts[0]
    g = tb(g)
    val = sub.parts[0].v
    at = lambda t: Subst([(p.var, t)])(val)
    gg = lambda t: z3.substitute(g, (p.var, t))
    q = lambda k: perm(*ixs, k)
    a_, b_, w = freshvar('a'), freshvar('b'), freshvar('w')
    inv = z3.Function(core.fresh_name('inv'), *[I] * len(core.CUR.idx), I, I)
    iv = lambda k: inv(*ixs, k)
    kf = (lambda v: itp.call(key, [v])) if key is not None and key is not False else (lambda v: v)
    ka, kb = kf(at(q(a_))), kf(at(q(b_)))
    c1 = itp.compare(__import__('ast').Lt() , ka, kb) if not rev else itp.compare(__import__('ast').Gt(), ka, kb)
    lt = tb(c1.t if isinstance(c1, SBool) else c1)
    c2 = itp.eq(ka, kb)
    assume(ForAll([a_], Implies(rng(a_, n), And(rng(q(a_), p.n), gg(q(a_)), iv(q(a_)) == a_))),
           ForAll([w], Implies(And(rng(w, p.n), gg(w)), And(rng(iv(w), n), q(iv(w)) == w))),
           ForAll([a_, b_], Implies(And(0 <= a_, a_ < b_, b_ < n), Or(lt, And(tb(c2), q(a_) < q(b_))))))
    v = freshvar('_s')
    itp.set_content(c, Seq([Map(v, n, [(True, Seq([Lit(at(q(v)))]))])]))
@method('list deque view:seq', 'index')
def m_index(itp, c, a, kw): raise Unsupported('index()')
@method('list view:seq', 'count')
def m_count(itp, c, a, kw):
    s = itp.iterate(c)
    return seq_len(itp.seq_filter(s, lambda v: tb(itp.eq(v, a[0]))))

@method('set', 'add')
def m_add(itp, c, a, kw): itp.set_content(c, itp.content(c) + lits([a[0]]))
@method('set', 'update')
def m_supdate(itp, c, a, kw):
    for x in a: itp.set_content(c, itp.content(c) + itp.iterate(x))
@method('set', 'discard')
def m_discard(itp, c, a, kw):
    itp.set_content(c, itp.seq_filter(itp.content(c), lambda v: Not(tb(itp.eq(v, a[0])))))
@method('set', 'remove')
def m_sremove(itp, c, a, kw):
    if not branch(tb(itp.member(a[0], c))): itp.throw(KeyError, a[0])
    m_discard(itp, c, a, kw)
@method('set', 'union', '__or__')
def m_union(itp, c, a, kw):
    s = itp.content(c)
    for x in a: s = s + itp.iterate(x)
    return itp.new_cont('set', s)
@method('set', 'intersection')
def m_inter(itp, c, a, kw):
    return itp.new_cont('set', itp.seq_filter(itp.content(c), lambda v: tb(itp.member(v, a[0]))))
@method('set', 'difference')
def m_diff(itp, c, a, kw):
    return itp.new_cont('set', itp.seq_filter(itp.content(c), lambda v: Not(tb(itp.member(v, a[0])))))
@method('set', 'issubset')
def m_issubset(itp, c, a, kw):
    return mkbool(tb(seq_forall(itp.content(c), lambda v: tb(itp.member(v, a[0])))))
@method('set', 'isdisjoint')
def m_isdisjoint(itp, c, a, kw):
    return mkbool(tb(seq_forall(itp.content(c), lambda v: Not(tb(itp.member(v, a[0]))))))
@method('set', 'issuperset')
def m_issuperset(itp, c, a, kw):
    return mkbool(tb(seq_forall(itp.iterate(a[0]), lambda v: tb(itp.member(v, c)))))

@method('dict', 'get')
def m_get(itp, c, a, kw):
    r = itp.dict_get(c, a[0])
    if r is NOT: return a[1] if len(a) > 1 else None
    return r
@method('dict', 'keys')
def m_keys(itp, c, a, kw): return View('keys', c)
@method('dict', 'values')
def m_values(itp, c, a, kw): return View('values', c)
@method('dict', 'items')
def m_items(itp, c, a, kw): return View('items', c)
@method('dict', 'setdefault')
def m_setdefault(itp, c, a, kw):
    r = itp.dict_get(c, a[0])
    if r is NOT:
        v = a[1] if len(a) > 1 else None
        itp.set_content(c, itp.content(c) + lits([(a[0], v)]))
        return v
    return r
@method('dict', 'pop')
def m_dpop(itp, c, a, kw):
    r = itp.dict_get(c, a[0])
    if r is NOT:
        if len(a) > 1: return a[1]
        itp.throw(KeyError, a[0])
    itp.delitem(c, a[0])
    return r
@method('dict', 'update')
def m_dupdate(itp, c, a, kw):
    for x in a:
        if isinstance(x, dict):
            for k, v in x.items(): itp.dict_set(c, k, v)
        elif isinstance(x, Cont) and x.kind == 'dict':
            s = itp.content(x)
            for p in s.parts:
                if isinstance(p, Lit): itp.dict_set(c, *p.v)
                else: itp.set_content(c, Seq(itp.content(c).parts + (p,)))
        else:
            h = METHODS.get((host_kind(x), '__asdict__'))
            if h is not None:
                s = h(itp, x, [], {})
                itp.set_content(c, itp.content(c) + s)
                continue
            s = itp.iterate(x)
            for p in s.parts:
                if isinstance(p, Lit): itp.dict_set(c, *p.v)
                else: itp.set_content(c, Seq(itp.content(c).parts + (p,)))
    for k, v in kw.items(): itp.dict_set(c, k, v)
@method('dict', 'popitem')
def m_popitem(itp, c, a, kw): raise Unsupported('popitem')
@method('view:keys', '__len__')
def m_klen(itp, c, a, kw): return itp.length(c.obj)
@method('view:keys', 'isdisjoint')
def m_kdis(itp, c, a, kw):
    return mkbool(tb(seq_forall(itp.iterate(c), lambda v: Not(tb(itp.member(v, a[0]))))))
@method('view:seq', 'count')
def m_vcount(itp, c, a, kw): return m_count(itp, c, a, kw)

@method('view:slice', 'indices')
def m_slice_indices(itp, c, a, kw):
    n = a[0]
    lo, hi, st = c.obj
    if st is not None: raise Unsupported('slice step')
    class S: seq = (lo, hi, None)
    x, y = itp.slice_bounds(S, n)
    return (x, y, 1)

# native list / dict constants (class attributes, module tables) with symbolic keys
@method('dict', '__getitem__')
def m_dgetitem(itp, c, a, kw):
    if isinstance(c, dict):
        if itp.is_native(a):
            try: return c[a[0]]
            except Exception as e: raise PyRaise(e)
        for kk, v in c.items():
            if branch(tb(itp.eq(a[0], kk))): return v
        itp.throw(KeyError, a[0])
    r = itp.dict_get(c, a[0])
    if r is NOT: itp.throw(KeyError, a[0])
    return r

# ------------------------------------------------------------ strings
@method('str', 'join')
def m_join(itp, s, a, kw):
    seq = itp.iterate(a[0])
    if all(isinstance(p, Lit) for p in seq.parts):
        vs = [p.v for p in seq.parts]
        out = []
        for j, v in enumerate(vs):
            if not isinstance(v, (str, SStr)):
                if isinstance(v, (SAny, Opaque)): pass
                else: itp.throw(TypeError, 'join')
            if j and s != '': out.append(s)
            out.append(v)
        return itp.fmt(out)
    h = CONTRACTS.get('str_join')
    if h is not None:
        r = h(itp, s, seq)
        if r is not NOT: return r
    return SStr(fresh('joined', U))

@builtin(str.maketrans)
def b_maketrans(itp, a, kw):
    b = []
    for x in a:
        if isinstance(x, Cont) and x.kind == 'dict':
            ps = itp.content(x).parts
            if not all(isinstance(p, Lit) and itp.is_native(p.v[0]) and itp.is_native(p.v[1]) for p in ps): raise Unsupported('str.maketrans')
            x = {p.v[0]: p.v[1] for p in ps}
        elif not isinstance(x, str): raise Unsupported('str.maketrans')
        b.append(x)
    try: return str.maketrans(*b)
    except (TypeError, ValueError) as e: raise PyRaise(e)
@method('str', 'translate')
def m_translate(itp, s, a, kw):
    t = a[0]
    if not (isinstance(t, dict) and all(isinstance(k, int) and (v is None or isinstance(v, str)) or isinstance(v, int) for k, v in t.items())): raise Unsupported('str.translate')
    if isinstance(s, str): return s.translate(t)
    m = {chr(k): '' if v is None else chr(v) if isinstance(v, int) else v for k, v in t.items()}
    r = itp.to_u(s)
    if not m: return SStr(r)
    name = 'str.map:' + repr(sorted(m.items()))
    core.CHARMAPS[name] = m
    r = zfn(name, U, U)(r)
    assume(kind(r) == core.STR)
    return SStr(r)

@method('str', '__len__')
def m_strlen(itp, s, a, kw):
    if isinstance(s, str): return len(s)
    t = zfn('strlen', U, I)(s.t)
    assume(t >= 0, (t == 0) == (s.t == strlit('')))
    return mkint(t)
@method('str', 'startswith')
def m_startswith(itp, s, a, kw):
    if itp.is_native(s) and itp.is_native(a): return s.startswith(*a)
    if isinstance(a[0], str) and a[0] == '': return True
    return mkbool(zfn('startswith', U, U, B)(itp.to_u(s), itp.to_u(a[0])))
@method('str', 'endswith')
def m_endswith(itp, s, a, kw):
    if itp.is_native(s) and itp.is_native(a): return s.endswith(*a)
    if isinstance(a[0], str) and a[0] == '': return True
    return mkbool(zfn('endswith', U, U, B)(itp.to_u(s), itp.to_u(a[0])))
for _n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix', 'title', 'capitalize', 'casefold'):
    def _mk(n):
        def h(itp, s, a, kw):
            if itp.is_native(s) and itp.is_native(a): return getattr(s, n)(*a)
            hh = CONTRACTS.get('str_' + n)
            if hh is not None:
                r = hh(itp, s, a)
                if r is not NOT: return r
            args = [itp.to_u(s)] + [itp.to_u(x) for x in a]
            return SStr(zfn('str.' + n, *[U] * len(args), U)(*args))
        return h
    METHODS[('str', _n)] = _mk(_n)
for _n in ('isdigit', 'isnumeric', 'isdecimal', 'isalpha', 'isalnum', 'isspace'):
    def _mk(n):
        def h(itp, s, a, kw):
            if itp.is_native(s): return getattr(s, n)()
            return mkbool(zfn('str.' + n, U, B)(s.t))
        return h
    METHODS[('str', _n)] = _mk(_n)
@method('str', 'split')
def m_split(itp, s, a, kw):
    if itp.is_native(s) and itp.is_native(a): return itp.new_cont('list', lits(s.split(*a, **kw)))
    hh = CONTRACTS.get('str_split')
    if hh is not None:
        r = hh(itp, s, a)
        if r is not NOT: return r
    raise Unsupported('str.split')
@method('str', 'format')
def m_format(itp, s, a, kw): return SStr(fresh('formatted', U))
@method('str', '__contains__')
def m_scontains(itp, s, a, kw):
    x = a[0]
    if itp.is_native(s) and itp.is_native(x):
        try: return x in s
        except TypeError as e: raise PyRaise(e)
    if not isinstance(x, (str, SStr)): itp.throw(TypeError, "'in <string>'")
    return zfn('substr', U, U, B)(itp.to_u(x), itp.to_u(s))
@method('str', '__getitem__')
def m_sgetitem(itp, s, a, kw):
    k = a[0]
    if isinstance(s, str) and not isinstance(k, V):
        try: return s[k]
        except Exception as e: raise PyRaise(e)
    if isinstance(s, str) and isinstance(k, View) and k.kind == 'slice' and itp.is_native(k.obj):
        return s[slice(*k.obj)]
    hh = CONTRACTS.get('str_getitem')
    if hh is not None:
        r = hh(itp, s, k)
        if r is not NOT: return r
    if isinstance(k, View) and k.kind == 'slice':
        us = [U_NONE if x is None else itp.to_u(x) for x in k.obj]
        return SStr(zfn('str.slice', U, U, U, U, U)(itp.to_u(s), *us))
    kt = zint(k); n = zint(m_strlen(itp, s if isinstance(s, SStr) else SStr(strlit(s)), [], {}))
    if branch(Or(kt >= n, kt < -n)): itp.throw(IndexError, 'string index out of range')
    return SStr(zfn('str.at', U, I, U)(itp.to_u(s), kt))
@method('str', '__iter__')
def m_siter(itp, s, a, kw):
    if isinstance(s, str): return lits(s)
    n = zint(m_strlen(itp, s, [], {}))
    return mk_map(n, lambda v: SStr(zfn('str.at', U, I, U)(s.t, v)))

@builtin(re.search, re.match, re.fullmatch)
def b_re(itp, a, kw): raise Unsupported('re')
def _re(n):
    def h(itp, a, kw):
        if itp.is_native(a) and itp.is_native(kw):
            return getattr(re, n)(*a, **kw)
        if kw or len(a) > 2: raise Unsupported('re flags')
        pat, s = a
        if not isinstance(s, (str, SStr)):
            if isinstance(s, SAny): s = itp.narrow(s)
            if not isinstance(s, (str, SStr)): itp.throw(TypeError, 'expected string')
        if isinstance(pat, (str, re.Pattern)):
            hh = core.CUR.opts.get('re_hook')
            if hh is not None:
                r = hh(itp, n, pat if isinstance(pat, str) else pat.pattern, 0 if isinstance(pat, str) else pat.flags & ~re.UNICODE, s)
                if r is not NOT: return r
        if isinstance(pat, re.Pattern): pat = pat.pattern if not pat.flags & ~re.UNICODE else f'(flags {pat.flags}){pat.pattern}'
        return Opt(zfn('re_' + n, U, U, B)(itp.to_u(pat), itp.to_u(s)), Opaque(zfn('match_' + n, U, U, U)(itp.to_u(pat), itp.to_u(s)), 'match'))
    return h
for _n in ('search', 'match', 'fullmatch'):
    BUILTINS[getattr(re, _n)] = _re(_n)
    def _mk(n):
        def h(itp, s, a, kw):
            if itp.is_native(a): return getattr(s, n)(*a, **kw)
            return _re(n)(itp, [s] + list(a), kw)
        return h
    METHODS[('Pattern', _n)] = _mk(_n)
    def _mk2(n):
        def h(itp, s, a, kw):
            return _re(n)(itp, [SStr(s.t)] + list(a), kw)
        return h
    METHODS[('opaque:pattern', _n)] = _mk2(_n)
@builtin(re.compile)
def b_recompile(itp, a, kw):
    if itp.is_native(a) and itp.is_native(kw): return re.compile(*a, **kw)
    if kw or len(a) > 1: raise Unsupported('re flags')
    return Opaque(itp.to_u(a[0]), 'pattern')
ATTRS[('opaque', 'pattern')] = lambda itp, o, name: BoundM(o, HostFn(lambda itp, a, kw: METHODS[('opaque:pattern', name)](itp, a[0], a[1:], kw), name), name) if ('opaque:pattern', name) in METHODS else itp.throw(AttributeError, name)

# the attribute dictionary of an object of this verification
def _at_pop(itp, v, a, kw):
    o, n = v.obj, a[0]
    if not isinstance(n, str): raise Unsupported('__dict__ with a computed name')
    if isinstance(o, SObj):
        if len(a) < 2: raise Unsupported('__dict__.pop of a symbolic object')
        try: itp.delattr(o, n)
        except PyRaise as e:
            if not issubclass(exc_class(e.exc), AttributeError): raise
        return Opaque(fresh('popped', U), 'popped')
    r = itp.get_field(o, n)
    if r in (UNBOUND,) :
        if len(a) > 1: return a[1]
        raise PyRaise(KeyError(n))
    itp.st[('F', o.id, n)] = DELETED
    return r
def _at_get(itp, v, a, kw):
    if not isinstance(a[0], str): raise Unsupported('__dict__ with a computed name')
    if isinstance(v.obj, SObj): raise Unsupported('__dict__ of a symbolic object')
    r = itp.get_field(v.obj, a[0])
    return r if r is not UNBOUND else a[1] if len(a) > 1 else None
def _at_item(itp, v, a, kw):
    r = _at_get(itp, v, [a[0], UNBOUND], {})
    if r is UNBOUND: raise PyRaise(KeyError(a[0]))
    return r
METHODS[('view:attributes', 'pop')] = _at_pop
METHODS[('view:attributes', 'get')] = _at_get
METHODS[('view:attributes', '__getitem__')] = _at_item
METHODS[('view:attributes', '__contains__')] = lambda itp, v, a, kw: _at_get(itp, v, [a[0], UNBOUND], {}) is not UNBOUND
METHODS[('view:attributes', '__delitem__')] = lambda itp, v, a, kw: _at_pop(itp, v, a[:1], {})
METHODS[('view:attributes', '__setitem__')] = lambda itp, v, a, kw: itp.set_field(v.obj, a[0], a[1]) if isinstance(a[0], str) else (_ for _ in ()).throw(Unsupported('__dict__ with a computed name'))

import operator as _op, ast as _ast
def _cmp(f, op):
    @builtin(f)
    def h(itp, a, kw): return itp.compare(op, a[0], a[1])
for _f, _o in ((_op.lt, _ast.Lt), (_op.le, _ast.LtE), (_op.gt, _ast.Gt), (_op.ge, _ast.GtE), (_op.eq, _ast.Eq), (_op.ne, _ast.NotEq), (_op.is_, _ast.Is), (_op.is_not, _ast.IsNot)): _cmp(_f, _o())
@builtin(_op.contains)
def b_opcontains(itp, a, kw): return itp.compare(_ast.In(), a[1], a[0])
@builtin(_op.not_)
def b_opnot(itp, a, kw): return mkbool(Not(tb(itp.truth(a[0]))))
