"""pyvc interpreter: executes the real source of Python functions on
symbolic values."""
from __future__ import annotations
import ast, builtins, functools, inspect, sys, textwrap, types, contextlib, collections, collections.abc
import z3
from . import core
from .core import (U, I, B, R, Unsupported, Infeasible, And, Or, Not, Implies, fresh, freshvar, assume, branch, strlit,
                   U_NONE, U_TRUE, U_FALSE, kind, boxI, unboxI, fn as zfn)
from .values import *

NOT = object()          # "not handled"
UNBOUND = object()
DELETED = object()

class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc
class ReturnSig(Exception):
    def __init__(self, v): self.v = v
class BreakSig(Exception): pass
class ContinueSig(Exception): pass

def exc_class(e):
    return e.cls if isinstance(e, Inst) else type(e)

CONTRACTS = {}      # real function -> handler(itp, args, kwargs)
ATTRS = {}          # (class, name) -> handler(itp, obj)
CLASSCALL = {}      # class -> handler(itp, args, kwargs) constructor contract
BUILTINS = {}       # builtin callable -> handler
METHODS = {}        # (host kind, name) -> handler(itp, self, args, kwargs)
CLOSED = {}         # abstract class -> list of alternatives / unused

_ast_cache = {}
def frozen_source(f):
    """source of a function of a standard module frozen into the interpreter"""
    m = sys.modules.get({"collections.abc": "_collections_abc"}.get(f.__module__, f.__module__))
    try: lines = open(m.__spec__.loader_state.filename if getattr(m.__spec__, 'loader_state', None) else m.__file__).read().split('\n')
    except Exception: return None
    return textwrap.dedent(''.join(inspect.getblock([l + '\n' for l in lines[f.__code__.co_firstlineno - 1:]])))
def func_ast(f):
    code = f.__code__
    if code not in _ast_cache:
        try:
            src = textwrap.dedent(inspect.getsource(f))
        except (OSError, TypeError) as e:
            src = frozen_source(f)
            if src is None: raise Unsupported(f'no source for {f!r}')
        tree = ast.parse(src)
        node = tree.body[0]
        if isinstance(node, ast.Assign) or isinstance(node, ast.Expr) or not isinstance(node, (ast.FunctionDef,)):
            lam = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda)]
            if len(lam) != 1:
                raise Unsupported(f'cannot locate source of {f!r}')
            node = lam[0]
        _ast_cache[code] = node
    return _ast_cache[code]

def assigned_names(node):
    """names local to a function body"""
    out, glob = set(), set()
    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            out.add(n.name); return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(node, ast.Lambda):
        pass
    else:
        for s in node.body:
            visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    return out - glob, glob

_local_cache = {}
def locals_of(node):
    if node not in _local_cache:
        _local_cache[node] = assigned_names(node)
    return _local_cache[node]

_gen_cache = {}
def is_generator(node):
    if node not in _gen_cache:
        def has(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return False
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            return any(has(c) for c in ast.iter_child_nodes(n))
        _gen_cache[node] = not isinstance(node, ast.Lambda) and any(has(s) for s in node.body)
    return _gen_cache[node]

class Frame:
    def __init__(self, id, names, parent, globs, func):
        self.id, self.names, self.parent, self.globs, self.func = id, names, parent, globs, func
        self.yield_hook = None
        self.yields = None
        self.clo = None      # native closure cells (dict)
        self.cls = None

_CM_CODE = contextlib.contextmanager(lambda: iter(())).__code__

class Interp:
    def __init__(self):
        self.stack = []       # active (function key)
        self.steps = 0
        self.active_contract_off = set()
        self.local_contracts = {}
        self.maxdepth = 60

    # ---------------------------------------------------------- store
    @property
    def st(self): return core.CUR.store

    def new_id(self, base):
        p = core.CUR
        p.counter += 1
        return f'{base}{p.counter}'

    def alloc(self, cls):
        i = self.new_id('o')
        return Inst(cls, i, tuple(core.CUR.idx))

    def _idxvars(self, id):
        return self.st.get(('V', id), ())

    def alloc_inst(self, cls):
        o = self.alloc(cls)
        self.st[('V', o.id)] = tuple(core.CUR.idx)
        return o

    def new_cont(self, kind_, seq=EMPTY):
        i = self.new_id(kind_[0])
        self.st[('V', i)] = tuple(core.CUR.idx)
        self.st[('C', i)] = seq
        return Cont(kind_, i, tuple(core.CUR.idx))

    def _sub(self, o):
        vs = self._idxvars(o.id)
        pairs = [(a, b) for a, b in zip(vs, o.idxs)]
        return Subst(pairs)

    def content(self, c: Cont) -> Seq:
        return self._sub(c)(self.st[('C', c.id)])

    def set_content(self, c: Cont, seq: Seq):
        vs = self._idxvars(c.id)
        if any(not a.eq(b) for a, b in zip(vs, c.idxs)):
            raise Unsupported('write to a container of another iteration')
        self.st[('C', c.id)] = seq

    def get_field(self, o: Inst, name):
        v = self.st.get(('F', o.id, name), UNBOUND)
        if v is UNBOUND or v is DELETED:
            return UNBOUND
        return self._sub(o)(v)

    def set_field(self, o: Inst, name, v):
        vs = self._idxvars(o.id)
        if any(not a.eq(b) for a, b in zip(vs, o.idxs)):
            raise Unsupported('write to an object of another iteration')
        self.st[('F', o.id, name)] = v

    # ---------------------------------------------------------- errors
    def throw(self, cls, *args):
        raise PyRaise(cls(*args) if not isinstance(cls, V) else cls)

    # ---------------------------------------------------------- names
    def lookup(self, fr: Frame, name):
        f = fr
        while f is not None:
            if name in f.names:
                v = self.st.get(('L', f.id, name), UNBOUND)
                if v is UNBOUND or v is DELETED:
                    raise PyRaise(UnboundLocalError(name))
                if type(v).__name__ == 'Poison':
                    from . import loops
                    if v is loops.PEEL: raise loops.NeedPeel()
                    raise Unsupported(f'value of {name} after a loop')
                return v
            if f.clo and name in f.clo:
                return f.clo[name]
            last = f
            f = f.parent
        if name == '__class__' and fr.cls is not None:
            return fr.cls
        g = last.globs
        gv = self.st.get(('G', id(g), name), UNBOUND)
        if gv is not UNBOUND:
            return gv
        if name in g:
            return self.native(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def native(self, v):
        return v

    def store_name(self, fr: Frame, name, v):
        f = fr
        while f is not None:
            if name in f.names:
                self.st[('L', f.id, name)] = v
                return
            f = f.parent
        # global declaration
        self.st[('G', id(fr.globs), name)] = v

    # ---------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        if isinstance(f, Opt):
            if not branch(f.cond): raise PyRaise(TypeError("'NoneType' object is not callable"))
            f = f.val
        args = list(args); kwargs = dict(kwargs or {})
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('step budget')
        if isinstance(f, BoundM):
            return self.call_bound(f, args, kwargs)
        if isinstance(f, HostFn):
            return f.h(self, args, kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            return self.call_native_function(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.call_classv(f, args, kwargs)
        try:
            h = BUILTINS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, (Inst, SObj)):
            m = self.getattr(f, '__call__', None)
            if m is not None:
                return self.call(m, args, kwargs)
        if isinstance(f, (SObj, Opaque, SAny)):
            h = ATTRS.get(('call', getattr(f, 'what', None)))
            if h:
                return h(self, f, args, kwargs)
        # native call on fully native arguments of whitelisted pure callables
        if self.is_native(args) and self.is_native(list(kwargs.values())) and self.pure_native(f):
            try:
                return f(*args, **kwargs)
            except Exception as e:
                raise PyRaise(e)
        raise Unsupported(f'call of {f!r}')

    def call_classv(self, f, args, kwargs):
        h = CLASSCALL.get(f.bound)
        if h is not None:
            r = h(self, args, kwargs, f)
            if r is not NOT:
                return r
        raise Unsupported('construction of a symbolic class')

    def pure_native(self, f):
        m = getattr(f, '__module__', None)
        self_ = getattr(f, '__self__', None)
        if isinstance(f, types.BuiltinFunctionType) or isinstance(f, (types.MethodWrapperType, types.WrapperDescriptorType, types.MethodDescriptorType)):
            if m in ('builtins', None) or isinstance(self_, (str, int, float, tuple, frozenset)):
                return not isinstance(self_, (list, dict, set, types.ModuleType)) or (
                    isinstance(self_, (dict,)) and f.__name__ in ('get', 'keys', 'items', 'values', 'copy')) or (
                    isinstance(self_, types.ModuleType) and f.__name__ not in ('print', 'open', 'exec', 'eval', 'input', 'setattr', '__import__'))
        return False

    def is_native(self, v):
        if isinstance(v, V) or v is UNBOUND:
            return False
        if isinstance(v, (list, tuple)):
            return all(self.is_native(x) for x in v)
        if isinstance(v, dict):
            return all(self.is_native(x) for x in v.values())
        return True

    def contract_for(self, f):
        if f in self.active_contract_off:
            return None
        return self.local_contracts.get(f) or CONTRACTS.get(f)

    def call_native_function(self, f, args, kwargs, cls=None):
        h = self.contract_for(f)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NOT:
                core.TRACE['assumed'].add(f'{f.__module__}.{f.__qualname__}')
                return r
        if f.__code__ is _CM_CODE and hasattr(f, '__wrapped__'):
            return View('cm', (f.__wrapped__, args, kwargs))
        h = BUILTINS.get(f)
        if h is not None:
            return h(self, args, kwargs)
        mod = f.__module__ or ''
        if hasattr(f, '__wrapped__') and f.__code__.co_name == 'wrapper' and not mod.startswith('jschon'):
            raise Unsupported(f'decorated {f!r}')
        if not (mod.startswith('jschon') or mod in ('_collections_abc', 'collections.abc', 'abc') or mod.startswith('contracts') or f.__globals__.get('__pyvc__')):
            if self.is_native(args) and self.is_native(list(kwargs.values())) and (mod in PURE_MODULES):
                try:
                    return f(*args, **kwargs)
                except Exception as e:
                    raise PyRaise(e)
            raise Unsupported(f'external function {mod}.{f.__qualname__}')
        node = func_ast(f)
        if mod.startswith('jschon'): core.TRACE['verified'].add(f'{mod}.{f.__qualname__}')
        clo = None
        if f.__closure__:
            clo = {}
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    clo[n] = c.cell_contents
                except ValueError:
                    pass
        fv = FuncV(node, None, f.__globals__, f.__qualname__, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), None, fn=f)
        for h in core.CUR.opts.get('funcv_hooks', []) if mod.startswith('jschon') else ():
            r = h(self, fv, args, kwargs)
            if r is not NOT:
                return r
        return self.run(fv, args, kwargs, clo)

    def call_func(self, fv: FuncV, args, kwargs):
        for h in core.CUR.opts.get('funcv_hooks', []):
            r = h(self, fv, args, kwargs)
            if r is not NOT:
                return r
        return self.run(fv, args, kwargs, None)

    def bind(self, fv, args, kwargs, fr):
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(pos):
                vals[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            raise PyRaise(TypeError(f'{fv.name}() takes {len(pos)} positional arguments'))
        extra = {}
        kwn = set(pos[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in kwn:
                if k in vals:
                    raise PyRaise(TypeError(f'{fv.name}() got multiple values for {k}'))
                vals[k] = v
            else:
                extra[k] = v
        if '**' in extra and not a.kwarg:
            raise Unsupported('unknown ** arguments of a function without **')
        if '**' in extra and len(extra) > 1:
            extra.pop('**'); kwargs = dict(kwargs); d = kwargs['**']
            if not (isinstance(d, Cont) and d.kind == 'dict'): raise Unsupported('names beside an unknown ** argument')
            kwargs['**'] = self.new_cont('dict', Seq(self.content(d).parts + lits(list(extra.items())).parts))
        if extra and not a.kwarg:
            raise PyRaise(TypeError(f'{fv.name}() got an unexpected keyword argument {list(extra)[0]!r}'))
        nd = len(fv.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[n] = fv.defaults[j]
                else:
                    raise PyRaise(TypeError(f'{fv.name}() missing argument {n!r}'))
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in fv.kwdefaults:
                    vals[x.arg] = fv.kwdefaults[x.arg]
                elif '**' in kwargs:
                    raise Unsupported(f'{fv.name}(**unknown)')
                else:
                    raise PyRaise(TypeError(f'{fv.name}() missing keyword argument {x.arg!r}'))
        if a.vararg:
            if len(rest) == 1 and isinstance(rest[0], _Star):
                vals[a.vararg.arg] = View('seq', None, rest[0].seq)
            elif any(isinstance(r, _Star) for r in rest):
                s = EMPTY
                for r in rest:
                    s = s + (r.seq if isinstance(r, _Star) else lits([r]))
                vals[a.vararg.arg] = View('seq', None, s)
            else:
                vals[a.vararg.arg] = tuple(rest)
        if any(isinstance(v, _Star) for v in vals.values()):
            raise Unsupported('symbolic star argument')
        if a.kwarg:
            if '**' in kwargs:
                vals[a.kwarg.arg] = kwargs['**']
                extra.pop('**', None)
            else:
                vals[a.kwarg.arg] = self.new_cont('dict', lits([(k, v) for k, v in extra.items()]))
        for k, v in vals.items():
            self.st[('L', fr.id, k)] = v

    def run(self, fv: FuncV, args, kwargs, clo, yield_hook=None):
        node = fv.node
        if len(self.stack) > self.maxdepth:
            raise Unsupported('call depth')
        names, globs = locals_of(node)
        fr = Frame(self.new_id('f'), names, fv.frame, fv.globs, fv)
        fr.clo = clo
        key = fv.fn or node
        if sum(1 for k in self.stack if k is key) >= 3:
            raise Unsupported(f'unbounded recursion in {fv.name}')
        self.bind(fv, args, kwargs, fr)
        self.stack.append(key)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            gen = is_generator(node)
            if gen and yield_hook is None:
                fr.yields = self.new_cont('list')
            fr.yield_hook = yield_hook
            try:
                self.block(node.body, fr)
                ret = None
            except ReturnSig as r:
                ret = r.v
            if gen and yield_hook is None:
                return GenV(self.content(fr.yields))
            return ret
        finally:
            self.stack.pop()

    def call_bound(self, b: BoundM, args, kwargs):
        if isinstance(b.fn, HostFn):
            return b.fn.h(self, [b.self] + args, kwargs)
        return self.call(b.fn, [b.self] + args, kwargs)

    def construct(self, cls, args, kwargs):
        h = CLASSCALL.get(cls)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NOT:
                return r
        h = BUILTINS.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        if issubclass(cls, BaseException):
            o = self.alloc_inst(cls)
            self.set_field(o, 'args', tuple(args))
            return o
        new = inspect.getattr_static(cls, '__new__', None)
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType):
            o = self.call(new, [cls] + list(args), kwargs)
        elif cls.__module__ in ('builtins',) or cls.__new__ is not object.__new__:
            if self.is_native(args) and self.is_native(list(kwargs.values())) and cls.__module__ in ('builtins', 'collections', 'enum', 'types'):
                try:
                    return cls(*args, **kwargs)
                except Exception as e:
                    raise PyRaise(e)
            raise Unsupported(f'construct {cls}')
        else:
            o = self.alloc_inst(cls)
        if isinstance(o, Inst) and issubclass(o.cls, cls):
            init = inspect.getattr_static(cls, '__init__', None)
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs)
        return o

    # ---------------------------------------------------------- attributes
    def class_of(self, v):
        if isinstance(v, Inst): return v.cls
        if isinstance(v, SObj): return v.cls
        if isinstance(v, (SStr,)): return str
        if isinstance(v, SInt): return int
        if isinstance(v, SBool): return bool
        if isinstance(v, Cont): return dict(list=list, dict=dict, set=set, deque=collections.deque)[v.kind]
        if isinstance(v, JList): return list
        if isinstance(v, JDict): return dict
        if isinstance(v, View):
            return tuple if v.kind == 'seq' else slice if v.kind == 'slice' else list if v.kind == 'list' else object
        if isinstance(v, V): return None
        return type(v)

    def getattr(self, o, name, default=UNBOUND):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not UNBOUND and issubclass(exc_class(e.exc), AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, SAny):
            o = self.narrow(o)
        if isinstance(o, Opt):
            if branch(o.cond):
                return self._getattr(o.val, name)
            o = None
        if isinstance(o, Ite):
            return self._getattr(o.a if branch(o.cond) else o.b, name)
        if isinstance(o, SuperV):
            mro = self.class_of(o.obj).__mro__ if not isinstance(o.obj, type) else o.obj.__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind_attr(o.obj, c.__dict__[name], name, c)
            raise PyRaise(AttributeError(name))
        if isinstance(o, Inst):
            for c in o.cls.__mro__:
                if (c, name, 'get') in ATTRS:
                    return ATTRS[(c, name, 'get')](self, o)
            v = UNBOUND
            d = self.static_attr(o.cls, name)
            if isinstance(d, property):
                return self.bind_attr(o, d, name, o.cls)
            v = self.get_field(o, name)
            if v is not UNBOUND:
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return View('attributes', o)
            if d is not UNBOUND:
                return self.bind_attr(o, d, name, o.cls)
            lazy = self.st.get(('Z', o.id))
            if lazy is not None:
                r = lazy(self, o, name)
                if r is not NOT:
                    self.st[('F', o.id, name)] = r
                    return r
            raise PyRaise(AttributeError(name))
        if isinstance(o, SObj):
            hv = self.heap_get(o, name)
            if hv is not NOT:
                return hv
            for c in o.cls.__mro__:
                h = ATTRS.get((c, name))
                if h is not None:
                    r = h(self, o)
                    if r is not NOT:
                        return r
            if name == '__class__':
                return ClassV(zfn('classof', U, U)(o.t), o.cls) if not o.exact else o.cls
            if name == '__dict__':
                return View('attributes', o)
            d = self.static_attr(o.cls, name)
            if d is not UNBOUND:
                return self.bind_attr(o, d, name, o.cls)
            raise PyRaise(AttributeError(name)) if o.exact else Unsupported(f'attribute {o.cls.__name__}.{name} of a symbolic object')
        if isinstance(o, (Cont, GenV, View, JList, JDict, SStr, SInt, SNum, SBool, SFrac, Seq)):
            k = host_kind(o)
            h = METHODS.get((k, name))
            if h is not None:
                return BoundM(o, HostFn(lambda itp, a, kw, h=h: h(itp, a[0], a[1:], kw), name), name)
            if isinstance(o, SStr):
                raise Unsupported(f'str.{name} of a symbolic string')
            c = self.class_of(o)
            if c is not None and c is not object and hasattr(c, name):
                raise Unsupported(f'{k}.{name}')
            raise PyRaise(AttributeError(name))
        if isinstance(o, ClassV):
            if name in o.attrs:
                return o.attrs[name]
            h = ATTRS.get(('class', o.bound, name))
            if h is not None:
                return h(self, o)
            d = self.static_attr(o.bound, name)
            if isinstance(d, classmethod): return BoundM(o, d.__func__, name)
            if isinstance(d, staticmethod): return d.__func__
            raise Unsupported(f'attribute {name} of a symbolic class')
        if isinstance(o, Opaque):
            h = ATTRS.get(('opaque', o.what, name)) or ATTRS.get(('opaque', o.what))
            if h is not None:
                return h(self, o, name) if ATTRS.get(('opaque', o.what, name)) is None else h(self, o)
            raise Unsupported(f'attribute {name} of opaque {o.what}')
        if isinstance(o, (FuncV, BoundM, HostFn)):
            if name in ('__name__', '__qualname__'):
                return getattr(o, 'name', '?')
            raise Unsupported(f'attribute {name} of function')
        if isinstance(o, types.ModuleType):
            key = ('M', o.__name__, name)
            if key in self.st:
                return self.st[key]
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyRaise(e)
        if isinstance(o, type):
            v = self.st.get(('K', o, name), UNBOUND)
            if v is not UNBOUND:
                return v
            h = ATTRS.get(('K', o, name))
            if h is not None:
                return h(self, o)
            d = UNBOUND
            for c in o.__mro__:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    break
            if isinstance(d, classmethod):
                return BoundM(o, d.__func__, name)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, types.FunctionType):
                return d
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyRaise(e)
        # native instance
        d = self.static_attr(type(o), name)
        if isinstance(d, types.FunctionType):
            own = getattr(o, '__dict__', {})
            if name not in own:
                return BoundM(o, d, name)
        if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and (d.fget.__module__ or '').startswith('jschon'):
            return self.call(d.fget, [o])
        h = METHODS.get((type(o).__name__, name)) if not isinstance(o, V) else None
        if h is not None:
            return BoundM(o, HostFn(lambda itp, a, kw, h=h: h(itp, a[0], a[1:], kw), name), name)
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise PyRaise(e)

    def static_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return UNBOUND

    def bind_attr(self, o, d, name, cls):
        if isinstance(d, property):
            return self.call(d.fget, [o])
        if isinstance(d, functools.cached_property):
            r = self.call(d.func, [o])
            # a getter under contract: the contract says what the property is each time
            if isinstance(o, Inst) and d.func not in CONTRACTS:
                self.set_field(o, name, r)
            return r
        if isinstance(d, types.FunctionType):
            return BoundM(o, d, name)
        if isinstance(d, classmethod):
            return BoundM(self.class_of(o) if not isinstance(o, type) else o, d.__func__, name)
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
            h = BUILTINS.get(d)
            if h is not None:
                return BoundM(o, HostFn(h, name), name)
            raise Unsupported(f'builtin method {name} on {o!r}')
        if isinstance(d, types.MemberDescriptorType) or isinstance(d, types.GetSetDescriptorType):
            raise Unsupported(f'descriptor {name}')
        return d

    def setattr(self, o, name, v):
        if isinstance(o, Opt):
            if branch(o.cond):
                return self.setattr(o.val, name, v)
            raise PyRaise(AttributeError(name))
        if isinstance(o, SAny):
            o = self.narrow(o)
        if isinstance(o, Inst):
            d = self.static_attr(o.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    raise PyRaise(AttributeError(name))
                self.call(d.fset, [o, v])
                return
            for c in o.cls.__mro__:
                if (c, name, 'set') in ATTRS:
                    return ATTRS[(c, name, 'set')](self, o, v)
            self.set_field(o, name, v)
            return
        if isinstance(o, SObj):
            d = self.static_attr(o.cls, name)
            if isinstance(d, property) and (o.cls, name, 'set') not in ATTRS:
                if d.fset is None:
                    raise PyRaise(AttributeError(name))
                self.call(d.fset, [o, v])
                return
            for c in o.cls.__mro__:
                if (c, name, 'set') in ATTRS:
                    return ATTRS[(c, name, 'set')](self, o, v)
            return self.heap_set(o, name, v)
        if isinstance(o, type):
            self.st[('K', o, name)] = v
            return
        raise Unsupported(f'setattr on {o!r}')

    def delattr(self, o, name):
        if isinstance(o, Opt):
            if branch(o.cond): return self.delattr(o.val, name)
            raise PyRaise(AttributeError(name))
        if isinstance(o, Inst):
            d = self.static_attr(o.cls, name)
            if self.st.get(('F', o.id, name), UNBOUND) in (UNBOUND, DELETED):
                raise PyRaise(AttributeError(name))
            self.st[('F', o.id, name)] = DELETED
            return
        if isinstance(o, SObj):
            for c in o.cls.__mro__:
                if (c, name, 'del') in ATTRS:
                    return ATTRS[(c, name, 'del')](self, o)
        raise Unsupported(f'delattr {name} on {o!r}')

    # heap of SObj fields: a log of writes (Seq of (ref, value)), last wins
    def heap_get(self, o: SObj, name):
        log = self.st.get(('H', name))
        if log is None:
            return NOT
        return self.heap_log_read(log, o.t, lambda: NOT)

    def heap_log_read(self, log: Seq, t, base):
        for p in reversed(log.parts):
            if isinstance(p, Lit):
                tt, v = p.v
                if branch(tt.t == t):
                    return v
            elif isinstance(p, Map):
                v = freshvar('h')
                alts = inst_part(p, v)
                conds = []
                for g, sub in alts:
                    for q in sub.parts:
                        if not isinstance(q, Lit):
                            raise Unsupported('nested heap write')
                        conds.append((And(g, q.v[0].t == t), q.v[1]))
                w = fresh('hw', I)
                if core.CUR.idx and core.entails(Subst([(v, w)]).z(Not(And(rng(v, p.n), Or(*[c for c, _ in conds])))), 1000): continue
                ex = core.Exists([v], And(rng(v, p.n), Or(*[c for c, _ in conds])))
                if branch(ex):
                    k = fresh('hk', I)
                    s = Subst([(v, k)])
                    assume(rng(k, p.n), s.z(Or(*[c for c, _ in conds])))
                    for c, val in reversed(conds):
                        if branch(s.z(c)):
                            return s(val)
                    raise Infeasible()
            else:
                o = core.CUR.opts
                if not (o.get('acc_probe') and isinstance(p, Opq)): raise Unsupported('opaque heap write')
                o['acc_hit'].add(p.name)
        return base()

    def heap_set(self, o: SObj, name, v):
        log = self.st.get(('H', name), EMPTY)
        self.st[('H', name)] = Seq(log.parts + (Lit((o, v)),))

    # ---------------------------------------------------------- kinds
    def narrow(self, v):
        """decide the kind of a dynamic value"""
        if not isinstance(v, SAny):
            return v
        t = v.t
        for h in core.CUR.opts.get('narrow_facts', ()):
            f = h(t)
            if f is not None: assume(f)
        for k, mk in ((core.NONE, lambda: None), (core.STR, lambda: SStr(t)), (core.INT, lambda: SInt(unboxI(t))),
                      (core.BOOL, lambda: SBool(t == U_TRUE))):
            if branch(kind(t) == k):
                if k == core.NONE:
                    assume(t == U_NONE)
                if k == core.BOOL:
                    assume(Or(t == U_TRUE, t == U_FALSE))
                if k == core.INT:
                    assume(boxI(unboxI(t)) == t)
                return mk()
        h = ATTRS.get('narrow')
        if h:
            r = h(self, v)
            if r is not NOT:
                return r
        return Opaque(t, 'any')

    def to_u(self, v):
        if v is None: return U_NONE
        if v is True: return U_TRUE
        if v is False: return U_FALSE
        if isinstance(v, int):
            t = boxI(z3.IntVal(v)); assume(unboxI(t) == v, kind(t) == core.INT); return t
        if isinstance(v, str):
            t = strlit(v); assume(kind(t) == core.STR); return t
        if isinstance(v, (SStr, SAny, SObj, Opaque)): return v.t
        if isinstance(v, ClassV): return v.t
        if isinstance(v, SInt):
            t = boxI(v.t); assume(unboxI(t) == v.t, kind(t) == core.INT); return t
        if isinstance(v, SBool): return z3.If(v.t, U_TRUE, U_FALSE)
        if isinstance(v, SNum):
            t = zfn('boxN', R, B, U)(v.t, v.isint); return t
        if isinstance(v, Opt): return z3.If(v.cond, self.to_u(v.val), U_NONE)
        if isinstance(v, Ite): return z3.If(v.cond, self.to_u(v.a), self.to_u(v.b))
        if isinstance(v, tuple):
            us = [self.to_u(x) for x in v]
            return zfn(f'tuple{len(us)}', *([U] * len(us)), U)(*us) if us else z3.Const('tuple0', U)
        if isinstance(v, (Inst, Cont)):
            if v.idxs:
                return zfn(f'ref:{v.id}', *([I] * len(v.idxs)), U)(*v.idxs)
            return z3.Const(f'ref:{v.id}', U)
        if isinstance(v, float):
            return z3.Const(f'float:{v!r}', U)
        if isinstance(v, type):
            return z3.Const(f'class:{v.__module__}.{v.__qualname__}', U)
        h = ATTRS.get('to_u')
        if h:
            r = h(self, v)
            if r is not NOT: return r
        if isinstance(v, JList) or isinstance(v, JDict):
            return zfn('data_of', U, U)(v.r)
        if isinstance(v, (View, GenV, BoundM, FuncV, HostFn, Seq)):
            return fresh('u', U)
        return z3.Const(f'native:{type(v).__name__}:{id(v)}', U)

    def truth(self, v):
        """condition (z3 / bool) under which v is truthy"""
        if isinstance(v, SBool): return v.t
        if isinstance(v, SInt): return v.t != 0
        if isinstance(v, (SNum, SFrac)): return v.t != 0
        if isinstance(v, SStr): return v.t != strlit('')
        if isinstance(v, Opt):
            inner = self.truth(v.val)
            return And(v.cond, inner) if inner is not True else v.cond
        if isinstance(v, Ite):
            return z3.If(v.cond, tb(self.truth(v.a)), tb(self.truth(v.b)))
        if isinstance(v, SAny):
            return self.truth(self.narrow(v))
        if isinstance(v, Cont):
            if v.kind == 'dict':
                return self.dict_nonempty(v)
            return seq_nonempty(self.content(v))
        if isinstance(v, JList): return zint(self.length(v)) > 0
        if isinstance(v, JDict): return zint(self.length(v)) > 0
        if isinstance(v, View):
            if v.seq is not None: return seq_nonempty(v.seq)
            return zint(self.length(v)) > 0
        if isinstance(v, GenV): return True
        if isinstance(v, (FuncV, BoundM, HostFn, ClassV)): return True
        if isinstance(v, Opaque):
            if v.what in ('plain', 'pyvalue', 'jsonvalue'): return zfn('truthy', U, B)(v.t)
            return fresh('truth', B) if v.what == 'any' else True
        if isinstance(v, (Inst, SObj)):
            c = v.cls
            for nm in ('__bool__', '__len__'):
                d = self.static_attr(c, nm)
                if d is not UNBOUND:
                    r = self.call(BoundM(v, d, nm))
                    return self.truth(r)
            return True
        if isinstance(v, tuple): return bool(v)
        return bool(v)

    def test(self, v) -> bool:
        return branch(self.truth(v))

    def dict_nonempty(self, c):
        s = self.content(c)
        if any(isinstance(p, Opq) for p in s.parts):
            return fresh('nonempty', B)
        return seq_nonempty(s)

    def length(self, v):
        if isinstance(v, Cont):
            s = self.content(v)
            if v.kind == 'set':
                if not s.parts: return 0
                if self.distinct_seq(s): return seq_len(s)
                n = fresh('setlen', I); assume(n >= 0, (n > 0) == seq_nonempty(s)); return SInt(n)
            if v.kind == 'dict' and len(s.parts) > 1:
                n = fresh('dictlen', I); assume(n >= 0, (n > 0) == self.dict_nonempty(v)); return SInt(n)
            return seq_len(s)
        if isinstance(v, View) and v.seq is not None:
            return seq_len(v.seq)
        if isinstance(v, View) and v.obj is not None:
            return self.length(v.obj)
        if isinstance(v, GenV):
            raise PyRaise(TypeError('object of type generator has no len()'))
        if isinstance(v, Opt):
            if branch(v.cond): return self.length(v.val)
            raise PyRaise(TypeError('len of None'))
        if isinstance(v, SAny):
            return self.length(self.narrow(v))
        h = METHODS.get((host_kind(v), '__len__'))
        if h is not None:
            return h(self, v, [], {})
        if isinstance(v, (Inst, SObj)):
            d = self.static_attr(v.cls, '__len__')
            if d is not UNBOUND:
                return self.call(BoundM(v, d, '__len__'))
            raise PyRaise(TypeError('no len'))
        if isinstance(v, V):
            if not isinstance(v, (SInt, SNum, SBool, SFrac)):
                raise Unsupported(f'len() of {v!r}')
            raise PyRaise(TypeError(f'object has no len(): {v!r}'))
        try:
            return len(v)
        except TypeError as e:
            raise PyRaise(e)

    def distinct_seq(self, s):
        if len(s.parts) <= 1 and all(isinstance(p, Lit) for p in s.parts):
            return True
        return False

    # ---------------------------------------------------------- iteration
    def iterate(self, v) -> Seq:
        if isinstance(v, Seq): return v
        if isinstance(v, GenV):
            if v.used: raise Unsupported('iterator consumed twice')
            v.used = True
            return v.seq
        if isinstance(v, SAny):
            return self.iterate(self.narrow(v))
        if isinstance(v, Opt):
            if branch(v.cond): return self.iterate(v.val)
            raise PyRaise(TypeError("'NoneType' object is not iterable"))
        if isinstance(v, Cont):
            s = self.content(v)
            if v.kind == 'dict':
                self.check_dict_keys_unique(s)
                return seq_map(s, lambda kv: kv[0])
            if v.kind == 'set' and not all(isinstance(p, Lit) for p in s.parts):
                return s
            return s
        if isinstance(v, View):
            if v.seq is not None: return v.seq
            if v.kind == 'keys': return self.iterate(v.obj)
            if v.kind in ('values', 'items'):
                if isinstance(v.obj, Cont):
                    s = self.content(v.obj)
                    self.check_dict_keys_unique(s)
                    return seq_map(s, (lambda kv: kv[1]) if v.kind == 'values' else (lambda kv: kv))
        h = METHODS.get((host_kind(v), '__iter__'))
        if h is not None:
            return h(self, v, [], {})
        if isinstance(v, (Inst, SObj)):
            d = self.static_attr(v.cls, '__iter__')
            if d is not UNBOUND and d is not None:
                r = self.call(BoundM(v, d, '__iter__'))
                return self.iterate(r)
            if self.static_attr(v.cls, '__getitem__') is not UNBOUND:
                raise Unsupported('iteration by __getitem__')
            raise PyRaise(TypeError(f'{v.cls.__name__} is not iterable'))
        if isinstance(v, V):
            if not isinstance(v, (SInt, SNum, SBool, SFrac)):
                raise Unsupported(f'iteration of {v!r}')
            raise PyRaise(TypeError(f'not iterable: {v!r}'))
        if isinstance(v, (list, tuple, str, range, dict, set, frozenset)) or isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            if isinstance(v, (set, frozenset)):
                try:
                    return lits(sorted(v))
                except TypeError:
                    return lits(v)
            return lits(v)
        if isinstance(v, (int, float, type(None), bool)):
            raise PyRaise(TypeError(f'{v!r} is not iterable'))
        try:
            return lits(list(v))
        except TypeError as e:
            raise PyRaise(e)

    def check_dict_keys_unique(self, s):
        if len(s.parts) > 1:
            ks = [p.v[0] for p in s.parts if isinstance(p, Lit)]
            if len(ks) == len(s.parts) and all(isinstance(k, str) for k in ks) and len(set(ks)) == len(ks):
                return
            core.CUR.opts.setdefault('dict_key_assumptions', set()).add('dict iteration assumes distinct keys')

    # ---------------------------------------------------------- equality
    def is_(self, a, b):
        if isinstance(a, Ite): return z3.If(a.cond, tb(self.is_(a.a, b)), tb(self.is_(a.b, b)))
        if isinstance(b, Ite): return self.is_(b, a)
        if a is None or b is None:
            x = b if a is None else a
            if x is None: return True
            if isinstance(x, Opt): return Or(Not(x.cond), self.is_(x.val, None))
            if isinstance(x, SAny): return x.t == U_NONE
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            c, x = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(x, bool): return x is c
            if isinstance(x, SBool): return x.t if c else Not(x.t)
            if isinstance(x, SAny): return x.t == (U_TRUE if c else U_FALSE)
            if isinstance(x, Opt): return And(x.cond, self.is_(x.val, c))
            return False
        if isinstance(a, SObj) and isinstance(b, SObj): return a.t == b.t
        if isinstance(a, (Inst, Cont)) and isinstance(b, (Inst, Cont)):
            if a.id != b.id: return False
            return And(*[x == y for x, y in zip(a.idxs, b.idxs)])
        if isinstance(a, Opt) or isinstance(b, Opt):
            o, x = (a, b) if isinstance(a, Opt) else (b, a)
            return And(o.cond, self.is_(o.val, x))
        if isinstance(a, (SObj, SAny, Opaque)) and isinstance(b, (SObj, SAny, Opaque)): return a.t == b.t
        if isinstance(a, (Inst, Cont)) or isinstance(b, (Inst, Cont)): return False if not isinstance(a, SObj) and not isinstance(b, SObj) else False
        if isinstance(a, ClassV) or isinstance(b, ClassV):
            return self.to_u(a) == self.to_u(b)
        if isinstance(a, SBool) and isinstance(b, SBool): return a.t == b.t
        if isinstance(a, (SStr, SInt, SBool)) or isinstance(b, (SStr, SInt, SBool)):
            # identity of immutable scalars: only sound as a sufficient test
            if type(a) is type(b) and a.t.eq(b.t): return True
            if (isinstance(a, SStr) or isinstance(b, SStr)) and self.class_of(a) is str and self.class_of(b) is str:
                return And(fresh('same', B), self.eq(a, b))
            return False if self.class_of(a) is not self.class_of(b) else And(fresh('same', B), self.eq(a, b))
        if isinstance(a, V) or isinstance(b, V): return a is b
        return a is b

    def eq(self, a, b):
        """condition of a == b"""
        if isinstance(a, Ite): return z3.If(a.cond, tb(self.eq(a.a, b)), tb(self.eq(a.b, b)))
        if isinstance(b, Ite): return z3.If(b.cond, tb(self.eq(a, b.a)), tb(self.eq(a, b.b)))
        if isinstance(a, Opt) or isinstance(b, Opt):
            o, x, fl = (a, b, 0) if isinstance(a, Opt) else (b, a, 1)
            if branch(o.cond):
                return self.eq(o.val, x) if not fl else self.eq(x, o.val)
            return self.eq(None, x) if not fl else self.eq(x, None)
        if isinstance(a, SAny) or isinstance(b, SAny):
            if isinstance(a, SAny) and isinstance(b, SAny):
                if a.t.eq(b.t): return True
            x, o = (a, b) if isinstance(a, SAny) else (b, a)
            if isinstance(o, (str, SStr)) : return x.t == self.to_u(o)
            if o is None: return x.t == U_NONE
            return self.eq(self.narrow(a) if isinstance(a, SAny) else a, self.narrow(b) if isinstance(b, SAny) else b)
        ca = self.class_of(a); cb = self.class_of(b)
        if isinstance(a, (Inst, SObj)) or isinstance(b, (Inst, SObj)):
            r = self.richcmp(a, b, '__eq__', '__eq__')
            if r is NotImplemented or r is NOT:
                return self.is_(a, b)
            return self.truth(r)
        num = (int, float, bool)
        def isnum(x): return isinstance(x, (SInt, SNum, SBool, SFrac)) or (not isinstance(x, V) and isinstance(x, num))
        if isnum(a) and isnum(b):
            if not isinstance(a, V) and not isinstance(b, V): return a == b
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return tb(a.t if isinstance(a, SBool) else a) == tb(b.t if isinstance(b, SBool) else b)
            return num_term(a) == num_term(b) if not both_int(a, b) else zint(a) == zint(b)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if ca is str and cb is str:
                return self.to_u(a) == self.to_u(b)
            if isinstance(a, Opaque) or isinstance(b, Opaque): return self.to_u(a) == self.to_u(b)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if not isinstance(a, V) and not isinstance(b, V):
            return bool(a == b)
        if isinstance(a, JDict) and isinstance(b, JDict):
            at = METHODS[('JDict', '__getitem__')]
            return And(self.same_members(a, b), seq_forall(self.iterate(a), lambda k: self.eq(METHODS['jdict_at'](self, a, k), METHODS['jdict_at'](self, b, k))))
        if isinstance(a, (Cont, View, GenV, JList, tuple, list)) and isinstance(b, (Cont, View, GenV, JList, tuple, list)):
            return self.container_eq(a, b)
        if isinstance(a, (ClassV, type)) and isinstance(b, (ClassV, type)):
            return self.to_u(a) == self.to_u(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.t.eq(b.t): return True
            return zfn('opq_eq', U, U, B)(self.to_u(a), self.to_u(b))
        if a is None or b is None: return False
        if ca is not None and cb is not None and ca is not cb and not (isinstance(a, V) and isinstance(b, V) and (issubclass(ca, cb) or issubclass(cb, ca))):
            return False
        raise Unsupported(f'== of {a!r} and {b!r}')

    def container_eq(self, a, b):
        ka, kb = self.class_of(a), self.class_of(b)
        h = ATTRS.get('container_eq')
        if h is not None:
            r = h(self, a, b)
            if r is not NOT:
                return r
        if isinstance(a, View) and a.kind == 'keys' or isinstance(b, View) and b.kind == 'keys':
            if not all(isinstance(x, View) and x.kind == 'keys' or isinstance(x, Cont) and x.kind == 'set' for x in (a, b)):
                if all(isinstance(x, (View, Cont, JList, tuple, list)) and (not isinstance(x, View) or x.kind in ('keys', 'values', 'items')) for x in (a, b)): return False
                raise Unsupported('== of a key view')
            return self.same_members(a, b)
        if isinstance(a, View) and a.kind in ('items', 'values') or isinstance(b, View) and b.kind in ('items', 'values'):
            raise Unsupported('== of a view')
        if isinstance(a, Cont) and a.kind == 'set' or isinstance(b, Cont) and b.kind == 'set':
            if ka is not kb: return False
            sa, sb = self.content(a), self.content(b)
            return And(seq_forall(sa, lambda x: seq_exists(sb, lambda y: self.eq(x, y))),
                       seq_forall(sb, lambda x: seq_exists(sa, lambda y: self.eq(x, y))))
        if isinstance(a, Cont) and a.kind == 'dict' or isinstance(b, Cont) and b.kind == 'dict':
            raise Unsupported('dict ==')
        if ka is not kb: return False
        return self.seq_eq(self.iterate(a), self.iterate(b))

    def same_members(self, a, b):
        return And(seq_forall(self.iterate(a), lambda x: tb(self.member(x, b))), seq_forall(self.iterate(b), lambda x: tb(self.member(x, a))))

    def seq_eq(self, sa: Seq, sb: Seq):
        """sequence equality (exact for literal/pure sequences)"""
        if all(isinstance(p, Lit) for p in sa.parts) and all(isinstance(p, Lit) for p in sb.parts):
            if len(sa.parts) != len(sb.parts): return False
            return And(*[self.eq(x.v, y.v) for x, y in zip(sa.parts, sb.parts)])
        # strip common literal prefix
        pa, pb = list(sa.parts), list(sb.parts)
        conj = []
        while pa and pb and isinstance(pa[0], Lit) and isinstance(pb[0], Lit):
            conj.append(self.eq(pa.pop(0).v, pb.pop(0).v))
        suf = []
        while pa and pb and isinstance(pa[-1], Lit) and isinstance(pb[-1], Lit):
            suf.append(self.eq(pa.pop().v, pb.pop().v))
        sa, sb = Seq(pa), Seq(pb)
        if not pa and not pb:
            return And(*(conj + suf))
        ua, ub = as_pure(sa), as_pure(sb)
        if ua is None or ub is None:
            if not pa: return And(*(conj + suf + [Not(seq_nonempty(sb))]))
            if not pb: return And(*(conj + suf + [Not(seq_nonempty(sa))]))
            r = self.general_seq_eq(sa, sb)
            return And(*(conj + suf + [r]))
        (n, fa), (m, fb) = ua, ub
        v = freshvar('q')
        return And(*(conj + suf + [n == m, core.ForAll([v], Implies(rng(v, n), tb(self.eq(fa(v), fb(v)))))]))

    def general_seq_eq(self, sa, sb):
        """position-indexed equality of concatenations of pure parts"""
        def flat(s):
            offs = []; off = z3.IntVal(0)
            for p in map(purify, s.parts):
                if isinstance(p, Lit):
                    offs.append((off, z3.IntVal(1), (lambda i, p=p: p.v))); off = off + 1
                elif is_pure(p):
                    nn = z3.If(p.n >= 0, p.n, z3.IntVal(0))
                    offs.append((off, nn, (lambda i, p=p: Subst([(p.var, i)])(p.alts[0][1].parts[0].v)))); off = off + nn
                else:
                    raise Unsupported('== of filtered sequences')
            return offs, z3.simplify(off)
        oa, la = flat(sa); ob, lb = flat(sb)
        v = freshvar('q')
        conj = [la == lb]
        for (o1, n1, f1) in oa:
            for (o2, n2, f2) in ob:
                g = And(v >= o1, v < o1 + n1, v >= o2, v < o2 + n2)
                conj.append(core.ForAll([v], Implies(g, tb(self.eq(f1(z3.simplify(v - o1)), f2(z3.simplify(v - o2)))))))
        return And(*conj)

    def richcmp(self, a, b, op, rop):
        """Python rich comparison protocol; returns value or NotImplemented"""
        ca, cb = self.class_of(a), self.class_of(b)
        tried = []
        order = [(a, b, op), (b, a, rop)]
        if isinstance(ca, type) and isinstance(cb, type) and ca is not cb and issubclass(cb, ca) and self.static_attr(cb, rop) is not self.static_attr(ca, rop):
            order.reverse()
        for x, y, o in order:
            if isinstance(x, (Inst, SObj)):
                d = self.static_attr(x.cls, o)
                if isinstance(d, types.FunctionType):
                    r = self.call(BoundM(x, d, o), [y])
                    if r is not NotImplemented:
                        return r
                elif o == '__ne__':
                    d = self.static_attr(x.cls, '__eq__')
                    if isinstance(d, types.FunctionType):
                        r = self.call(BoundM(x, d, '__eq__'), [y])
                        if r is not NotImplemented:
                            return mkbool(Not(self.truth(r)))
            elif isinstance(x, (set, frozenset)) and isinstance(y, V):
                pass
        return NotImplemented

    def member(self, x, c):
        """condition of `x in c`"""
        if isinstance(c, SAny): c = self.narrow(c)
        if isinstance(c, Opt):
            if branch(c.cond): return self.member(x, c.val)
            raise PyRaise(TypeError('argument of type NoneType is not iterable'))
        h = METHODS.get((host_kind(c), '__contains__'))
        if h is not None:
            return h(self, c, [x], {})
        if isinstance(c, (Inst, SObj)):
            d = self.static_attr(c.cls, '__contains__')
            if d is not UNBOUND:
                return self.truth(self.call(BoundM(c, d, '__contains__'), [x]))
        if isinstance(c, Cont) and c.kind == 'dict':
            return seq_exists(self.content(c), lambda kv: self.eq(kv[0], x))
        if isinstance(c, View) and c.kind == 'keys' and c.seq is None:
            return self.member(x, c.obj)
        if isinstance(c, str) or isinstance(c, SStr):
            if isinstance(c, str) and isinstance(x, str): return x in c
            return zfn('substr', U, U, B)(self.to_u(x), self.to_u(c))
        if self.is_native(c) and self.is_native(x):
            try:
                return x in c
            except TypeError as e:
                raise PyRaise(e)
        s = self.iterate(c)
        return seq_exists(s, lambda e: self.eq(e, x))

    # ---------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        if isinstance(a, SAny): a = self.narrow(a)
        if isinstance(b, SAny): b = self.narrow(b)
        if isinstance(a, Opt):
            a = a.val if branch(a.cond) else None
        if isinstance(b, Opt):
            b = b.val if branch(b.cond) else None
        names = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__', ast.Mod: '__mod__',
                 ast.BitOr: '__or__', ast.BitAnd: '__and__', ast.FloorDiv: '__floordiv__', ast.Pow: '__pow__'}
        nm = names.get(type(op))
        if nm is None:
            raise Unsupported(f'operator {op}')
        if isinstance(a, View) and ('view:' + a.kind, nm) in METHODS:
            return METHODS[('view:' + a.kind, nm)](self, a, [b], {})
        if isinstance(a, (Inst, SObj)) or isinstance(b, (Inst, SObj)):
            for x, y, m in ((a, b, nm), (b, a, '__r' + nm[2:])):
                if isinstance(x, (Inst, SObj)):
                    d = self.static_attr(x.cls, m)
                    if d is not UNBOUND:
                        r = self.call(BoundM(x, d, m), [y])
                        if r is not NotImplemented:
                            return r
            raise PyRaise(TypeError('unsupported operand'))
        if not isinstance(a, V) and not isinstance(b, V) and self.is_native(a) and self.is_native(b):
            if isinstance(op, ast.Mod) and isinstance(a, str):
                return a % b
            import operator
            f = {'__add__': operator.add, '__sub__': operator.sub, '__mul__': operator.mul, '__truediv__': operator.truediv,
                 '__mod__': operator.mod, '__or__': operator.or_, '__and__': operator.and_, '__floordiv__': operator.floordiv, '__pow__': operator.pow}[nm]
            try:
                r = f(a, b)
            except Exception as e:
                raise PyRaise(e)
            if isinstance(r, list): return self.new_cont('list', lits(r))
            return r
        def isnum(x): return isinstance(x, (SInt, SNum, SBool)) or (not isinstance(x, V) and isinstance(x, (int, float)))
        if isinstance(a, SFrac) or isinstance(b, SFrac):
            x, y = num_term(a), num_term(b)
            if nm == '__mod__':
                if branch(y == 0):
                    raise PyRaise(ZeroDivisionError())
                return SFrac(zfn('exact_mod', R, R, R)(x, y))
            if nm == '__truediv__':
                if branch(y == 0):
                    raise PyRaise(ZeroDivisionError())
                return SFrac(x / y)
            if nm == '__add__': return SFrac(x + y)
            if nm == '__sub__': return SFrac(x - y)
            if nm == '__mul__': return SFrac(x * y)
        if isnum(a) and isnum(b):
            if both_int(a, b):
                x, y = zint(a), zint(b)
                if nm == '__add__': return mkint(x + y)
                if nm == '__sub__': return mkint(x - y)
                if nm == '__mul__': return mkint(x * y)
                if nm in ('__mod__', '__floordiv__') and not isinstance(b, V) and b > 0:
                    return mkint(x % y if nm == '__mod__' else x / y)
                if nm == '__mod__': return mkint(zfn('int_mod', I, I, I)(x, y))
            h = METHODS.get(('num', nm))
            if h: return h(self, a, [b], {})
            raise Unsupported(f'float arithmetic {nm}')
        isstr = lambda x: isinstance(x, (str, SStr))
        if nm == '__add__' and isstr(a) and isstr(b):
            return self.fmt([a, b])
        if nm == '__mod__' and isstr(a):
            return self.opaque_str('pct', [a, b])
        isseq = lambda x: isinstance(x, (Cont, View, list, tuple)) and not (isinstance(x, Cont) and x.kind in ('dict', 'set'))
        if nm == '__add__' and isseq(a) and isseq(b):
            if self.class_of(a) is not self.class_of(b):
                raise PyRaise(TypeError('can only concatenate'))
            s = self.iterate(a) + self.iterate(b)
            if self.class_of(a) is tuple:
                if all(isinstance(p, Lit) for p in s.parts): return tuple(p.v for p in s.parts)
                return View('seq', None, s)
            return self.new_cont(a.kind if isinstance(a, Cont) else 'list', s)
        if nm in ('__or__', '__and__', '__sub__') and isinstance(a, (Cont, set, frozenset)) and isinstance(b, (Cont, set, frozenset)):
            return self.setop(nm, a, b)
        if nm == '__mul__' and isseq(a) and isinstance(b, int) and not isinstance(b, V):
            return self.new_cont('list', Seq(self.iterate(a).parts * max(b, 0)))
        plain = lambda x: x is None or isinstance(x, (SInt, SNum, SBool, int, float, str, SStr)) or isinstance(x, (list, tuple)) or (isinstance(x, Cont) and x.kind in ('list', 'dict'))
        if plain(a) and plain(b) and nm != '__mod__' and not (nm == '__or__' and self.class_of(a) is dict):
            raise PyRaise(TypeError(f'unsupported operand types for {nm}: {a!r}, {b!r}'))
        raise Unsupported(f'{nm} of {a!r} and {b!r}')

    def setop(self, nm, a, b):
        sa, sb = self.iterate(a), self.iterate(b)
        if nm == '__or__':
            return self.new_cont('set', sa + sb)
        filt = (lambda x: self.member(x, b)) if nm == '__and__' else (lambda x: Not(self.member(x, b)))
        return self.new_cont('set', self.seq_filter(sa, filt))

    def seq_filter(self, s: Seq, cond):
        """lazily filtered sequence (cond must not branch)"""
        out = []
        for p in s.parts:
            if isinstance(p, Lit):
                c = cond(p.v)
                if z3.is_expr(c) and c.num_args() and not z3.is_quantifier(c): c = z3.simplify(c) if z3.is_true(z3.simplify(c)) or z3.is_false(z3.simplify(c)) else c
                if c is True or (z3.is_expr(c) and z3.is_true(c)): out.append(p)
                elif c is False or (z3.is_expr(c) and z3.is_false(c)): pass
                else:
                    v = freshvar('_1')
                    out.append(Map(v, z3.IntVal(1), [(c, Seq([p]))]))
            elif isinstance(p, Map):
                alts = []
                for g, sub in p.alts:
                    if len(sub.parts) == 1 and isinstance(sub.parts[0], Lit):
                        alts.append((And(g, cond(sub.parts[0].v)), sub))
                    else:
                        alts.append((g, self.seq_filter(sub, cond)))
                out.append(Map(p.var, p.n, alts))
            else:
                raise Unsupported('filter of unknown sequence')
        return Seq(out)

    def compare(self, op, a, b):
        """-> condition or value"""
        if isinstance(op, ast.Is): return mkbool(self.is_(a, b))
        if isinstance(op, ast.IsNot): return mkbool(Not(self.is_(a, b)))
        if isinstance(op, ast.In): return mkbool(tb(self.member(a, b)))
        if isinstance(op, ast.NotIn): return mkbool(Not(self.member(a, b)))
        if isinstance(op, ast.Eq): return mkbool(tb(self.eq(a, b)))
        if isinstance(op, ast.NotEq):
            if isinstance(a, SObj) and ('ne', a.cls) in CONTRACTS: return CONTRACTS[('ne', a.cls)](self, a, b)
            if isinstance(a, (Inst, SObj)) and isinstance(self.static_attr(a.cls, '__ne__'), types.FunctionType):
                r = self.call(BoundM(a, self.static_attr(a.cls, '__ne__'), '__ne__'), [b])
                if r is not NotImplemented: return r
            return mkbool(Not(tb(self.eq(a, b))))
        nm, rn = {ast.Lt: ('__lt__', '__gt__'), ast.Gt: ('__gt__', '__lt__'), ast.LtE: ('__le__', '__ge__'), ast.GtE: ('__ge__', '__le__')}[type(op)]
        for _ in range(2):
            if isinstance(a, SAny): a = self.narrow(a)
            if isinstance(b, SAny): b = self.narrow(b)
            if isinstance(a, Opt): a = a.val if branch(a.cond) else None
            if isinstance(b, Opt): b = b.val if branch(b.cond) else None
        if isinstance(a, (Inst, SObj)) or isinstance(b, (Inst, SObj)):
            r = self.richcmp(a, b, nm, rn)
            if r is NotImplemented:
                raise PyRaise(TypeError('not orderable'))
            return r
        def isnum(x): return isinstance(x, (SInt, SNum, SBool, SFrac)) or (not isinstance(x, V) and isinstance(x, (int, float)))
        if isnum(a) and isnum(b):
            if not isinstance(a, V) and not isinstance(b, V):
                x, y = a, b
                return {'__lt__': a < b, '__gt__': a > b, '__le__': a <= b, '__ge__': a >= b}[nm]
            x, y = (zint(a), zint(b)) if both_int(a, b) else (num_term(a), num_term(b))
            return mkbool({'__lt__': x < y, '__gt__': x > y, '__le__': x <= y, '__ge__': x >= y}[nm])
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return {'__lt__': a < b, '__gt__': a > b, '__le__': a <= b, '__ge__': a >= b}[nm]
            lt = zfn('str_lt', U, U, B)
            x, y = self.to_u(a), self.to_u(b)
            c = {'__lt__': lambda: lt(x, y), '__gt__': lambda: lt(y, x), '__le__': lambda: Not(lt(y, x)), '__ge__': lambda: Not(lt(x, y))}[nm]()
            assume(Not(And(lt(x, y), lt(y, x))), Implies(x == y, Not(lt(x, y))), Or(x == y, lt(x, y), lt(y, x)))
            return mkbool(c)
        if not isinstance(a, V) and not isinstance(b, V) and self.is_native(a) and self.is_native(b):
            import operator
            try:
                return {'__lt__': operator.lt, '__gt__': operator.gt, '__le__': operator.le, '__ge__': operator.ge}[nm](a, b)
            except TypeError as e:
                raise PyRaise(e)
        def setlike(x):
            return isinstance(x, (set, frozenset)) or (isinstance(x, Cont) and x.kind == 'set') or (isinstance(x, View) and x.kind == 'keys') or isinstance(x, type({}.keys()))
        if setlike(a) and setlike(b):
            sub = lambda x, y: tb(seq_forall(self.iterate(x), lambda e: tb(self.member(e, y))))
            le, ge = sub(a, b), sub(b, a)
            return mkbool({'__le__': le, '__ge__': ge, '__lt__': And(le, Not(ge)), '__gt__': And(ge, Not(le))}[nm])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('ordering of opaque values')
        plain = lambda x: x is None or isnum(x) or isinstance(x, (str, SStr)) or isinstance(x, (list, tuple)) or (isinstance(x, Cont) and x.kind in ('list', 'dict'))
        if plain(a) and plain(b) and self.class_of(a) is not self.class_of(b):
            raise PyRaise(TypeError(f'not orderable {a!r} {b!r}'))
        raise Unsupported(f'ordering of {a!r} and {b!r}')

    # ---------------------------------------------------------- strings
    def str_parts(self, v):
        """parts (native str or U terms) of str(v)"""
        if isinstance(v, str): return [v]
        if isinstance(v, SStr):
            reg = core.CUR.opts.setdefault('cats', {})
            p = reg.get(v.t.get_id())
            return list(p[1]) if p else [v.t]
        if isinstance(v, SInt):
            return [self.istr(v.t)]
        if isinstance(v, SNum):
            return [zfn('numtext', R, B, U)(v.t, tb(v.isint))]
        if isinstance(v, SAny):
            return [zfn('strof', U, U)(v.t)]
        if isinstance(v, Opt) or isinstance(v, Ite):
            return [zfn('strof', U, U)(self.to_u(v))]
        if isinstance(v, (Inst, SObj)):
            h = CONTRACTS.get(('str', v.cls))
            if h is None:
                for c in v.cls.__mro__:
                    if ('str', c) in CONTRACTS:
                        h = CONTRACTS[('str', c)]; break
            if h is not None:
                r = h(self, v)
                if r is not NOT:
                    return self.str_parts(r)
            if isinstance(v, Inst) and core.CUR.opts.get('texts'):
                d = self.static_attr(v.cls, '__str__')
                if isinstance(d, types.FunctionType): return self.str_parts(self.call(d, [v]))
            return [zfn('strof', U, U)(self.to_u(v))]
        if isinstance(v, V):
            return [fresh('str', U)]
        try:
            return [str(v)]
        except Exception:
            return [fresh('str', U)]

    def istr(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            s = core.strlit(str(t.as_long()))
            assume(zfn('istr', I, U)(t) == s, zfn('str2int', U, I)(s) == t)
            return s
        s = zfn('istr', I, U)(t)
        assume(zfn('str2int', U, I)(s) == t, kind(s) == core.STR)
        return s

    def fmt(self, vals):
        parts = []
        for v in vals:
            for q in self.str_parts(v):
                if isinstance(q, str) and parts and isinstance(parts[-1], str):
                    parts[-1] += q
                elif q == '' if isinstance(q, str) else False:
                    pass
                else:
                    parts.append(q)
        if not parts: return ''
        if all(isinstance(q, str) for q in parts): return ''.join(parts)
        if len(parts) == 1: return SStr(parts[0])
        sig = '\x00'.join(q if isinstance(q, str) else '\x01' for q in parts)
        args = [q for q in parts if not isinstance(q, str)]
        t = zfn('cat:' + sig, *([U] * len(args)), U)(*args)
        core.CUR.opts.setdefault('cats', {})[t.get_id()] = (t, parts)
        assume(kind(t) == core.STR)
        return SStr(t)

    def opaque_str(self, name, args):
        return SStr(fresh('str_' + name, U))

    # ---------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('step budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        return m(s, fr)

    def s_Expr(self, s, fr): self.ev(s.value, fr)
    def s_Pass(self, s, fr): pass
    def s_Return(self, s, fr):
        raise ReturnSig(self.ev(s.value, fr) if s.value else None)
    def s_Break(self, s, fr): raise BreakSig()
    def s_Continue(self, s, fr): raise ContinueSig()
    def s_Global(self, s, fr): pass
    def s_Nonlocal(self, s, fr): pass
    def s_Assert(self, s, fr):
        if not self.test(self.ev(s.test, fr)):
            raise PyRaise(AssertionError())
    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        elif not isinstance(s.target, ast.Name):
            pass
    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            get = lambda v: self.store_name(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr); cur = self.getattr(o, t.attr)
            get = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.ev(t.value, fr); k = self.ev_index(t.slice, fr); cur = self.getitem(o, k)
            get = lambda v: self.setitem(o, k, v)
        v = self.ev(s.value, fr)
        get(self.augop(s.op, cur, v))
    def augop(self, op, cur, v):
        if isinstance(cur, Cont) and isinstance(op, ast.Add) and cur.kind in ('list', 'deque'):
            self.set_content(cur, self.content(cur) + self.iterate(v))
            return cur
        if isinstance(cur, Cont) and cur.kind == 'set' and isinstance(op, ast.BitOr):
            if isinstance(v, (list, tuple)) or (isinstance(v, Cont) and v.kind != 'set') or isinstance(v, GenV):
                raise PyRaise(TypeError('unsupported operand'))
            self.set_content(cur, self.content(cur) + self.iterate(v))
            return cur
        if isinstance(cur, Cont) and cur.kind == 'dict' and isinstance(op, ast.BitOr):
            METHODS[('dict', 'update')](self, cur, [v], {})
            return cur
        if isinstance(cur, (Inst, SObj)):
            nm = {ast.Add: '__iadd__', ast.BitOr: '__ior__'}.get(type(op))
            d = self.static_attr(cur.cls, nm) if nm else UNBOUND
            if d is not UNBOUND:
                return self.call(BoundM(cur, d, nm), [v])
        return self.binop(op, cur, v)
    def s_If(self, s, fr):
        if self.test(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)
    def s_For(self, s, fr):
        from . import loops
        loops.for_stmt(self, s, fr)
    def s_While(self, s, fr):
        from . import loops
        loops.while_stmt(self, s, fr)
    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        self.store_name(fr, s.name, self.mkfunc(s, fr, s.name))
    def mkfunc(self, node, fr, name):
        d = [self.ev(x, fr) for x in node.args.defaults]
        kd = {a.arg: self.ev(x, fr) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        return FuncV(node, fr, fr.globs, name, d, kd, None)
    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if not a.asname:
                m = importlib.import_module(a.name.split('.')[0])
            self.store_name(fr, a.asname or a.name.split('.')[0], m)
    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module('.' * s.level + (s.module or ''), fr.globs.get('__package__'))
        for a in s.names:
            self.store_name(fr, a.asname or a.name, getattr(m, a.name))
    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store_name(fr, t.id, DELETED)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported('del target')
    def s_Raise(self, s, fr):
        if s.exc is None:
            e = self.st.get(('exc', fr.id))
            if e is None:
                raise Unsupported('bare raise')
            raise PyRaise(e)
        e = self.ev(s.exc, fr)
        if s.cause is not None:
            c = self.ev(s.cause, fr)
        if isinstance(e, type):
            e = self.call(e)
        if isinstance(e, ClassV):
            raise Unsupported('raise of symbolic class')
        raise PyRaise(e)
    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as pe:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.ev(h.type, fr)
                        ok = self.exc_match(pe.exc, ty)
                    if ok:
                        if h.name:
                            self.store_name(fr, h.name, pe.exc)
                        old = self.st.get(('exc', fr.id))
                        self.st[('exc', fr.id)] = pe.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.st[('exc', fr.id)] = old
                            if h.name:
                                self.store_name(fr, h.name, DELETED)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            import sys
            et = sys.exc_info()[0]
            if et is None or issubclass(et, (PyRaise, ReturnSig, BreakSig, ContinueSig)):
                self.block(s.finalbody, fr)
    def exc_match(self, e, ty):
        tys = ty if isinstance(ty, tuple) else (ty,)
        if isinstance(e, Opaque):
            # an exception of unknown class bounded by e.what (tuple of possible classes)
            raise Unsupported('opaque exception')
        c = exc_class(e)
        for t in tys:
            if not isinstance(t, type):
                raise Unsupported('symbolic except class')
            if issubclass(c, t):
                return True
            if isinstance(e, Inst) and issubclass(t, c) and self.get_field(e, '__unknown__') is True:
                # unknown subclass of c
                if branch(fresh('exc_is_' + t.__name__, B)):
                    return True
        return False
    def s_With(self, s, fr):
        def go(items):
            if not items:
                return self.block(s.body, fr)
            it = items[0]
            cm = self.ev(it.context_expr, fr)
            def inner(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                go(items[1:])
            self.with_cm(cm, inner)
        go(s.items)
    def with_cm(self, cm, inner):
        if isinstance(cm, View) and cm.kind == 'cm':
            f, args, kwargs = cm.obj
            state = {'sig': None, 'n': 0}
            def hook(v):
                state['n'] += 1
                if state['n'] > 1:
                    raise Unsupported('context manager generator yielded twice')
                try:
                    inner(v)
                except (ReturnSig, BreakSig, ContinueSig) as sig:
                    state['sig'] = sig
                return None
            node = func_ast(f)
            clo = {n: c.cell_contents for n, c in zip(f.__code__.co_freevars, f.__closure__ or ())}
            fv = FuncV(node, None, f.__globals__, f.__qualname__, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), None, fn=f)
            self.run(fv, args, kwargs, clo, yield_hook=hook)
            if state['n'] == 0:
                raise PyRaise(RuntimeError("generator didn't yield"))
            if state['sig'] is not None:
                raise state['sig']
            return
        h = ATTRS.get(('with', host_kind(cm)))
        if h is not None:
            return h(self, cm, inner)
        if isinstance(cm, Inst):
            v = self.call(self.getattr(cm, '__enter__'))
            try:
                inner(v)
            except PyRaise as pe:
                if self.test(self.call(self.getattr(cm, '__exit__'), [exc_class(pe.exc), pe.exc, None])):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(self.getattr(cm, '__exit__'), [None, None, None])
                raise
            self.call(self.getattr(cm, '__exit__'), [None, None, None])
            return
        raise Unsupported(f'with {cm!r}')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple):
                vals = list(v)
            else:
                s = self.iterate(v)
                if not all(isinstance(p, Lit) for p in s.parts):
                    whole, L, n = View('seq', None, s), zint(seq_len(s)), len(t.elts)
                    star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                    if star:
                        i = star[0]; after = n - i - 1
                        if branch(L < n - 1): raise PyRaise(ValueError('not enough values to unpack'))
                        vals = [self.seq_getitem(whole, k) for k in range(i)]
                        rest = self.seq_getitem(whole, View('slice', (i, -after if after else None, None), None))
                        tail = [self.seq_getitem(whole, k - after) for k in range(after)]
                        for e, x in zip(t.elts[:i], vals): self.assign(e, x, fr)
                        self.assign(t.elts[i].value, self.new_cont('list', self.iterate(rest)), fr)
                        for e, x in zip(t.elts[i + 1:], tail): self.assign(e, x, fr)
                        return
                    if not branch(L == n): raise PyRaise(ValueError('wrong number of values to unpack'))
                    vals = [self.seq_getitem(whole, k) for k in range(n)]
                else:
                    vals = [p.v for p in s.parts]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]; after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError('unpack'))
                for e, x in zip(t.elts[:i], vals[:i]): self.assign(e, x, fr)
                self.assign(t.elts[i].value, self.new_cont('list', lits(vals[i:len(vals) - after])), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]): self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise PyRaise(ValueError('unpack'))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported(f'assign to {type(t).__name__}')

    # ---------------------------------------------------------- subscripts
    def ev_index(self, n, fr):
        return self.ev(n, fr)

    def getitem(self, o, k):
        if isinstance(o, SAny): o = self.narrow(o)
        if isinstance(o, Opt):
            if not branch(o.cond):
                raise PyRaise(TypeError("'NoneType' object is not subscriptable"))
            o = o.val
        if isinstance(k, SAny): k = self.narrow(k)
        if isinstance(o, (Inst, SObj)):
            d = self.static_attr(o.cls, '__getitem__')
            if d is UNBOUND:
                if isinstance(o, SObj): raise Unsupported(f'subscript of {o!r}')
                raise PyRaise(TypeError('not subscriptable'))
            return self.call(BoundM(o, d, '__getitem__'), [k])
        h = METHODS.get((host_kind(o), '__getitem__'))
        if h is not None:
            return h(self, o, [k], {})
        if isinstance(o, Cont) and o.kind == 'dict':
            r = self.dict_get(o, k)
            if r is NOT:
                raise PyRaise(KeyError(k))
            return r
        if isinstance(o, (Cont, View)) and (not isinstance(o, View) or o.seq is not None) or (isinstance(o, (tuple, list)) and not self.is_native(k)) or (isinstance(o, tuple) and not self.is_native(o)):
            if isinstance(o, Cont) and o.kind == 'set':
                raise PyRaise(TypeError('set not subscriptable'))
            return self.seq_getitem(o, k)
        if isinstance(o, dict) and not self.is_native(k):
            for kk, v in o.items():
                if branch(tb(self.eq(k, kk))):
                    return v
            raise PyRaise(KeyError(k))
        if isinstance(o, V):
            if isinstance(o, Opaque): raise Unsupported(f'subscript of opaque {o.what}')
            if not isinstance(o, (SInt, SNum, SBool, SFrac)): raise Unsupported(f'subscript of {o!r}')
            raise PyRaise(TypeError(f'not subscriptable {o!r}'))
        if isinstance(o, type) or (getattr(o, '__module__', '') == 'typing'):
            return o
        if isinstance(o, range) and not self.is_native(k):
            return self.seq_getitem(tuple(o), k)
        try:
            return o[k] if not isinstance(k, View) else self.seq_getitem(o, k)
        except Exception as e:
            raise PyRaise(e)

    def norm_index(self, k, n, what='list'):
        """Python index -> non-negative host int or IndexError"""
        if isinstance(k, (SInt, SBool)) or isinstance(k, int) or isinstance(n, SInt):
            kt, nt = zint(k), zint(n)
            if branch(tb_(kt < 0)):
                kt = kt + nt
                if branch(tb_(kt < 0)):
                    raise PyRaise(IndexError(f'{what} index out of range'))
            if branch(tb_(kt >= nt)):
                raise PyRaise(IndexError(f'{what} index out of range'))
            return mkint(kt)
        raise PyRaise(TypeError('indices must be integers'))

    def slice_bounds(self, sl, n):
        a, b, st = sl.seq
        if st is not None:
            raise Unsupported('slice step')
        nt = zint(n)
        def clamp(x, default):
            if x is None: return default
            if isinstance(x, SAny): x = self.narrow(x)
            if not isinstance(x, (int, SInt, SBool)):
                raise PyRaise(TypeError('slice indices'))
            t = zint(x)
            if branch(tb_(t < 0)):
                t = t + nt
                if branch(tb_(t < 0)): return 0
                return mkint(t)
            if branch(tb_(t > nt)): return n
            return mkint(t)
        return clamp(a, 0), clamp(b, n)

    def seq_getitem(self, o, k):
        s = self.iterate(o)
        if isinstance(k, slice):
            k = View('slice', None, None); raise Unsupported('native slice')
        if isinstance(k, View) and k.kind == 'slice':
            sl = _Slice(k.obj)
            n = seq_len(s)
            if k.obj[2] is not None:
                if k.obj == (None, None, -1):
                    r = seq_reverse(s)
                    return self.wrap_like(o, r)
                raise Unsupported('slice step')
            # fast literal paths
            a, b, _ = k.obj
            if (a is None or isinstance(a, int) and not isinstance(a, V) and a >= 0) and b is None:
                aa = a or 0
                if aa == 0: return self.wrap_like(o, s)
                if all(isinstance(p, Lit) for p in s.parts[:aa]) and len(s.parts) >= aa:
                    return self.wrap_like(o, Seq(s.parts[aa:]))
            if a in (None, 0) and isinstance(b, int) and b < 0 and len(s.parts) >= -b and all(isinstance(p, Lit) for p in s.parts[b:]):
                return self.wrap_like(o, Seq(s.parts[:b]))
            a, b = self.slice_bounds(sl, n)
            r = seq_slice(s, a, b if not (isinstance(b, int) and isinstance(n, int) and b == n) else None)
            return self.wrap_like(o, r)
        if isinstance(k, int) and not isinstance(k, bool) and k < 0 and len(s.parts) >= -k and all(isinstance(p, Lit) for p in s.parts[k:]):
            return s.parts[k].v
        n = seq_len(s)
        i = self.norm_index(k, n, 'list' if self.class_of(o) is list else 'deque')
        return seq_at(s, i)

    def wrap_like(self, o, s):
        if isinstance(o, tuple) or isinstance(o, View):
            if all(isinstance(p, Lit) for p in s.parts): return tuple(p.v for p in s.parts)
            return View('seq', None, s)
        return self.new_cont('list', s)

    def setitem(self, o, k, v):
        if isinstance(o, SAny): o = self.narrow(o)
        if isinstance(o, Opt): o = o.val if branch(o.cond) else None
        if isinstance(o, (Inst, SObj)):
            d = self.static_attr(o.cls, '__setitem__')
            if d is UNBOUND:
                raise PyRaise(TypeError('no item assignment'))
            self.call(BoundM(o, d, '__setitem__'), [k, v]); return
        h = METHODS.get((host_kind(o), '__setitem__'))
        if h is not None:
            h(self, o, [k, v], {}); return
        if isinstance(o, Cont) and o.kind == 'dict':
            self.dict_set(o, k, v); return
        if isinstance(o, Cont) and o.kind == 'list' and isinstance(k, View) and k.kind == 'slice':
            a, b, s = self.list_slice(o, k)
            self.set_content(o, seq_slice(s, 0, a) + self.iterate(v) + seq_slice(s, b, None)); return
        if isinstance(o, Cont) and o.kind in ('list', 'deque'):
            s = self.content(o)
            n = seq_len(s)
            i = self.norm_index(k, n)
            if isinstance(i, int) and all(isinstance(p, Lit) for p in s.parts[:i + 1]):
                self.set_content(o, Seq(s.parts[:i] + (Lit(v),) + s.parts[i + 1:])); return
            self.set_content(o, seq_slice(s, 0, i) + lits([v]) + seq_slice(s, mkint(zint(i) + 1), None)); return
        if isinstance(o, dict) and not isinstance(o, V):
            key = ('N', id(o))
            raise Unsupported('write to a global dict')
        if isinstance(o, V):
            raise PyRaise(TypeError(f'no item assignment {o!r}')) if not isinstance(o, Opaque) else Unsupported('opaque setitem')
        raise PyRaise(TypeError('no item assignment')) if isinstance(o, (str, tuple, int, type(None))) else Unsupported('native setitem')

    def list_slice(self, o, k):
        """the bounds a <= b of a slice of a list that is assigned or deleted, and the content"""
        if k.obj[2] is not None: raise Unsupported('slice step')
        s = self.content(o)
        a, b = self.slice_bounds(_Slice(k.obj), seq_len(s))
        if isinstance(a, int) and isinstance(b, int): return a, max(a, b), s
        return a, (a if branch(zint(b) < zint(a)) else b), s

    def delitem(self, o, k):
        if isinstance(o, SAny): o = self.narrow(o)
        if isinstance(o, Opt): o = o.val if branch(o.cond) else None
        if isinstance(o, (Inst, SObj)):
            d = self.static_attr(o.cls, '__delitem__')
            if d is UNBOUND: raise PyRaise(TypeError('no del'))
            self.call(BoundM(o, d, '__delitem__'), [k]); return
        h = METHODS.get((host_kind(o), '__delitem__'))
        if h is not None:
            h(self, o, [k], {}); return
        if isinstance(o, Cont) and o.kind == 'dict':
            s = self.content(o)
            for j in range(len(s.parts) - 1, -1, -1):
                p = s.parts[j]
                if isinstance(p, Lit):
                    if branch(tb(self.eq(p.v[0], k))):
                        # earlier entries with the same key must go too
                        rest = Seq(s.parts[:j])
                        rest = self.seq_filter_kv(rest, k)
                        self.set_content(o, rest + Seq(s.parts[j + 1:])); return
                else:
                    break
            else:
                raise PyRaise(KeyError(k))
            if any(isinstance(p, Opq) for p in s.parts): raise Unsupported('del from partly unknown dict')
            if any(isinstance(p, Map) for p in s.parts) and all(isinstance(p, Lit) or is_pure(p) for p in s.parts):
                at = self.dict_position(s, k)
                if at is None: raise PyRaise(KeyError(k))
                j, i, p = at
                self.set_content(o, Seq(s.parts[:j] + (() if i is None else self.dict_split(p, i)) + s.parts[j + 1:])); return
            if branch(seq_exists(s, lambda kv: tb(self.eq(kv[0], k)))):
                self.set_content(o, self.seq_filter_kv(s, k)); return
            raise PyRaise(KeyError(k))
        if isinstance(o, Cont) and o.kind == 'list' and isinstance(k, View) and k.kind == 'slice':
            a, b, s = self.list_slice(o, k)
            self.set_content(o, seq_slice(s, 0, a) + seq_slice(s, b, None)); return
        if isinstance(o, Cont) and o.kind == 'list':
            s = self.content(o)
            n = seq_len(s)
            i = self.norm_index(k, n)
            if isinstance(i, int) and all(isinstance(p, Lit) for p in s.parts[:i + 1]):
                self.set_content(o, Seq(s.parts[:i] + s.parts[i + 1:])); return
            self.set_content(o, seq_slice(s, 0, i) + seq_slice(s, mkint(zint(i) + 1), None)); return
        raise Unsupported(f'del item of {o!r}')

    def seq_filter_kv(self, s, k):
        out = []
        for p in s.parts:
            if isinstance(p, Opq):
                out.append(Opq(p.name)); continue   # an unknown part never holds a key shadowed here
            if isinstance(p, Map) and core.entails(Not(tb(seq_exists(Seq([p]), lambda kv: tb(self.eq(kv[0], k)))))):
                out.append(p); continue             # no such key: the part is as it was
            out += self.seq_filter(Seq([p]), lambda kv: Not(tb(self.eq(kv[0], k)))).parts
        return Seq(out)

    def dict_get(self, c: Cont, k):
        """value or NOT"""
        s = self.content(c)
        for p in reversed(s.parts):
            if isinstance(p, Lit):
                if branch(tb(self.eq(p.v[0], k))):
                    return p.v[1]
            elif isinstance(p, Map):
                v = freshvar('d')
                alts = inst_part(p, v)
                conds = []
                for g, sub in alts:
                    for q in sub.parts:
                        if not isinstance(q, Lit): raise Unsupported('nested dict comprehension lookup')
                        conds.append((And(g, tb(self.eq(q.v[0], k))), q.v[1]))
                if branch(core.Exists([v], And(rng(v, p.n), Or(*[x for x, _ in conds])))):
                    j = fresh('dk', I); w = freshvar('w')
                    sj = Subst([(v, j)]); sw = Subst([(v, w)])
                    allc = Or(*[x for x, _ in conds])
                    assume(rng(j, p.n), sj.z(allc), core.ForAll([w], Implies(And(w > j, w < p.n), Not(sw.z(allc)))))
                    for x, val in reversed(conds):
                        if branch(sj.z(x)):
                            return sj(val)
                    raise Infeasible()
            else:
                h = core.CUR.opts.get(('opq', p.name))
                if h is not None:
                    r = h(self, k)
                    if r is not NOT: return r
                    continue
                raise Unsupported('lookup in partly unknown dict')
        return NOT

    def dict_set(self, c: Cont, k, v):
        s = self.content(c)
        # overwrite of a literal entry keeps its position
        for j, p in enumerate(s.parts):
            if isinstance(p, Lit) and (p.v[0] is k or (isinstance(k, str) and p.v[0] == k)):
                self.set_content(c, Seq(s.parts[:j] + (Lit((p.v[0], v)),) + s.parts[j + 1:]))
                return
        if all(isinstance(p, Lit) for p in s.parts):
            for j, p in enumerate(s.parts):
                if branch(tb(self.eq(p.v[0], k))):
                    self.set_content(c, Seq(s.parts[:j] + (Lit((p.v[0], v)),) + s.parts[j + 1:])); return
        at = self.dict_position(s, k)
        if at is not None:
            j, i, p = at
            if i is None: new = (Lit((p.v[0], v)),)
            else: new = self.dict_split(p, i, (k, v))
            self.set_content(c, Seq(s.parts[:j] + new + s.parts[j + 1:])); return
        self.set_content(c, Seq(s.parts + (Lit((k, v)),)))

    def dict_position(self, s, k):
        """(part number, index within it, part) of the entry with key k in a dict
        whose parts are plain entries; None when absent (or the dict has other parts)"""
        if not any(isinstance(p, Map) for p in s.parts) or not all(isinstance(p, Lit) or is_pure(p) for p in s.parts): return None
        for j, p in enumerate(s.parts):
            if isinstance(p, Lit):
                if branch(tb(self.eq(p.v[0], k))): return j, None, p
            else:
                v = freshvar('d')
                c = And(rng(v, p.n), tb(self.eq(inst_part(p, v)[0][1].parts[0].v[0], k)))
                if core.CUR.idx and core.entails(Subst([(v, fresh('dw', I))]).z(Not(c)), 1000): continue
                if branch(core.Exists([v], c)):
                    i = fresh('dk', I)
                    assume(Subst([(v, i)]).z(c))
                    return j, i, p
        return None

    def dict_split(self, p, i, new=None):
        v = freshvar('_s')
        l = Map(p.var, i, p.alts)
        r = Map(v, z3.simplify(p.n - i - 1), inst_part(p, z3.simplify(v + i + 1)))
        return (l,) + ((Lit(new),) if new else ()) + (r,)

    # ---------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr): return self.lookup(fr, e.id)
    def e_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), e.attr)
    def e_Subscript(self, e, fr): return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))
    def e_Slice(self, e, fr):
        return View('slice', tuple(None if x is None else self.ev(x, fr) for x in (e.lower, e.upper, e.step)))
    def e_Tuple(self, e, fr):
        s = self.elts(e.elts, fr)
        if all(isinstance(p, Lit) for p in s.parts): return tuple(p.v for p in s.parts)
        return View('seq', None, s)
    def elts(self, elts, fr):
        s = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s += self.iterate(self.ev(x.value, fr)).parts
            else:
                s.append(Lit(self.ev(x, fr)))
        return Seq(s)
    def e_List(self, e, fr): return self.new_cont('list', self.elts(e.elts, fr))
    def e_Set(self, e, fr): return self.new_cont('set', self.elts(e.elts, fr))
    def e_Dict(self, e, fr):
        c = self.new_cont('dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                METHODS[('dict', 'update')](self, c, [self.ev(v, fr)], {})
            else:
                kk = self.ev(k, fr)
                self.dict_set(c, kk, self.ev(v, fr))
        return c
    def e_BoolOp(self, e, fr):
        last = None
        for i, x in enumerate(e.values):
            last = self.ev(x, fr)
            if i == len(e.values) - 1:
                return last
            t = self.truth(last)
            if isinstance(e.op, ast.And):
                if not branch(t): return False if isinstance(last, SBool) else last
            else:
                if branch(t): return True if isinstance(last, SBool) else last
        return last
    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return mkbool(Not(tb(self.truth(v))))
        if isinstance(v, SAny): v = self.narrow(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt): return mkint(-v.t)
            if isinstance(v, SNum): return SNum(-v.t, v.isint)
            if not isinstance(v, V): return -v
        if isinstance(e.op, ast.UAdd): return v
        raise Unsupported('unary operator')
    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr); b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)
    def e_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(r, fr)
            v = self.compare(op, a, b)
            if i == len(e.ops) - 1:
                return v
            if not self.test(v):
                return False
            a = b
    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.test(self.ev(e.test, fr)) else e.orelse, fr)
    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while getattr(f, 'is_comp', False):
            f = f.parent
        self.store_name(f, e.target.id, v)
        return v
    def e_Lambda(self, e, fr): return self.mkfunc(e, fr, '<lambda>')
    def e_JoinedStr(self, e, fr):
        vals = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                vals.append(x.value)
            else:
                v = self.ev(x.value, fr)
                if x.format_spec is not None:
                    vals += self.format_spec(v, x.format_spec)
                elif x.conversion in (114, 97):
                    vals.append(repr(v) if self.is_native(v) and not isinstance(v, type) else SStr(zfn('reprof', U, U)(self.to_u(v))))
                else:
                    vals.append(v)
        return self.fmt(vals)
    def format_spec(self, v, spec):
        sp = spec.values[0].value if len(spec.values) == 1 and isinstance(spec.values[0], ast.Constant) else None if spec.values else ''
        if self.is_native(v) and sp is not None: return [format(v, sp)]
        if sp == '': return [v]
        if isinstance(v, SInt) and sp in ('d', '+d', '+'):
            if sp != 'd' and branch(v.t >= 0): return ['+', v]
            return [v]
        return [self.opaque_str('spec', [v])]
    def e_FormattedValue(self, e, fr): return self.fmt([self.ev(e.value, fr)])
    def e_Starred(self, e, fr): raise Unsupported('starred')
    def e_Await(self, e, fr): raise Unsupported('await')
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.do_super(fr)
        f = self.ev(e.func, fr)
        if len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords and \
                (f is any or f is all):
            return self.anyall(f, e.args[0], fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.iterate(self.ev(a.value, fr))
                if all(isinstance(p, Lit) for p in s.parts):
                    args += [p.v for p in s.parts]
                else:
                    args.append(_Star(s))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, dict):
                    kwargs.update(d)
                elif isinstance(d, Cont) and d.kind == 'dict' and all(isinstance(p, Lit) and isinstance(p.v[0], str) for p in self.content(d).parts):
                    for p in self.content(d).parts:
                        kwargs[p.v[0]] = p.v[1]
                else:
                    if '**' in kwargs: raise Unsupported('two unknown ** arguments')
                    if isinstance(d, Cont) and d.kind == 'dict':      # the known names bind as names (dict_set: no name occurs twice)
                        known = [p for p in self.content(d).parts if isinstance(p, Lit) and isinstance(p.v[0], str)]
                        if known:
                            for p in known:
                                if p.v[0] in kwargs: raise PyRaise(TypeError('multiple values for keyword argument'))
                                kwargs[p.v[0]] = p.v[1]
                            d = self.new_cont('dict', Seq([p for p in self.content(d).parts if p not in known]))
                    kwargs['**'] = d
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)
    def do_super(self, fr):
        f = fr
        while f.parent is not None:
            f = f.parent
        cls = (f.clo or {}).get('__class__')
        if cls is None:
            raise Unsupported('super() without __class__')
        first = f.func.node.args
        nm = (first.posonlyargs + first.args)[0].arg
        return SuperV(cls, self.st[('L', f.id, nm)])

    def anyall(self, f, g, fr):
        """any/all over a generator expression: eager when that cannot be
        told from short-circuit evaluation, else short-circuit"""
        p = core.CUR
        store0 = dict(p.store)
        try:
            s = self.comp(g, fr)
            ok = all(p.store.get(k, UNBOUND) is v for k, v in store0.items())
        except PyRaise:
            ok = False
        if ok:
            ex = seq_exists if f is any else seq_forall
            return mkbool(tb(ex(s, lambda v: tb(self.truth(v)))))
        p.store = dict(store0)
        want = f is any
        def stop(v):
            if self.test(v) == want:
                raise BreakSig()
        try:
            self.comp(g, fr, each=stop)
        except BreakSig:
            return want
        return not want

    # comprehensions
    def e_ListComp(self, e, fr): return self.new_cont('list', self.comp(e, fr))
    def e_SetComp(self, e, fr): return self.new_cont('set', self.comp(e, fr))
    def e_GeneratorExp(self, e, fr): return GenV(self.comp(e, fr))
    def e_DictComp(self, e, fr):
        return self.comp(e, fr, isdict=True)
    def comp(self, e, fr, isdict=False, each=None):
        from . import loops
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name): names.add(n.id)
        cf = Frame(self.new_id('f'), names, fr, fr.globs, fr.func)
        cf.is_comp = True
        acc = self.new_cont('dict' if isdict else 'list')
        def gen(i):
            if i == len(e.generators):
                if isdict:
                    k = self.ev(e.key, cf); v = self.ev(e.value, cf)
                    self.set_content(acc, self.content(acc) + lits([(k, v)]))
                else:
                    v = self.ev(e.elt, cf)
                    if each is not None:
                        each(v); return
                    self.set_content(acc, self.content(acc) + lits([v]))
                return
            g = e.generators[i]
            seq = self.iterate(self.ev(g.iter, fr if i == 0 else cf))
            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.test(self.ev(c, cf)):
                        return
                gen(i + 1)
            loops.run_for(self, seq, body)
        gen(0)
        if isdict:
            return acc
        return self.content(acc)

    def e_Yield(self, e, fr):
        f = fr
        v = self.ev(e.value, fr) if e.value else None
        if f.yield_hook is not None:
            return f.yield_hook(v)
        self.set_content(f.yields, self.content(f.yields) + lits([v]))
        return None
    def e_YieldFrom(self, e, fr):
        s = self.iterate(self.ev(e.value, fr))
        if fr.yield_hook is not None:
            raise Unsupported('yield from in context manager')
        self.set_content(fr.yields, self.content(fr.yields) + s)
        return None

class _Star:
    def __init__(self, seq): self.seq = seq
class _Slice:
    def __init__(self, t): self.seq = t

PURE_MODULES = {'posixpath', 'typing', 'enum', 'inspect'}

def host_kind(v):
    if isinstance(v, Cont): return v.kind
    if isinstance(v, SNum): return 'num'
    if isinstance(v, SInt): return 'int'
    if isinstance(v, SBool): return 'bool'
    if isinstance(v, SStr): return 'str'
    if isinstance(v, View): return 'view:' + v.kind
    if isinstance(v, Opaque): return 'opaque:' + v.what
    if isinstance(v, V): return type(v).__name__
    return type(v).__name__

def tb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c
def tb_(c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return c

def both_int(a, b):
    def ii(x): return isinstance(x, (SInt, SBool)) or (not isinstance(x, V) and isinstance(x, int))
    return ii(a) and ii(b)

def num_term(v):
    if isinstance(v, (SNum, SFrac)): return v.t
    if isinstance(v, SInt): return z3.ToReal(v.t)
    if isinstance(v, SBool): return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, bool): return z3.RealVal(int(v))
    if isinstance(v, int): return z3.RealVal(v)
    if isinstance(v, float):
        from fractions import Fraction
        f = Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    raise Unsupported(f'number {v!r}')
