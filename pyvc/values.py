"""Host-level symbolic values and the sequence algebra."""
from __future__ import annotations
import z3
from . import core
from .core import U, I, B, R, Unsupported, And, Or, Not, fresh, freshvar, assume, branch, Exists, ForAll, Implies

class V:
    __slots__ = ()

class SInt(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SInt({self.t})'
class SBool(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SBool({self.t})'
class SNum(V):
    """a JSON number: exact value and whether it is a Python int"""
    __slots__ = ('t', 'isint')
    def __init__(self, t, isint): self.t, self.isint = t, isint
    def __repr__(self): return f'SNum({self.t})'
class SFrac(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
class SStr(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SStr({self.t})'
class SAny(V):
    """a value of statically unknown kind"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SAny({self.t})'
class SObj(V):
    """a heap object known by reference; cls is an upper bound of its class"""
    __slots__ = ('t', 'cls', 'exact')
    def __init__(self, t, cls, exact=False): self.t, self.cls, self.exact = t, cls, exact
    def __repr__(self): return f'SObj({self.t}:{getattr(self.cls,"__name__",self.cls)})'
class Opt(V):
    """val when cond else None"""
    __slots__ = ('cond', 'val')
    def __init__(self, cond, val): self.cond, self.val = cond, val
class Ite(V):
    """a host value chosen by a condition (kept symbolic)"""
    __slots__ = ('cond', 'a', 'b')
    def __init__(self, cond, a, b): self.cond, self.a, self.b = cond, a, b
class Inst(V):
    """an object allocated by the executed code (or by a contract)"""
    __slots__ = ('cls', 'id', 'idxs')
    def __init__(self, cls, id, idxs=()): self.cls, self.id, self.idxs = cls, id, tuple(idxs)
    def __repr__(self): return f'Inst({getattr(self.cls,"__name__",self.cls)}#{self.id}{list(self.idxs) or ""})'
class Cont(V):
    """a mutable builtin container allocated by executed code"""
    __slots__ = ('kind', 'id', 'idxs')   # kind in list, dict, set, deque
    def __init__(self, kind, id, idxs=()): self.kind, self.id, self.idxs = kind, id, tuple(idxs)
    def __repr__(self): return f'{self.kind}#{self.id}'
class GenV(V):
    """an (eagerly collected) iterator; consumed at most once"""
    __slots__ = ('seq', 'used')
    def __init__(self, seq): self.seq, self.used = seq, False
class View(V):
    """an immutable view / sequence-like value: kind in keys, items, values, seq"""
    __slots__ = ('kind', 'obj', 'seq')
    def __init__(self, kind, obj, seq=None): self.kind, self.obj, self.seq = kind, obj, seq
class JList(V):
    """list of children of a JSON array node (heap resident)"""
    __slots__ = ('r',)
    def __init__(self, r): self.r = r
class JDict(V):
    __slots__ = ('r',)
    def __init__(self, r): self.r = r
class FuncV(V):
    __slots__ = ('node', 'frame', 'globs', 'name', 'defaults', 'kwdefaults', 'cls', 'file', 'fn')
    def __init__(self, node, frame, globs, name, defaults, kwdefaults, cls, file='', fn=None):
        self.node, self.frame, self.globs, self.name = node, frame, globs, name
        self.defaults, self.kwdefaults, self.cls, self.file, self.fn = defaults, kwdefaults, cls, file, fn
class BoundM(V):
    __slots__ = ('self', 'fn', 'name')
    def __init__(self, self_, fn, name=''): self.self, self.fn, self.name = self_, fn, name
class HostFn(V):
    """a builtin modelled by a Python callable h(interp, args, kwargs)"""
    __slots__ = ('h', 'name')
    def __init__(self, h, name=''): self.h, self.name = h, name
class SuperV(V):
    __slots__ = ('cls', 'obj')
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
class ClassV(V):
    """a class object created by executed code or unknown class"""
    __slots__ = ('t', 'bound', 'attrs')
    def __init__(self, t, bound, attrs=None): self.t, self.bound, self.attrs = t, bound, attrs or {}
class Opaque(V):
    """a value the engine knows nothing about except its identity"""
    __slots__ = ('t', 'what')
    def __init__(self, t, what=''): self.t, self.what = t, what
    def __repr__(self): return f'Opaque({self.what})'

# ------------------------------------------------------------ sequences
class Lit:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return f'Lit({self.v})'
class Map:
    """for var in 0..n-1, for (guard, sub) in alts: if guard: yield from sub.
    Guards of different alternatives are mutually exclusive unless `multi`."""
    __slots__ = ('var', 'n', 'alts')
    def __init__(self, var, n, alts): self.var, self.n, self.alts = var, n, alts
    def __repr__(self): return f'Map({self.var}<{self.n}: {self.alts})'
class Opq:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return f'Opq({self.name})'

class Seq:
    __slots__ = ('parts',)
    def __init__(self, parts=()): self.parts = tuple(parts)
    def __repr__(self): return f'Seq{list(self.parts)}'
    def __add__(self, o): return Seq(self.parts + o.parts)

EMPTY = Seq()

def lits(vs): return Seq(Lit(v) for v in vs)

def mk_map(n, f, guard=None, name='x'):
    """Seq of f(idx) for idx < n (optionally filtered)"""
    v = freshvar('_' + name)
    return Seq([Map(v, n, [(guard(v) if guard else True, Seq([Lit(f(v))]))])])

def is_pure(part):
    return isinstance(part, Map) and len(part.alts) == 1 and part.alts[0][0] is True \
        and len(part.alts[0][1].parts) == 1 and isinstance(part.alts[0][1].parts[0], Lit)

def purify(part):
    """a Map whose alternatives yield one element each and leave no index out
    is a pure view of a conditional element"""
    if is_pure(part) or not isinstance(part, Map): return part
    if not part.alts or not all(len(s.parts) == 1 and isinstance(s.parts[0], Lit) for _, s in part.alts): return part
    gs = [z3.BoolVal(True) if g is True else g for g, _ in part.alts]
    cover = z3.simplify(z3.Or(*gs))
    if not z3.is_true(cover):
        if core.has_quant(cover) or not core.entails(z3.Implies(rng(part.var, part.n), cover)): return part
    v = part.alts[-1][1].parts[0].v
    for g, s in reversed(part.alts[:-1]):
        a = s.parts[0].v
        g = z3.BoolVal(True) if g is True else g
        if type(a) is type(v) and isinstance(a, (SInt, SBool, SStr, SAny)): v = type(a)(z3.If(g, a.t, v.t))
        elif isinstance(a, SObj) and isinstance(v, SObj) and a.cls is v.cls: v = SObj(z3.If(g, a.t, v.t), a.cls, a.exact and v.exact)
        elif isinstance(a, Opaque) and isinstance(v, Opaque) and a.what == v.what: v = Opaque(z3.If(g, a.t, v.t), a.what)
        else: v = Ite(g, a, v)
    return Map(part.var, part.n, [(True, Seq([Lit(v)]))])

# -- substitution over host values
class Subst:
    def __init__(self, pairs=(), idmap=None, opq=None):
        self.pairs = [p for p in pairs if not p[0].eq(p[1])]
        self.idmap = idmap or {}
        self.opq = opq or {}       # contents that have become known
    def z(self, t):
        if not self.pairs or not z3.is_expr(t):
            return t
        return z3.substitute(t, *self.pairs)
    def __call__(self, v):
        if not self.pairs and not self.idmap and not self.opq:
            return v
        return self.v(v)
    def v(self, v):
        if isinstance(v, (SInt, SBool, SStr, SAny, SFrac)):
            return type(v)(self.z(v.t))
        if isinstance(v, SNum):
            return SNum(self.z(v.t), self.z(v.isint))
        if isinstance(v, SObj):
            return SObj(self.z(v.t), v.cls, v.exact)
        if isinstance(v, Opaque):
            return Opaque(self.z(v.t), v.what)
        if isinstance(v, Opt):
            return Opt(self.z(v.cond), self.v(v.val))
        if isinstance(v, Ite):
            return Ite(self.z(v.cond), self.v(v.a), self.v(v.b))
        if isinstance(v, Inst):
            return Inst(v.cls, self.idmap.get(v.id, v.id), [self.z(x) for x in v.idxs])
        if isinstance(v, Cont):
            return Cont(v.kind, self.idmap.get(v.id, v.id), [self.z(x) for x in v.idxs])
        if isinstance(v, (JList, JDict)):
            return type(v)(self.z(v.r))
        if isinstance(v, GenV):
            return GenV(self.seq(v.seq))
        if isinstance(v, View):
            return View(v.kind, self.v(v.obj), self.seq(v.seq) if v.seq is not None else None)
        if isinstance(v, BoundM):
            return BoundM(self.v(v.self), v.fn, v.name)
        if isinstance(v, ClassV):
            return ClassV(self.z(v.t), v.bound, v.attrs)
        if isinstance(v, Seq):
            return self.seq(v)
        if type(v) is tuple:
            return tuple(self.v(x) for x in v)
        return v
    def seq(self, s):
        if self.opq and any(isinstance(p, Opq) and p.name in self.opq for p in s.parts):
            return Seq(y for p in s.parts for y in (self.opq[p.name] if isinstance(p, Opq) and p.name in self.opq else (self.part(p),)))
        return Seq(self.part(p) for p in s.parts)
    def part(self, p):
        if isinstance(p, Lit):
            return Lit(self.v(p.v))
        if isinstance(p, Map):
            return Map(p.var, self.z(p.n), [(g if g is True else self.z(g), self.seq(s)) for g, s in p.alts])
        return p

def occurs(v, names):
    """does a host value mention one of the z3 constants (by name)?"""
    found = []
    class O(Subst):
        def z(self, t):
            if z3.is_expr(t) and mentions(t, names):
                found.append(1)
            return t
    o = O(); o.pairs = [1]; o.v(v)
    return bool(found)

def mentions(t, names):
    seen = set(); st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body()); continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in names:
                return True
            st.extend(e.children())
    return False

def inst_part(p: Map, t):
    """alternatives of a Map at index term t: [(guard, Seq)]"""
    s = Subst([(p.var, t)])
    return [(g if g is True else s.z(g), s.seq(sub)) for g, sub in p.alts]

def zint(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, SInt): return v.t
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(v): return v
    raise Unsupported(f'not an int: {v!r}')

def mkint(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)
def mkbool(t):
    if isinstance(t, bool): return t
    if not core.has_quant(t):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
    return SBool(t)

def rng(v, n): return z3.And(v >= 0, v < n)

def _opq_probe(p, msg):
    o = core.CUR.opts
    if o.get('acc_probe') and isinstance(p, Opq):
        o['acc_hit'].add(p.name)
        return fresh('probe', B)
    raise Unsupported(msg)

def seq_exists(s: Seq, pred):
    """z3 Bool: some element satisfies pred (pred: host value -> z3 Bool/bool)"""
    out = []
    for p in s.parts:
        if isinstance(p, Lit):
            out.append(pred(p.v))
        elif isinstance(p, Map):
            v = freshvar('e')
            body = Or(*[And(g, seq_exists(sub, pred)) for g, sub in inst_part(p, v)])
            out.append(Exists([v], And(rng(v, p.n), body)))
        else:
            out.append(_opq_probe(p, 'membership in an unknown sequence'))
    return Or(*out)

def seq_forall(s: Seq, pred):
    out = []
    for p in s.parts:
        if isinstance(p, Lit):
            out.append(pred(p.v))
        elif isinstance(p, Map):
            v = freshvar('a')
            body = And(*[Implies(g, seq_forall(sub, pred)) for g, sub in inst_part(p, v)])
            out.append(ForAll([v], Implies(rng(v, p.n), body)))
        else:
            out.append(_opq_probe(p, 'quantification over an unknown sequence'))
    return And(*out)

_counts = []   # (fnconst, n, guardfn)

def seq_nonempty(s: Seq):
    return seq_exists(s, lambda v: True)

def count_term(n, var, alts):
    """number of idx<n whose guard holds (alts each yield exactly one element)"""
    g = Or(*[a[0] for a in alts])
    if z3.is_true(g):
        return n
    p = core.CUR
    reg = p.opts.setdefault('counts', [])
    for (c, n2, v2, g2) in reg:
        if n2.eq(n) and z3.substitute(g2, (v2, var)).eq(g):
            return c
    c = fresh('count', I)
    v, w = freshvar('c'), freshvar('d')
    gv, gw = z3.substitute(g, (var, v)), z3.substitute(g, (var, w))
    nn = z3.If(n >= 0, n, z3.IntVal(0))
    assume(c >= 0, c <= nn,
           z3.Implies(c == 0, ForAll([v], Implies(rng(v, n), Not(gv)))),
           z3.Implies(c > 0, Exists([v], And(rng(v, n), gv))),
           z3.Implies(c <= 1, ForAll([v, w], Implies(And(rng(v, n), rng(w, n), gv, gw), v == w))),
           z3.Implies(c > 1, Exists([v, w], And(rng(v, n), rng(w, n), gv, gw, v != w))),
           z3.Implies(c == nn, ForAll([v], Implies(rng(v, n), gv))),
           z3.Implies(c < nn, Exists([v], And(rng(v, n), Not(gv)))))
    # extensionality between counts over the same range
    for (c2, n2, v2, g2) in reg:
        g2v = z3.substitute(g2, (v2, v))
        assume(z3.Implies(And(n == n2, ForAll([v], Implies(rng(v, n), gv == g2v))), c == c2))
        # complement
        assume(z3.Implies(And(n == n2, ForAll([v], Implies(rng(v, n), gv == Not(g2v)))), c + c2 == nn))
    reg.append((c, n, var, g))
    return c

def seq_len(s: Seq):
    """host int"""
    tot = z3.IntVal(0)
    for p in s.parts:
        if isinstance(p, Lit):
            tot = tot + 1
        elif isinstance(p, Map):
            if all(len(sub.parts) == 1 and isinstance(sub.parts[0], Lit) for _, sub in p.alts):
                n = p.n
                if is_pure(p):
                    if not core.entails(n >= 0):
                        n = z3.If(n >= 0, n, z3.IntVal(0))
                    tot = tot + n
                else:
                    tot = tot + count_term(n, p.var, p.alts)
            else:
                # nested: only emptiness is characterised
                c = fresh('len', I)
                assume(c >= 0, (c > 0) == seq_nonempty(Seq([p])))
                tot = tot + c
        else:
            c = fresh('len', I)
            assume(c >= 0)
            tot = tot + c
    return mkint(tot)

def as_pure(s: Seq):
    """(n, at) when the sequence is a pure indexed view"""
    if not s.parts:
        return z3.IntVal(0), lambda i: None
    if len(s.parts) == 1 and is_pure(purify(s.parts[0])):
        p = purify(s.parts[0])
        return p.n, lambda i: Subst([(p.var, i)])(p.alts[0][1].parts[0].v)
    return None

def seq_at(s: Seq, i):
    """element at host index i (already known to be within bounds, >= 0)"""
    if isinstance(i, int) and all(isinstance(p, Lit) for p in s.parts[:i + 1]) and len(s.parts) > i:
        return s.parts[i].v
    it = zint(i)
    off = z3.IntVal(0)
    for k, p in enumerate(s.parts):
        p = purify(p)
        last = k == len(s.parts) - 1
        if isinstance(p, Lit):
            if last or branch(it == off):
                return p.v
            off = z3.simplify(off + 1)
        elif is_pure(p):
            nn = p.n if core.entails(p.n >= 0) else z3.If(p.n >= 0, p.n, z3.IntVal(0))
            if last or branch(it < off + nn):
                return Subst([(p.var, z3.simplify(it - off))])(p.alts[0][1].parts[0].v)
            off = z3.simplify(off + nn)
        elif last and isinstance(p, Map) and all(len(sub.parts) == 1 and isinstance(sub.parts[0], Lit) for _, sub in p.alts) and core.entails(it == off):
            # the first element that passes the filter (there is one: the index is within bounds)
            j, w = fresh('first', I), freshvar('f')
            g = lambda x: Or(*[a for a, _ in inst_part(p, x)])
            assume(rng(j, p.n), g(j), ForAll([w], Implies(And(w >= 0, w < j), Not(g(w)))))
            alts = inst_part(p, j)
            for a, sub in alts[:-1]:
                if branch(And(a, True)): return sub.parts[0].v
            return alts[-1][1].parts[0].v
        else:
            raise Unsupported('index into a filtered sequence')
    raise Unsupported('index out of known sequence')

def seq_cut(s: Seq, k):
    """(s[:k], s[k:]) of a concatenation of pure parts, 0 <= k"""
    left, right = [], []
    off = z3.IntVal(0)
    for p in s.parts:
        if right:
            right.append(p); continue
        p = purify(p)
        if isinstance(p, Lit): ln = z3.IntVal(1)
        elif is_pure(p): ln = p.n if core.entails(p.n >= 0) else z3.If(p.n >= 0, p.n, z3.IntVal(0))
        else: raise Unsupported('slice of a filtered sequence')
        end = z3.simplify(off + ln)
        if branch(k >= end): left.append(p)
        elif isinstance(p, Lit) or core.entails(k <= off): right.append(p)
        else:
            c = z3.simplify(k - off)
            v = freshvar('_s')
            left.append(Map(p.var, c, p.alts))
            right.append(Map(v, z3.simplify(ln - c), inst_part(p, z3.simplify(v + c))))
        off = end
    return Seq(left), Seq(right)

def seq_slice(s: Seq, a, b):
    """s[a:b] for host ints with 0<=a, b (b may be None)"""
    n = seq_len(s)
    if all(isinstance(p, Lit) for p in s.parts) and isinstance(a, int) and (b is None or isinstance(b, int)):
        return Seq(s.parts[a:b])
    if isinstance(a, int) and a == 0 and b is None:
        return s
    # drop leading literals
    if isinstance(a, int) and b is None and len(s.parts) > a and all(isinstance(p, Lit) for p in s.parts[:a]):
        return Seq(s.parts[a:])
    pu = as_pure(s)
    if pu is None:
        l = seq_cut(s, zint(a))[1]
        return l if b is None else seq_cut(l, z3.simplify(zint(b) - zint(a)))[0]
    m, at = pu
    at_ = zint(a)
    end = m if b is None else zint(b)
    end = z3.If(end <= m, end, m)
    ln = end - at_
    ln = z3.simplify(z3.If(ln >= 0, ln, z3.IntVal(0)))
    for cand in ([m - at_] if b is None else [zint(b) - at_, m - at_]):
        if core.entails(ln == cand, 300):
            ln = z3.simplify(cand)
            break
    v = freshvar('_s')
    return Seq([Map(v, ln, [(True, Seq([Lit(at(z3.simplify(v + at_)))]))])])

def seq_reverse(s: Seq):
    out = []
    for p in reversed(s.parts):
        if isinstance(p, Lit):
            out.append(p)
        elif isinstance(p, Map):
            v = freshvar('_r')
            alts = inst_part(p, p.n - 1 - v)
            out.append(Map(v, p.n, [(g, seq_reverse(sub)) for g, sub in alts]))
        else:
            out.append(p)
    return Seq(out)

def seq_map(s: Seq, f):
    """apply a host function to every element (f must not branch)"""
    out = []
    for p in s.parts:
        if isinstance(p, Lit):
            out.append(Lit(f(p.v)))
        elif isinstance(p, Map):
            out.append(Map(p.var, p.n, [(g, seq_map(sub, f)) for g, sub in p.alts]))
        else:
            raise Unsupported('map over unknown')
    return Seq(out)
