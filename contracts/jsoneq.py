"""P09: equality and ordering of JSON values."""
from .textspec import *
from .env import contract
import collections.abc as cabc
from .jsonnode import py_isinstance, wrapval, v_kind, v_len, v_at, v_name

CONTRACTS.pop(JSON.__eq__, None)
CONTRACTS.pop(JSON.__str__, None)

def EQ(a, b):
    """the definition: two nodes denote the same JSON value (items by `jeq`)"""
    i, n = freshvar('i'), freshvar('n', U)
    same = lambda t: And(is_type(a, t), is_type(b, t))
    return Or(same('null'),
              And(same('boolean'), jbool(a) == jbool(b)),
              And(same('number'), jnum(a) == jnum(b)),
              And(same('string'), jstr(a) == jstr(b)),
              And(same('array'), jlen(a) == jlen(b), ForAll([i], Implies(rng(i, jlen(a)), jeq(jchild(a, i), jchild(b, i))))),
              And(same('object'), ForAll([n], jhas(a, n) == jhas(b, n)),
                  ForAll([n], Implies(jhas(a, n), jeq(jchild(a, jidx(a, n)), jchild(b, jidx(b, n)))))))

def eq_setup(itp, *tops):
    core.CUR.opts['isinstance'] = py_isinstance
    core.CUR.opts['texts'] = True
    core.CUR.opts['narrow_facts'] = []
    ids = [t for t in tops]
    def eq(itp, a, kw):
        x, y = a
        if not (isinstance(x, SObj) and isinstance(y, SObj)): return NOT
        if any(x.t.eq(t) for t in tops) and any(y.t.eq(t) for t in tops): return NOT
        return mkbool(jeq(x.t, y.t))      # items: by induction on the depth of the value
    itp.local_contracts[JSON.__eq__] = eq
    itp.local_contracts[cabc.Mapping.__eq__] = lambda itp, a, kw: (_ for _ in ()).throw(Unsupported('equality of mappings'))
    # two mappings' names are the same iff their views' names are
    for t in tops: assume(jlen(t) >= 0)
    # finite sets of names: as many names and all of one among the other's: the same names
    n = freshvar('n', U)
    for x, y in ((x, y) for x in tops for y in tops if not x.eq(y)):
        w = fresh('name_only', U)
        both = And(is_type(x, 'object'), is_type(y, 'object'))
        subset = ForAll([n], Implies(jhas(x, n), jhas(y, n)), patterns=[jhas(x, n)])
        assume(Implies(both, Or(And(jhas(x, w), Not(jhas(y, w))), And(subset, jlen(x) <= jlen(y)))),
               Implies(And(both, jlen(x) == jlen(y), Not(And(jhas(x, w), Not(jhas(y, w))))),
                       ForAll([n], jhas(y, n) == jhas(x, n), patterns=[jhas(y, n)])))

def node(n):
    t = z3.Const(n, U); typ(t); return SObj(t, JSON)

def as_bool(itp, r):
    if r is NotImplemented: return False
    if isinstance(r, Opt): return z3.BoolVal(False)
    return bool_of(r)

@contract('P09', 'node == node', 'JSON.__eq__', 'JSON.__len__', 'JSON.__iter__', 'JSON.__getitem__')
def eq_nodes():
    itp = Interp(); a, b = node('left'), node('right')
    eq_setup(itp, a.t, b.t)
    r, exc = run_contract(lambda: itp.call(JSON.__eq__, [a, b]))
    no_exception('==', exc)
    prove('equal exactly when they denote the same JSON value', as_bool(itp, r) == EQ(a.t, b.t))

@contract('P09', 'node != node', 'JSON.__eq__', 'JSON.__ne__')
def ne_nodes():
    itp = Interp(); a, b = node('left'), node('right')
    eq_setup(itp, a.t, b.t)
    for op in (ast.Eq if branch(z3.Bool('equal')) else ast.NotEq,):
        r, exc = run_contract(lambda: itp.compare(op(), a, b))
        no_exception('comparison', exc)
        prove('== holds exactly for the same JSON value' if op is ast.Eq else '!= is its negation', bool_of(r) == (EQ(a.t, b.t) if op is ast.Eq else Not(EQ(a.t, b.t))))
    own = [c.__qualname__ for c in JSON.__mro__ if '__ne__' in vars(c)]
    prove('no class between JSON and object changes !=', own[:1] == ['object'] or 'JSON' in own[:1], str(own))

PLAIN = {'null': lambda: None, 'boolean': lambda: SBool(z3.Bool('plain')), 'number': lambda: SNum(z3.Real('plain'), z3.Bool('plain_isint')),
         'string': lambda: sstr_('plain'), 'array': lambda: pv(1), 'object': lambda: pv(0)}
def sstr_(n):
    s = SStr(z3.Const(n, U)); assume(kind(s.t) == core.STR); return s
def pv(k):
    t = z3.Const('plain', U); assume(v_kind(t) == k, v_len(t) >= 0); return wrapval(t)

def eq_plain(ty, refl=False):
    @contract('P09', f'node == plain value ({ty})', 'JSON.__eq__')
    def scen():
        itp = Interp(); a = node('left')
        v = PLAIN[ty]()
        b = z3.Const('node_of_plain', U)
        eq_setup(itp, a.t, b)
        # P06: the node built from a value denotes that value
        assume(is_type(b, ty))
        if ty == 'boolean': assume(jbool(b) == v.t)
        if ty == 'number': assume(jnum(b) == v.t, jisint(b) == v.isint)
        if ty == 'string': assume(jstr(b) == v.t)
        def build(itp, x, kw):
            if kw: raise Unsupported('JSON() with arguments')
            if not (x[0] is v or itp.to_u(x[0]).eq(itp.to_u(v))): raise Unsupported('JSON() of another value')
            return SObj(b, JSON)
        CLASSCALL[JSON] = build
        if ty in ('array', 'object'): assume(a.t != v.t)       # a node is not a plain value
        for op in (ast.Eq if branch(z3.Bool('equal')) else ast.NotEq,):
            r, exc = run_contract(lambda: itp.compare(op(), a, v))
            no_exception('comparison', exc)
            prove('== holds exactly for the same JSON value' if op is ast.Eq else '!= is its negation', bool_of(r) == (EQ(a.t, b) if op is ast.Eq else Not(EQ(a.t, b))))
    return scen
import ast
for _t in TYPES: eq_plain(_t)

@contract('P09', 'equality is an equivalence', 'JSON.__eq__')
def equivalence():
    """lemmas over the contract of ==: induction on the depth of the values"""
    a, b, c = (z3.Const(x, U) for x in 'abc')
    i, n = freshvar('i'), freshvar('n', U)
    for t in (a, b, c): typ(t); assume(jlen(t) >= 0)
    x, y, z = (z3.Const('h' + k, U) for k in 'xyz')
    below = fn('below', U, B)              # proper descendants of a, b, c: the induction hypothesis
    assume(*[ForAll([i], below(jchild(t, i)), patterns=[jchild(t, i)]) for t in (a, b, c)])
    assume(ForAll([x], Implies(below(x), jeq(x, x)), patterns=[jeq(x, x)]),
           ForAll([x, y], Implies(And(below(x), below(y), jeq(x, y)), jeq(y, x)), patterns=[jeq(x, y)]),
           ForAll([x, y, z], Implies(And(below(x), below(y), below(z), jeq(x, y), jeq(y, z)), jeq(x, z)), patterns=[z3.MultiPattern(jeq(x, y), jeq(y, z))]))
    which = branch(z3.Bool('reflexivity'))
    if which:
        prove('reflexive', EQ(a, a)); return
    assume(EQ(a, b))
    if branch(z3.Bool('symmetry')):
        prove('symmetric', EQ(b, a)); return
    assume(EQ(b, c))
    prove('transitive', EQ(a, c))

OPS = (('<', ast.Lt), ('<=', ast.LtE), ('>', ast.Gt), ('>=', ast.GtE))
def order(ty, other):
    @contract('P09', f'ordering of {ty}s, with a {other}', 'JSON.__lt__', 'JSON.__le__', 'JSON.__gt__', 'JSON.__ge__')
    def scen():
        itp = Interp(); a, b = node('left'), node('right')
        eq_setup(itp, a.t, b.t)
        assume(is_type(a.t, ty), is_type(b.t, ty))
        val = lambda o: mknum(o.t) if ty == 'number' else mkstr(o.t)
        y = b if other == 'node' else val(b)
        for nm, op in OPS:
            want = itp.compare(op(), val(a), val(b))
            r, exc = run_contract(lambda: itp.compare(op(), a, y))
            no_exception(nm, exc)
            prove(f'{nm} agrees with the underlying values', bool_of(r) == bool_of(want))
    return scen
for _t in ('number', 'string'):
    for _o in ('node', 'plain value'): order(_t, _o)
