"""Sequence postconditions: equality of a computed sequence with a specified one."""
from .model import *

def norm(s):
    """drop parts that hold no element; splice single-iteration maps"""
    out = []
    for p in s.parts:
        if isinstance(p, Map):
            n = z3.simplify(p.n)
            if z3.is_int_value(n) and n.as_long() <= 0: continue
            alts = [(g, norm(sub)) for g, sub in p.alts]
            alts = [(g, sub) for g, sub in alts if sub.parts and not (z3.is_expr(g) and z3.is_false(z3.simplify(g)))]
            if not alts: continue
            out.append(Map(p.var, n, alts))
        else: out.append(p)
    return Seq(out)

def push(alts):
    """a condition on an inner iteration becomes one on its elements"""
    (g, sub), = alts
    if len(sub.parts) == 1 and isinstance(sub.parts[0], Map):
        m = sub.parts[0]
        return [(True, Seq([Map(m.var, m.n, [(And(g, g2), s2) for g2, s2 in m.alts])]))]
    return alts

def prove_seq(itp, name, got, want, eq=None, hyp=None):
    """the sequence `got` is `want`, element by element (structural proof: parts
    correspond one to one, bounds agree, guards are equivalent, elements equal)"""
    eq = eq or (lambda a, b: itp.to_u(a) == itp.to_u(b))
    hyp = z3.BoolVal(True) if hyp is None else hyp
    got, want = norm(got), norm(want)
    if len(got.parts) != len(want.parts) or any(type(a) is not type(b) for a, b in zip(got.parts, want.parts)):
        got, want = (Seq([p for p in s.parts if not (isinstance(p, Map) and core.entails(p.n <= 0, 500))]) for s in (got, want))
    if len(got.parts) != len(want.parts) or any(type(a) is not type(b) for a, b in zip(got.parts, want.parts)):
        pure = lambda s: s.parts and all(isinstance(p, Lit) or is_pure(p) for p in s.parts)
        if z3.is_true(hyp) and pure(got) and pure(want) and not core.CUR.idx:
            # the parts do not correspond: position by position
            prove(f'{name}: number of elements', zint(seq_len(got)) == zint(seq_len(want)))
            i = fresh('position', I)
            assume(i >= 0, i < zint(seq_len(want)), i < zint(seq_len(got)))
            prove(f'{name}: element', tb(eq(seq_at(got, SInt(i)), seq_at(want, SInt(i)))), f'{got} vs {want}')
            return
        # both empty on this path?
        prove(f'{name}: same elements', Implies(hyp, And(Not(tb(seq_nonempty(got))), Not(tb(seq_nonempty(want))))) if not any(isinstance(p, Opq) for p in got.parts + want.parts) else z3.BoolVal(False), f'{got}\n vs {want}')
        return
    for a, b in zip(got.parts, want.parts):
        if isinstance(a, Lit):
            prove(f'{name}: element', Implies(hyp, tb(eq(a.v, b.v))), f'{a.v} vs {b.v}')
        elif isinstance(a, Map):
            pos = lambda n: z3.If(n >= 0, n, z3.IntVal(0))
            prove(f'{name}: number of iterations', Implies(hyp, pos(a.n) == pos(b.n)))
            v = freshvar('sq')
            aa, bb = inst_part(a, v), inst_part(b, v)
            if len(aa) == len(bb) == 1 and not (tb(aa[0][0]).eq(tb(bb[0][0]))): aa, bb = push(aa), push(bb)
            h = And(hyp, rng(v, a.n))
            ga, gb = Or(*[tb(g) for g, _ in aa]), Or(*[tb(g) for g, _ in bb])
            prove(f'{name}: selection', Implies(h, ga == gb))
            for g1, s1 in aa:
                for g2, s2 in bb:
                    both = And(h, tb(g1), tb(g2))
                    if len(aa) * len(bb) > 1 and core.entails(Not(both), 500): continue
                    prove_seq(itp, name, s1, s2, eq, both)
        else:
            prove(f'{name}: known elements', z3.BoolVal(False), f'{a} vs {b}')
