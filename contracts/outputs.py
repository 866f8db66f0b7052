"""P20: output formats, over an arbitrary tree of results."""
from .results import *
from .env import contract
import ast
import jschon.output as O
from jschon.uri import URI

text_of = fn('ptr_text', U, U); uri_text = fn('uri_text', U, U); res_abs = fn('res_abs', U, U)
V = fn('shown', U, U); Vn = fn('shown_n', U, I); Va = fn('shown_at', U, I, U)
rvalid = fn('res_valid', U, B); rinst = fn('res_instance', U, U); rpath = fn('res_path', U, U)
issch = fn('at_schema', U, B)

def osetup(itp):
    children_setup(itp)
    ATTRS[(Result, 'absolute_uri')] = lambda itp, o: SObj(res_abs(o.t), URI)
    ATTRS[(Result, 'valid')] = lambda itp, o: SBool(rvalid(o.t))
    ATTRS[(Result, 'schema_node')] = lambda itp, o: Opaque(o.t, 'schemanode')
    CONTRACTS[('str', JSONPointer)] = lambda itp, o: SStr(text_of(o.t))
    CONTRACTS[('str', URI)] = lambda itp, o: SStr(uri_text(o.t))
    itp.local_contracts[JSONPointer.__str__] = lambda itp, a, kw: SStr(text_of(a[0].t))
    itp.local_contracts[URI.__str__] = lambda itp, a, kw: SStr(uri_text(a[0].t))
    def isin(itp, v, c):
        if isinstance(v, Opaque) and v.what == 'schemanode':
            if c is JSONSchema: return mkbool(issch(v.t))
            if c is JSON: return True
            raise Unsupported(f'class {c} of a schema node')
        return NOT
    core.CUR.opts['isinstance'] = isin
    t, v = z3.Const('c_t', U), freshvar('c')
    c, h = rc(t, v), fn('res_hasparent', U, B)
    assume(ForAll([t, v], And(h(c), fn('res_parent', U, U)(c) == t, fn('res_key', U, U)(c) == rk(t, v), kind(rk(t, v)) == core.STR), patterns=[c]))

class Recursion:
    """the recursive function of a formatter: calls on (sub)results are taken by
    its contract; the function itself is then verified on an arbitrary result"""
    def __init__(self, itp, seq, pre=None):
        self.found = None; self.inner = None; self.seq = seq; self.pre = pre
        core.CUR.opts['funcv_hooks'] = [self.hook]
        t = z3.Const('v_t', U)
        if seq: assume(ForAll([t], Vn(t) >= 0, patterns=[Vn(t)]))
    def hook(self, itp, fv, a, kw):
        node = getattr(fv, 'node', None)
        if not isinstance(node, ast.FunctionDef) or not any(isinstance(x, ast.Name) and x.id == node.name for x in ast.walk(node)): return NOT
        rs = [x for x in [*a, *kw.values()] if isinstance(x, SObj) and issubclass(x.cls, Result)]
        if len(rs) != 1: return NOT
        t = rs[0].t
        if self.inner is not None and t.eq(self.inner): return NOT
        rest = [x for x in a if x is not rs[0]] + [v for k, v in sorted(kw.items()) if v is not rs[0]]
        if self.found is None: self.found = (fv, list(a), dict(kw), rs[0], rest)
        else:
            f, a0, kw0, r0, rest0 = self.found
            if f.node is not fv.node or len(rest) != len(rest0): raise Unsupported('another recursion')
            for x, y in zip(rest, rest0):
                if x is not y and not (isinstance(x, (str, type(None))) and x == y) and not core.entails(itp.to_u(x) == itp.to_u(y), 2000): raise Unsupported('recursion with other arguments')
        if self.pre: prove('only results of the same validity are shown', self.pre(t))
        return self.value(t)
    def value(self, t):
        if self.seq: return GenV(mk_map(Vn(t), lambda v: Opaque(Va(t, v), 'shown')))
        return Opaque(V(t), 'shown')
    def arbitrary(self, itp):
        """run the recursive function on an arbitrary result"""
        if self.found is None: raise Unsupported('no recursion found')
        fv, a, kw, r0, rest = self.found
        self.inner = m = z3.Const('some_result', U)
        o = SObj(m, Result)
        sw = lambda x: o if x is r0 else x
        if self.pre: assume(self.pre(m))
        for q in (m, rc(m, z3.Int('zz'))): assume(kind(fn('res_key', U, U)(q)) == core.STR)
        r, exc = run_contract(lambda: itp.call(fv, [sw(x) for x in a], {k: sw(x) for k, x in kw.items()}))
        no_exception('the recursion', exc)
        return m, r

def members(itp, what, d, want, more=()):
    """the dict d has exactly the members `want`: name -> term or sequence"""
    if not isinstance(d, Cont) or d.kind != 'dict' or not all(isinstance(p, Lit) for p in itp.content(d).parts):
        prove(f'{what}: an object', False, repr(d) + (repr(itp.content(d)) if isinstance(d, Cont) else '')); raise core.Infeasible()
    got = {p.v[0]: p.v[1] for p in itp.content(d).parts}
    prove(f'{what}: its members', set(got) - set(more) == set(want), f'{sorted(map(str, got))} vs {sorted(want)}')
    for k, w in want.items():
        if k not in got: continue
        if isinstance(w, Seq): prove_seq(itp, f'{what}: {k}', itp.iterate(got[k]), w)
        elif isinstance(w, tuple): members(itp, f'{what}: {k}', got[k], w[0])
        else:
            x = got[k]
            if z3.is_bool(w): prove(f'{what}: {k}', bool_of(x) == w if isinstance(x, (bool, SBool)) else False, repr(x))
            else: prove(f'{what}: {k}', itp.to_u(x) == w, repr(x))
    return got

def locs(t, names=('instanceLocation', 'keywordLocation', 'absoluteKeywordLocation')):
    return dict(zip(names, (text_of(jpath(rinst(t))), text_of(rpath(t)), uri_text(res_abs(t)))))

def message(t, valid):
    """(present, value) of the annotation or error of a result"""
    return (res_hasann(t), res_ann(t)) if valid else (fn('res_haserr', U, B)(t), fn('res_error', U, U)(t))

def kids(t, sel=None):
    """what is shown for the (selected) subresults, in order"""
    v = freshvar('k')
    return Seq([Map(v, rn(t), [(True if sel is None else sel(rc(t, v)), Seq([Lit(Opaque(V(rc(t, v)), 'shown'))]))])])
def flatkids(t, sel=None):
    v, x = freshvar('k'), freshvar('x')
    return Seq([Map(v, rn(t), [(True if sel is None else sel(rc(t, v)), Seq([Map(x, Vn(rc(t, v)), [(True, Seq([Lit(Opaque(Va(rc(t, v), x), 'shown'))]))])]))])])

def start(seq, pre=None):
    itp = Interp(); osetup(itp)
    r = z3.Const('result', U)
    v = branch(rvalid(r))
    return itp, r, v, Recursion(itp, seq, (lambda t: rvalid(t) == z3.BoolVal(v)) if pre else None)

def show(itp, fmt, r, **kw):
    out, exc = run_contract(lambda: itp.call(Result.output, [SObj(r, Result), fmt], kw))
    no_exception(fmt, exc)
    return out

@contract('P20', 'flag', 'Result.output', 'output.create_output', 'output.flag')
def flag():
    itp = Interp(); osetup(itp); r = z3.Const('result', U)
    members(itp, 'flag', show(itp, 'flag', r), dict(valid=rvalid(r)))

def basic(filtered):
    itp, r, valid, R = start(True)
    kw = {}
    if filtered:
        n = z3.Int('names'); nm = fn('wanted_name', I, U); v = freshvar('n'); assume(n >= 0, ForAll([v], kind(nm(v)) == core.STR, patterns=[nm(v)]))
        kw['annotations'] = itp.new_cont('list', mk_map(n, lambda v: SStr(nm(v))))
    out = show(itp, 'basic', r, **kw)
    x = freshvar('x')
    members(itp, 'basic', out, {'valid': rvalid(r), 'annotations' if valid else 'errors': Seq([Map(x, Vn(r), [(True, Seq([Lit(Opaque(Va(r, x), 'shown'))]))])])})
    m, s = R.arbitrary(itp)
    s = itp.iterate(s)
    if branch(rvalid(m)) != valid:
        prove('nothing below a result of the other validity', Not(tb(seq_nonempty(s)))); return
    has, val = message(m, valid)
    if filtered:
        haskey = fn('res_hasparent', U, B)(m)
        has = And(has, haskey, Exists([v], And(v >= 0, v < n, nm(v) == fn('res_key', U, U)(m))))
    own = branch(has)
    if own:
        if not s.parts or not isinstance(s.parts[0], Lit): prove('its own message comes first', False, repr(s)); return
        members(itp, 'an entry', s.parts[0].v, {**locs(m), 'annotation' if valid else 'error': val})
        s = Seq(s.parts[1:])
    prove_seq(itp, 'its own message, then those of its subresults in order', s, flatkids(m))
for _f in (False, True):
    contract('P20', 'basic' + (', selected keywords' if _f else ''), 'Result.output', 'output.create_output', 'output.basic')((lambda f: lambda: basic(f))(_f))

@contract('P20', 'detailed', 'Result.output', 'output.create_output', 'output.detailed')
def detailed():
    itp, r, valid, R = start(False, True)
    same = lambda t: rvalid(t) == z3.BoolVal(valid)
    ck, mk = ('annotations', 'annotation') if valid else ('errors', 'error')
    out = show(itp, 'detailed', r)
    members(itp, 'detailed', out, {'valid': rvalid(r), **locs(r), ck: kids(r, same)})
    if R.found is None: return
    m, d = R.arbitrary(itp)
    want = kids(m, same); v = freshvar('c')
    cnt = count_term(rn(m), v, [(same(rc(m, v)), None)])
    if isinstance(d, Cont):
        has = ck in {p.v[0] for p in itp.content(d).parts if isinstance(p, Lit)}
        if has:
            prove('several subresults', cnt >= 2); members(itp, 'a result with subresults', d, {**locs(m), ck: want}); return
        prove('no subresult', cnt == 0)
        own, val = message(m, valid); w = locs(m)
        if branch(own): w[mk] = val
        members(itp, 'a result without subresults', d, w); return
    prove('a single subresult stands for its parent', And(cnt == 1, Exists([v], And(rng(v, rn(m)), same(rc(m, v)), itp.to_u(d) == V(rc(m, v))))), repr(d))

@contract('P20', 'verbose', 'Result.output', 'output.create_output', 'output.verbose')
def verbose():
    itp, r, valid, R = start(False)
    out = show(itp, 'verbose', r)
    prove('verbose shows the root', itp.to_u(out) == V(r) if isinstance(out, Opaque) else False)
    m, d = R.arbitrary(itp)
    valid = branch(rvalid(m))
    w = {'valid': rvalid(m), **locs(m)}
    own, val = message(m, valid)
    if branch(own): w['annotation' if valid else 'error'] = val
    if branch(rn(m) > 0): w['annotations' if valid else 'errors'] = kids(m)
    members(itp, 'verbose', d, w)

unit = lambda t: Or(issch(t), fn('res_hasref', U, B)(t))      # evaluation of a schema: its own node, or a reference to it
@contract('P20', 'hierarchical', 'Result.output', 'output.create_output', 'output.hierarchical')
def hierarchical():
    itp, r, valid, R = start(True)
    t = z3.Const('v_t', U)
    assume(issch(r), ForAll([t], Implies(issch(t), Vn(t) == 1), patterns=[Vn(t)]))    # proved below
    out = show(itp, 'hierarchical', r)
    prove('hierarchical shows the root', itp.to_u(out) == Va(r, 0) if isinstance(out, Opaque) else False)
    m, s = R.arbitrary(itp)
    s = itp.iterate(s)
    if not branch(unit(m)):
        prove_seq(itp, 'below a keyword: what is shown for its subresults in order', s, flatkids(m)); return
    prove('one entry for a schema', len(s.parts) == 1 and isinstance(s.parts[0], Lit), repr(s))
    if not (len(s.parts) == 1 and isinstance(s.parts[0], Lit)): return
    valid = branch(rvalid(m))
    same = lambda t: rvalid(t) == z3.BoolVal(valid)
    w = {'valid': rvalid(m), **locs(m, ('instanceLocation', 'evaluationPath', 'schemaLocation'))}
    det = flatkids(m, same)
    if branch(tb(seq_nonempty(det))): w['details'] = det
    v = freshvar('c')
    ann = Seq([Map(v, rn(m), [(message(rc(m, v), valid)[0], Seq([Lit((SStr(fn('res_key', U, U)(rc(m, v))), Opaque(message(rc(m, v), valid)[1], 'message')))]))])])
    name = 'annotations' if valid else 'errors'
    some = branch(tb(seq_nonempty(ann)))
    got = members(itp, 'an entry', s.parts[0].v, w | ({name: Seq([])} if False else {}), more=(name,) if some else ())
    if not some: return
    prove('the messages of its keywords are shown', name in got)
    d = got.get(name)
    if not (isinstance(d, Cont) and d.kind == 'dict'): prove('messages by keyword', False, repr(d)); return
    prove_seq(itp, 'messages by keyword (the last one of equal names counts)', itp.content(d), ann)

@contract('P20', 'absolute_uri', 'Result.absolute_uri', 'Result.refschema')
def absolute_uri():
    itp = Interp(); osetup(itp)
    del ATTRS[(Result, 'absolute_uri')]
    cn, chas = fn('canonical', U, U), fn('has_canonical', U, B)
    ATTRS[(JSONSchema, 'canonical_uri')] = lambda itp, o: Opt(chas(o.t), SObj(cn(o.t), URI))
    frag, hasfrag = fn('uri_fragment', U, U), fn('uri_hasfragment', U, B)
    ATTRS[(URI, 'fragment')] = lambda itp, o: Opt(hasfrag(o.t), SStr(frag(o.t)))
    withfrag, pfrag, ofrag, join = fn('uri_with_fragment', U, U, U), fn('ptr_fragment', U, U), fn('ptr_of_fragment', U, U), fn('ptr_concat', U, U, U)
    lc = itp.local_contracts
    def copy(itp, a, kw):
        if len(a) != 1 or set(kw) != {'fragment'}: raise Unsupported('URI.copy of other components')
        return SObj(withfrag(a[0].t, itp.to_u(kw['fragment'])), URI)
    lc[URI.copy] = copy
    empty = z3.Const('ptr_empty', U)
    def term(p):
        if isinstance(p, SObj): return p.t
        if isinstance(p, Inst) and not itp.iterate(itp.get_field(p, '_keys')).parts: return empty
        raise Unsupported('a pointer of given keys')
    lc[JSONPointer.uri_fragment] = lambda itp, a, kw: SStr(pfrag(term(a[0])))
    CONTRACTS[JSONPointer.parse_uri_fragment.__func__] = lambda itp, a, kw: SObj(ofrag(itp.to_u(a[-1])), JSONPointer, True)
    def div(itp, a, kw):
        if isinstance(a[1], (SObj, Inst)) and issubclass(a[1].cls, JSONPointer):
            x, y = term(a[0]), term(a[1])
            return SObj(y if x.eq(empty) else x if y.eq(empty) else join(x, y), JSONPointer, True)
        raise Unsupported('pointer / other')
    lc[JSONPointer.__truediv__] = div
    r = z3.Const('result', U)
    f = frag(cn(fn('res_schema', U, U)(r)))
    assume(kind(f) == core.STR)
    o, exc = run_contract(lambda: itp.getattr(SObj(r, Result), 'absolute_uri'))
    no_exception('absolute_uri', exc)
    u = itp.to_u(o)
    if branch(fn('res_hasref', U, B)(r)):
        x = fn('res_ref', U, U)(r)
        prove('after a reference: the canonical URI of the schema referred to', u == z3.If(chas(x), cn(x), U_NONE)); return
    s, rel = fn('res_schema', U, U)(r), fn('res_relpath', U, U)(r)
    if not branch(chas(s)): prove('no URI without one of the schema', u == U_NONE); return
    inner = And(hasfrag(cn(s)), f != strlit(''))
    prove('the URI of the schema extended by the path below it', u == withfrag(cn(s), pfrag(z3.If(inner, join(ofrag(f), rel), rel))))
