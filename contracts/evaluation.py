"""P18: JSONSchema.evaluate, Result.__init__/__call__ and the result flags."""
from .kwbase import *
from .env import contract
from jschon.vocabulary import Keyword

kwn = fn('kw_count', U, I); kwname = fn('kw_name', U, I, U); kwobj = fn('kw_obj', U, I, U)
kstatic = fn('kw_static', U, B); ktypes = fn('kw_types', U, U); tin = fn('type_in', U, U, B)
KV, KA, KD = fn('KV', U, U, B), fn('KA', U, U, B), fn('KD', U, U, B)

ATTRS[(Keyword, 'static')] = lambda itp, o: SBool(kstatic(o.t))
ATTRS[(Keyword, 'instance_types')] = lambda itp, o: Opaque(ktypes(o.t), 'typeset')
METHODS[('opaque:typeset', '__contains__')] = lambda itp, o, a, kw: tin(o.t, itp.to_u(a[0]))

def c_kw_evaluate(itp, a, kw):
    """Keyword.evaluate(instance, result): decides only its own result node
    (contracts P14-P17, P19, P24; minContains may also pass its sibling contains)"""
    self, inst, res = a
    if not isinstance(self, SObj): return NOT
    log_app(itp, 'kweval', (self, inst, itp.getattr(res, 'key'), itp.getattr(res, 'instance'), itp.getattr(res, 'schema'), itp.getattr(res, 'parent'), itp.getattr(res, 'path'), itp.getattr(res, 'relpath')))
    prove('a keyword starts from a fresh result', And(bool_of(itp.getattr(res, '_valid')), bool_of(itp.getattr(res, '_assert')), Not(bool_of(itp.getattr(res, '_discard')))))
    i = itp.to_u(inst)
    itp.setattr(res, '_valid', SBool(KV(self.t, i))); itp.setattr(res, '_assert', SBool(KA(self.t, i))); itp.setattr(res, '_discard', SBool(KD(self.t, i)))
    return None

def schema_setup(case, nested):
    k = KW(); k.itp = itp = Interp()
    CLASSCALL[JSONPointer] = ptr_new
    CONTRACTS_LOCAL(k, {Keyword.evaluate: c_kw_evaluate})
    sch = z3.Const('schema', U)
    cls = JSONSchema
    k.schema = SObj(sch, cls)
    n = kwn(sch); assume(n >= 0)
    ATTRS[(JSONSchema, 'keywords')] = lambda itp, o: View('kwdict', o)
    METHODS[('view:kwdict', 'items')] = lambda itp, o, a, kw: View('items', o, mk_map(kwn(o.obj.t), lambda v: (SStr(kwname(o.obj.t, v)), SObj(kwobj(o.obj.t, v), Keyword))))
    METHODS[('view:kwdict', 'values')] = lambda itp, o, a, kw: View('values', o, mk_map(kwn(o.obj.t), lambda v: SObj(kwobj(o.obj.t, v), Keyword)))
    METHODS[('view:kwdict', '__iter__')] = lambda itp, o, a, kw: mk_map(kwn(o.obj.t), lambda v: SStr(kwname(o.obj.t, v)))
    core.CUR.opts['fields'] = None
    v, w = freshvar('q'), freshvar('q')
    assume(ForAll([v, w], Implies(And(rng(v, n), rng(w, n), kwname(sch, v) == kwname(sch, w)), v == w)), ForAll([v], Implies(rng(v, n), kind(kwname(sch, v)) == core.STR)))
    k.inst = SObj(z3.Const('instance', U), JSON)
    assume(is_type(k.inst.t, *TYPES))
    if case == 'object': assume(jtype(sch) == strlit('object'))
    else: assume(jtype(sch) == strlit('boolean'), jbool(sch) == (case == 'true'))
    k.res = None
    if nested:
        k.parent = SObj(z3.Const('parentresult', U), Result)
        k.res = itp.construct(Result, [SObj(z3.Const('rschema', U), JSONSchema), k.inst], dict(parent=k.parent, key=SStr(z3.Const('rkey', U))))
        k.v0 = z3.Bool('was_valid')
        itp.setattr(k.res, '_valid', SBool(k.v0))
        # children left by applications of other schemas to other instances
        m = z3.Int('m'); assume(m >= 0)
        pk, pp, pc = fn('pk', I, U), fn('pp', I, U), fn('pc', I, U)
        x = freshvar('q')
        assume(ForAll([x], Implies(rng(x, m), And(pp(x) != jpath(k.inst.t), jpath(fn('res_instance', U, U)(pc(x))) == pp(x)))))
        ch = itp.getattr(k.res, 'children')
        itp.set_content(ch, mk_map(m, lambda x: ((SStr(pk(x)), SObj(pp(x), JSONPointer, True)), SObj(pc(x), Result))))
    init_log('kweval')
    k.heap0 = set(k for k in core.CUR.store if k[0] == 'H')
    return k

def no_heap_writes(k):
    new = [x for x in core.CUR.store if x[0] == 'H' and not str(x[1]).startswith('log:') and core.CUR.store[x].parts]
    prove('the schema and the instance are not modified', not new, str(new))

def res_field(k, r, name): return k.itp.getattr(r, name)

def evaluate_scen(case, nested):
    k = schema_setup(case, nested)
    itp = k.itp
    args = [k.schema, k.inst] + ([k.res] if nested else [])
    CONTRACTS_LOCAL(k, {JSONSchema.evaluate: lambda *_: NOT})
    r, exc = run_contract(lambda: itp.call(JSONSchema.evaluate, args))
    no_exception('evaluate', exc)
    if nested: prove('returns the given result', isinstance(r, Inst) and r.id == k.res.id)
    else:
        prove('returns a result', isinstance(r, Inst) and r.cls is Result)
        if not isinstance(r, Inst): raise core.Infeasible()
        prove('root result', itp.getattr(r, 'parent') is None)
        sc, ins = itp.getattr(r, 'schema'), itp.getattr(r, 'instance')
        prove('root result schema and instance', isinstance(sc, SObj) and sc.t.eq(k.schema.t) and isinstance(ins, SObj) and ins.t.eq(k.inst.t))
        prove('root path', itp.getattr(r, 'path').t == PTR_ROOT)
    s, i = k.schema.t, k.inst.t
    n = kwn(s)
    app = lambda v: And(rng(v, n), Not(kstatic(kwobj(s, v))), tin(ktypes(kwobj(s, v)), jtype(i)))
    ko = lambda f, v: f(kwobj(s, v), i)
    v = freshvar('e')
    want = {'true': z3.BoolVal(True), 'false': z3.BoolVal(False)}.get(case)
    if want is None:
        want = ForAll([v], Implies(app(v), Or(ko(KV, v), Not(ko(KA, v)), ko(KD, v))))
    if nested: want = And(k.v0, want)
    prove('the verdict is the conjunction of the applicable keywords', bool_of(itp.getattr(r, '_valid')) == want)
    log = get_log('kweval')
    rp = itp.getattr(r, 'path').t
    rel = z3.If(itp.to_u(itp.getattr(r, 'schema')) == s, pchild(itp.getattr(r, 'relpath').t, z3.Const('hole', U)), pchild(PTR_ROOT, z3.Const('hole', U)))
    relat = lambda x: z3.substitute(rel, (z3.Const('hole', U), x))
    def m(e, v): return And(e[0].t == kwobj(s, v), e[1].t == i, itp.to_u(e[2]) == kwname(s, v), e[3].t == i, e[4].t == s, tb(itp.is_(e[5], r)), e[6].t == pchild(rp, kwname(s, v)), e[7].t == relat(kwname(s, v)))
    if case != 'object':
        prove('no keyword is evaluated', not log.parts)
    else:
        prove('only applicable keywords are evaluated', seq_forall(log, lambda e: Exists([v], And(app(v), m(e, v)))))
        prove('every applicable keyword is evaluated', ForAll([v], Implies(app(v), seq_exists(log, lambda e: m(e, v)))))
        # once each and in the order of the keywords dictionary: the log is one pass over it
        one = len(log.parts) == 1 and isinstance(log.parts[0], Map) and all(len(sub.parts) == 1 and isinstance(sub.parts[0], Lit) for _, sub in log.parts[0].alts)
        if one:
            p = log.parts[0]; w = freshvar('w')
            prove('evaluated in order, once each', And(p.n == n, ForAll([w], And(*[Implies(And(rng(w, p.n), g), sub.parts[0].v[0].t == kwobj(s, w)) for g, sub in inst_part(p, w)]))))
        else:
            prove('evaluated in order, once each', zint(seq_len(log)) == count_term(n, v, [(And(Not(kstatic(kwobj(s, v))), tin(ktypes(kwobj(s, v)), jtype(i))), None)]))
    prove('asserts', bool_of(itp.getattr(r, '_assert'))); prove('not discarded', Not(bool_of(itp.getattr(r, '_discard'))))
    no_heap_writes(k)
    if case == 'object':
        # a discarded keyword leaves no result behind, any other is found again
        ch = itp.content(itp.getattr(r, 'children'))
        prove('results kept are exactly those not discarded', ForAll([v], Implies(app(v), seq_exists(ch, lambda kv: And(itp.to_u(kv[0][0]) == kwname(s, v), kv[0][1].t == jpath(i))) == Not(ko(KD, v)))))

for _case in ('true', 'false', 'object'):
    for _n in (False, True):
        contract('P18', f'evaluate: {_case} schema{", nested" if _n else ""}', 'JSONSchema.evaluate', 'Result.__init__', 'Result.__call__', 'Result.passed')(
            (lambda c, n: lambda: evaluate_scen(c, n))(_case, _n))
