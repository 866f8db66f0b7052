"""P24: the format keyword, the validator registry, enabling of formats."""
from .kwbase import *
from .env import contract
from . import textspec
from .textspec import SPECS, lang_hook, inlang
from pyvc.interp import _Star as Star
import importlib, sys
import jschon.vocabulary.format as FM
import jschon.formats as FS
from jschon.catalog import Catalog

enabled = fn('format_enabled', U, U, I, B)      # catalog, name, stage
registered = fn('format_registered', U, B); validator = fn('format_validator', U, U); covers = fn('format_covers', U, U, B)
rejects = fn('validator_rejects', U, U, B); crashes = fn('validator_crashes', U, U, B)
class Stage: now = 0

def registry():
    return View('registry', None)
def pair(itp, n): return (Opaque(validator(n), 'validator'), Opaque(n, 'typeset'))
def reg_key(itp, a):
    k = a[0]
    return itp.to_u(k)
def reg_getitem(itp, o, a, kw):
    n = reg_key(itp, a)
    if not branch(registered(n)): raise PyRaise(KeyError(a[0]))
    return pair(itp, n)
def reg_get(itp, o, a, kw):
    n = reg_key(itp, a)
    return pair(itp, n) if branch(registered(n)) else (a[1] if len(a) > 1 else None)
def setup_formats():
    METHODS[('view:registry', '__getitem__')] = reg_getitem
    METHODS[('view:registry', 'get')] = reg_get
    METHODS[('view:registry', '__contains__')] = lambda itp, o, a, kw: registered(reg_key(itp, a))
    core.CUR.store[('G', id(vars(FM)), '_format_validators')] = registry()
    METHODS[('opaque:typeset', '__contains__')] = lambda itp, o, a, kw: covers(o.t, itp.to_u(a[0]))
    Stage.now = 0
    ATTRS[(JSONSchema, 'catalog')] = lambda itp, o: SObj(fn('catalog_of', U, U)(o.t), Catalog)
    CONTRACTS[Catalog.is_format_enabled] = lambda itp, a, kw: mkbool(enabled(a[0].t, itp.to_u(a[1] if len(a) > 1 else kw['format_attr']), Stage.now)) if isinstance(a[0], SObj) else NOT
    ATTRS[(Catalog, '_enabled_formats')] = lambda itp, o: View('enabledset', o)
    METHODS[('view:enabledset', '__contains__')] = lambda itp, o, a, kw: enabled(o.obj.t, itp.to_u(a[0]), Stage.now)

class Crash(Exception): pass

@contract('P24', 'format keyword', 'FormatKeyword.__init__', 'FormatKeyword.evaluate', 'Keyword.__init__')
def format_keyword():
    declared(FM.FormatKeyword, 'format', TYPES)
    n = jstr(z3.Const('kwjson', U)); cat = fn('catalog_of', U, U)(z3.Const('parentschema', U))
    setup_formats()
    # a schema naming an enabled format without a validator is rejected when constructed: KeyError
    lost = And(enabled(cat, n, 0), Not(registered(n)))
    if branch(lost):
        itp = Interp()
        CLASSCALL[JSON] = lambda itp_, a, kw: SObj(z3.Const('kwjson', U), JSON, True)
        assume(kind(n) == core.STR)
        _, exc = run_contract(lambda: itp.construct(FM.FormatKeyword, [SObj(z3.Const('parentschema', U), JSONSchema), SStr(n)], {}))
        prove('enabled without a validator: rejected', exc is not None and issubclass(exc_class(exc), KeyError), repr(exc))
        return
    core.CUR.opts['catalog'] = ATTRS[(JSONSchema, 'catalog')]
    k = setup(FM.FormatKeyword, 'string')
    Stage.now = 1
    calls = []
    def validate(itp, f, a, kw):
        ok = len(a) == 1 and not kw and isinstance(a[0], Opaque) and a[0].what == 'jsonvalue'
        v = itp.to_u(a[0]) if len(a) == 1 else None
        if len(a) == 1 and isinstance(a[0], (SStr, str)):
            # the value of a string node is its text
            good = And(jtype(k.inst.t) == strlit('string'), v == jstr(k.inst.t)); ok = True
        elif len(a) == 1 and (a[0] is None or isinstance(a[0], (SNum, SBool))):
            ok = True; good = {True: jtype(k.inst.t) == strlit('null')}.get(a[0] is None) if a[0] is None else \
                (And(jtype(k.inst.t) == strlit('number'), a[0].t == jnum(k.inst.t)) if isinstance(a[0], SNum) else And(jtype(k.inst.t) == strlit('boolean'), a[0].t == jbool(k.inst.t)))
        else:
            good = v == jvalue(k.inst.t) if ok else z3.BoolVal(False)
        prove('the validator is called with the value of the instance', good, repr(a))
        if not ok: raise core.Infeasible()
        calls.append(f.t)
        if branch(crashes(f.t, jvalue(k.inst.t))): raise PyRaise(Crash('not a ValueError'))
        if branch(rejects(f.t, jvalue(k.inst.t))): raise PyRaise(ValueError('rejected'))
        return None
    ATTRS[('call', 'validator')] = validate
    _, exc = run_contract(lambda: k.itp.call(k.itp.getattr(k.kw, 'evaluate'), [k.inst, k.res]))
    covered = And(enabled(cat, n, 0), covers(n, jtype(k.inst.t)))
    crash, rej = crashes(validator(n), jvalue(k.inst.t)), rejects(validator(n), jvalue(k.inst.t))
    if exc is not None:
        prove('only a crash of the validator propagates', And(covered, crash) if isinstance(exc, Crash) else z3.BoolVal(False), repr(exc)); return
    prove('a crash of the validator is not a verdict', Not(And(covered, crash)))
    prove('fails exactly when enabled, covered and rejected', valid(k) == Not(And(covered, rej)))
    prove('asserts exactly when a validator applies', bool_of(fld(k, '_assert')) == covered)
    prove('not discarded', Not(bool_of(fld(k, '_discard'))))
    prove('records its own value', k.itp.to_u(ann(k)) == jvalue(k.json.t))
    prove('the registered validator, at most once', And(len(calls) <= 1, *[f == validator(n) for f in calls]))
    no_children(k)

@contract('P24', 'enabling formats', 'Catalog.__init__', 'Catalog.enable_formats', 'Catalog.is_format_enabled')
def enabling():
    itp = Interp()
    imported = []
    CONTRACTS[importlib.import_module] = lambda itp, a, kw: imported.append(a[0]) or Opaque(fresh('module', U), 'module')
    core.CUR.store[('K', Catalog, '_catalog_registry')] = itp.new_cont('dict', EMPTY)
    name, other = SStr(z3.Const('name', U)), SStr(z3.Const('othername', U))
    assume(kind(name.t) == core.STR, kind(other.t) == core.STR, name.t != other.t)
    c, exc = run_contract(lambda: itp.construct(Catalog, [name], {})); no_exception('Catalog()', exc)
    d, exc = run_contract(lambda: itp.construct(Catalog, [other], {})); no_exception('Catalog()', exc)
    q = SStr(z3.Const('q', U)); assume(kind(q.t) == core.STR)
    def on(x):
        b, exc = run_contract(lambda: itp.call(Catalog.is_format_enabled, [x, q])); no_exception('is_format_enabled', exc)
        return bool_of(b)
    prove('nothing is enabled at first', Not(on(c)))
    def names(pre):
        n = z3.Int(pre + '_n'); assume(n >= 0)
        f = fn(pre + '_at', I, U)
        v = freshvar('nm'); assume(ForAll([v], kind(f(v)) == core.STR))
        return mk_map(n, lambda v: SStr(f(v))), Exists([v], And(v >= 0, v < n, f(v) == q.t))
    s1, in1 = names('first'); s2, in2 = names('second')
    _, exc = run_contract(lambda: itp.call(Catalog.enable_formats, [c, Star(s1)])); no_exception('enable_formats', exc)
    prove('exactly the named formats are enabled', on(c) == in1)
    prove('jschon.formats is loaded', 'jschon.formats' in imported)
    _, exc = run_contract(lambda: itp.call(Catalog.enable_formats, [c, Star(s2)])); no_exception('enable_formats', exc)
    prove('enabling is cumulative', on(c) == Or(in1, in2))
    prove('only this catalog', Not(on(d)))

@contract('P24', 'registering a validator', 'format_validator')
def registering():
    itp = Interp()
    setup_formats()
    sets = []
    METHODS[('view:registry', '__setitem__')] = lambda itp, o, a, kw: sets.append((a[0], a[1]))
    n, f, ts = SStr(z3.Const('n', U)), Opaque(z3.Const('f', U), 'validator'), Opaque(z3.Const('ts', U), 'typeset')
    assume(kind(n.t) == core.STR)
    given = core.choose(2)
    deco, exc = run_contract(lambda: itp.call(FM.format_validator, [n], dict(instance_types=ts) if given else {}))
    no_exception('format_validator', exc)
    prove('nothing is registered before a function is decorated', not sets)
    r, exc = run_contract(lambda: itp.call(deco, [f]))
    no_exception('decorator', exc)
    prove('the function is returned', isinstance(r, Opaque) and r.t.eq(f.t))
    ok = len(sets) == 1 and isinstance(sets[0][1], tuple) and len(sets[0][1]) == 2
    prove('one entry is registered', ok, repr(sets))
    if not ok: return
    key, (g, tt) = sets[0]
    prove('under the name of the format', itp.to_u(key) == n.t)
    prove('the function itself', isinstance(g, Opaque) and g.t.eq(f.t))
    prove('the instance types (default: string)', (isinstance(tt, Opaque) and tt.t.eq(ts.t)) if given else (isinstance(tt, (tuple, frozenset)) and set(tt) == {'string'}), repr(tt))

@contract(('P24', 'P01'), 'the json-pointer format', 'validate_json_pointer')
def json_pointer_format():
    itp = Interp()
    core.CUR.opts['texts'] = True; core.CUR.opts['re_hook'] = lang_hook(['pointer'])
    if core.choose(2):
        v = SStr(z3.Const('s', U)); assume(kind(v.t) == core.STR)
        _, exc = run_contract(lambda: itp.call(FS.validate_json_pointer, [v]))
        if exc is not None:
            prove('raises ValueError', issubclass(exc_class(exc), ValueError), repr(exc))
            prove('rejects only what is no pointer', Not(inlang['pointer'](v.t)))
        else: prove('accepts only pointers', inlang['pointer'](v.t))
    else:
        v = [None, SBool(z3.Bool('b')), SNum(z3.Real('x'), z3.Bool('xi')), itp.new_cont('list', EMPTY), itp.new_cont('dict', EMPTY)][core.choose(5)]
        _, exc = run_contract(lambda: itp.call(FS.validate_json_pointer, [v]))
        prove('other values are accepted', exc is None, repr(exc))
    entry = FM._format_validators.get('json-pointer')
    prove('registered for strings', entry is not None and entry[0] is FS.validate_json_pointer and tuple(entry[1]) == ('string',), repr(entry))
