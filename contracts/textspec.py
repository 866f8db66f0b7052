"""Specifications of texts: membership in a named language, the pieces of a
JSON pointer string, chains of constant replacements (decided by pyvc.lang)."""
from .model import *
from pyvc import lang
import re, time, urllib.parse

SPECS = {'pointer': lang.POINTER, 'index': lang.NONNEG, 'relative': lang.RELATIVE, 'over': lang.OVER}
inlang = {n: fn('inlang:' + n, U, B) for n in SPECS}
ptok_n = fn('ptok_n', U, I); ptok = fn('ptok', U, I, U)       # the raw reference tokens of a pointer text
_memo = {}
def decide(key, f):
    if key not in _memo: _memo[key] = f()
    return _memo[key]

def text_obligation(name, f, detail=''):
    """an obligation decided by the automata back end; f() -> None or a witness"""
    p = core.CUR
    t0 = time.time()
    try:
        w = f(); st = 'discharged' if w is None else 'failed'
    except core.Undecided as e:
        w, st = str(e), 'unknown'
    p.obligations.append(core.Obligation(f'{p.name}/{name}', st, 'automata', time.time() - t0, f'{detail} witness: {w!r}' if st != 'discharged' else '', None))
    return st == 'discharged'

def lang_hook(specs):
    """the code's pattern is recognised by the language it denotes, not by its spelling"""
    def hook(itp, method, pattern, flags, s):
        if not isinstance(s, SStr): return NOT
        pre = {'fullmatch': '', 'match': '', 'search': ''}[method]
        if method != 'fullmatch': return NOT
        reg = joined_of(s)
        for n in specs:
            try: w = decide(('cmp', pattern, flags, n), lambda: lang.compare(pattern, flags, SPECS[n]))
            except core.Undecided: continue
            if w is None:
                text_obligation(f'the pattern denotes the language {n}', lambda: None)
                if n == 'pointer' and reg is not None and all_tokens(reg): return Opt(z3.BoolVal(True), Opaque(fresh('m', U), 'match'))
                return Opt(inlang[n](s.t), Opaque(fn('match:' + pattern, U, U)(s.t), 'match'))
        for n in specs[:1]:
            text_obligation(f'the pattern denotes the language {n}', lambda: decide(('cmp', pattern, flags, n), lambda: lang.compare(pattern, flags, SPECS[n])), f'pattern {pattern!r}')
        return NOT
    return hook

# ---- chains of replacements applied to a text
def chain_of(t, upto=None):
    """(root term, [Replace...]) of nested constant replacements"""
    out = []
    while z3.is_app(t):
        if t.decl().name() in core.CHARMAPS: out.append(lang.Hom(core.CHARMAPS[t.decl().name()])); t = t.arg(0); continue
        if t.decl().name() != 'str.replace' or t.num_args() != 3: break
        a, b = core.lit_of(t.arg(1)), core.lit_of(t.arg(2))
        if not a or b is None: break
        out.append(lang.Replace(a, b)); t = t.arg(0)
    return t, out[::-1]

def key_of(chain): return tuple((m.a, m.b) if isinstance(m, lang.Replace) else tuple(sorted(m.m.items())) for m in chain)
def chain_is(chain, spec, name, domain):
    return decide(('eq', key_of(chain), name, domain), lambda: lang.equal(chain, spec, domain))
def chain_in(chain, domain, target):
    return decide(('img', key_of(chain), domain, target), lambda: lang.image_in(chain, domain, target))

# ---- ''.join(f(c) for c in text), f a choice between constants
def charmap(seq):
    if len(seq.parts) != 1 or not isinstance(seq.parts[0], Map): return None
    m = seq.parts[0]; n = m.n
    if not (z3.is_app(n) and n.decl().name() == 'strlen'): return None
    at = fn('str.at', U, I, U)(n.arg(0), m.var)
    c = z3.Const('charmap!c', U)
    consts = {}
    def ev(t, ch):
        """the formula / text t for the character ch (None: any other one)"""
        if t is True or t is False: return t
        if isinstance(t, str): return t
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if t.eq(c): return c if ch is None else ch
        l = core.lit_of(t)
        if l is not None: consts[l] = True; return l
        if not z3.is_app(t): raise KeyError
        k = t.decl().kind()
        if k == z3.Z3_OP_AND: return all([ev(x, ch) for x in t.children()])
        if k == z3.Z3_OP_OR: return any([ev(x, ch) for x in t.children()])
        if k == z3.Z3_OP_NOT: return not ev(t.arg(0), ch)
        if k == z3.Z3_OP_ITE: return ev(t.arg(1) if ev(t.arg(0), ch) else t.arg(2), ch)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and t.num_args() == 2:
            a, b = ev(t.arg(0), ch), ev(t.arg(1), ch)
            e = (a is c and b is c) or (isinstance(a, str) and isinstance(b, str) and a == b)
            if (a is c) != (b is c) and len(b if a is c else a) == 1 and (b if a is c else a) not in known: raise LookupError(b if a is c else a)
            if (isinstance(a, str) or a is c) and (isinstance(b, str) or b is c): return e if k == z3.Z3_OP_EQ else not e
        raise KeyError
    def out(ch):
        o = []
        for g, sub in m.alts:
            g = g if isinstance(g, bool) else z3.substitute(g, (at, c))
            if not ev(g, ch): continue
            for p in sub.parts:
                if not isinstance(p, Lit) or not isinstance(p.v, (str, SStr)): raise KeyError
                o.append(ev(p.v if isinstance(p.v, str) else z3.substitute(p.v.t, (at, c)), ch))
        if len(o) > 1: raise KeyError
        return o[0] if o else ''
    known = set()
    while True:
        try:
            mp = {ch: out(ch) for ch in sorted(known)}
            rest = out(None)
            if rest is not c or not all(isinstance(x, str) for x in mp.values()): return None
            break
        except LookupError as e:
            if type(e) is KeyError: return None
            known.add(e.args[0])
    mp = {a: b for a, b in mp.items() if a != b}
    r = n.arg(0)
    if mp:
        name = 'str.map:' + repr(sorted(mp.items()))
        core.CHARMAPS[name] = mp
        r = fn(name, U, U)(r); assume(kind(r) == core.STR)
    return SStr(r)

# ---- '/' + x0 + '/' + x1 ... : texts joined from pieces
def str_join(itp, sep, seq):
    if sep != '': return NOT
    m = charmap(seq)
    if m is not None: return m
    t = fresh('joined', U)
    assume(kind(t) == core.STR)
    core.CUR.opts.setdefault('joined', {})[t.get_id()] = (t, seq)
    assume((t == strlit('')) == Not(tb(seq_nonempty(seq))))
    return SStr(t)
CONTRACTS['str_join'] = lambda itp, sep, seq: str_join(itp, sep, seq) if core.CUR.opts.get('texts') else NOT

def joined_of(s):
    r = core.CUR.opts.get('joined', {}).get(s.t.get_id()) if isinstance(s, SStr) else None
    return r[1] if r else None

def pieces(seq):
    """[(part, token term)] when every element is '/' + token, else None"""
    out = []
    cats = core.CUR.opts.get('cats', {})
    def one(v):
        if not isinstance(v, SStr): return None
        c = cats.get(v.t.get_id())
        ps = c[1] if c else cat_parts(v.t)
        if ps is None or len(ps) != 2 or ps[0] != '/' or isinstance(ps[1], str): return None
        return ps[1]
    for p in seq.parts:
        if isinstance(p, Lit): t = one(p.v)
        elif isinstance(p, Map) and is_pure(p): t = one(p.alts[0][1].parts[0].v)
        else: return None
        if t is None: return None
        out.append((p, t))
    return out

def cat_parts(t):
    if not (z3.is_app(t) and t.decl().name().startswith('cat:')): return None
    sig = t.decl().name()[4:].split('\x00')
    args = list(t.children()); out = []
    for q in sig: out.append(args.pop(0) if q == '\x01' else q)
    return out

def dom_of(root):
    """language known to contain a root text"""
    if z3.is_app(root) and root.decl().name() == 'ptok': return lang.TOKEN
    return lang.ANY

def all_tokens(seq):
    ps = pieces(seq)
    if ps is None: return False
    for p, t in ps:
        root, ch = chain_of(t)
        if chain_in(ch, dom_of(root), lang.TOKEN) is not None: return False
    return True

def str_split(itp, s, a):
    """str.split('/'): the text of a pointer is '' followed by its raw tokens"""
    if not core.CUR.opts.get('texts') or not isinstance(s, SStr) or len(a) != 1 or a[0] != '/': return NOT
    j = joined_of(s)
    if j is not None:
        ps = pieces(j)
        if ps is None: return NOT
        for p, t in ps:
            root, ch = chain_of(t)
            if chain_in(ch, dom_of(root), '[^/]*') is not None: return NOT
        return itp.new_cont('list', Seq([Lit('')] + [Lit(SStr(t)) if isinstance(p, Lit) else Map(p.var, p.n, [(True, Seq([Lit(SStr(t))]))]) for p, t in ps]))
    if not core.entails(inlang['pointer'](s.t)): return NOT
    assume(ptok_n(s.t) >= 0)
    return itp.new_cont('list', Seq([Lit('')]) + mk_map(ptok_n(s.t), lambda v: tokstr(ptok(s.t, v))))
def tokstr(t):
    return SStr(t)
CONTRACTS['str_split'] = str_split

# ---- urllib.parse
from pyvc.builtins import BUILTINS
LEGAL = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@/?")
quoted = fn('quoted', U, U); unquoted = fn('unquoted', U, U)
def c_quote(itp, a, kw):
    """urllib.parse.quote: keeps [A-Za-z0-9_.~-] and the safe characters, percent-
    encodes the UTF-8 form of everything else"""
    s = a[0]
    if not isinstance(s, SStr): raise Unsupported('quote()')
    safe = a[1] if len(a) > 1 else kw.get('safe', '/')
    ok = isinstance(safe, str) and not set(kw) - {'safe'} and len(a) <= 2
    prove('the fragment encoding keeps only legal characters and encodes "%"', ok and set(safe) <= LEGAL)
    t = quoted(s.t)
    assume(unquoted(t) == s.t, kind(t) == core.STR)
    return SStr(t)
BUILTINS[urllib.parse.quote] = c_quote
def c_unquote(itp, a, kw):
    s = a[0]
    if kw or len(a) != 1 or not isinstance(s, SStr): raise Unsupported('unquote()')
    t = s.t
    if z3.is_app(t) and t.decl().name() == 'quoted': return SStr(t.arg(0))
    assume(kind(unquoted(t)) == core.STR)
    return SStr(unquoted(t))
BUILTINS[urllib.parse.unquote] = c_unquote

# ---- int() of an index token
too_long = fn('int_text_too_long', U, B)
MAXLEN = 2 ** 63
def int_of_str(itp, s):
    """int(text): a ValueError beyond the interpreter's digit limit"""
    if not core.CUR.opts.get('texts'): return NOT
    if core.entails(inlang['index'](s.t)):
        n = fn('str2int', U, I)(s.t)
        assume(n >= 0, Implies(too_long(s.t), n > MAXLEN), fn('istr', I, U)(n) == s.t)
        if branch(too_long(s.t)): itp.throw(ValueError, 'Exceeds the limit for integer string conversion')
        return mkint(n)
    return NOT
CONTRACTS['int_of_str'] = int_of_str

def texts(itp, *specs):
    core.CUR.opts['texts'] = True
    core.CUR.opts['re_hook'] = lang_hook(specs)
    core.CUR.opts['narrow_facts'] = []
