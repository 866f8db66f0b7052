"""Independent reference semantics used to find failing inputs for a failed
proof obligation (and for the bounded cross-check of assumed contracts):
RFC 6901, RFC 6902, JSON equality, a JSON Schema evaluator.  Nothing here is
taken from, or calls, the code under verification."""
import re
from fractions import Fraction
from urllib.parse import urljoin, urldefrag, unquote, quote

def join(base, ref):
    """RFC 3986 resolution (urljoin does not know fragments of non-hierarchical URIs)"""
    return base if not ref else urldefrag(base)[0] + ref if ref[0] == '#' else urljoin(base, ref)

# ------------------------------------------------------------- JSON values
def jt(v):
    if v is None: return 'null'
    if isinstance(v, bool): return 'boolean'
    if isinstance(v, (int, float)): return 'number'
    if isinstance(v, str): return 'string'
    if isinstance(v, (list, tuple)): return 'array'
    if isinstance(v, dict): return 'object'
    raise TypeError(v)

def jeq(a, b):
    t = jt(a)
    if t != jt(b): return False
    if t == 'array': return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    if t == 'object': return a.keys() == b.keys() and all(jeq(a[k], b[k]) for k in a)
    return a == b

def same(a, b):
    """identical values: also int/float and member order"""
    if type(a) is not type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b

# ------------------------------------------------------------- RFC 6901
class PtrSyntax(Exception): pass
class PtrRef(Exception): pass

def parse_ptr(s):
    if s == '': return []
    if s[0] != '/': raise PtrSyntax(s)
    out = []
    for tok in s[1:].split('/'):
        r, i = '', 0
        while i < len(tok):
            if tok[i] == '~':
                if i + 1 >= len(tok) or tok[i + 1] not in '01': raise PtrSyntax(s)
                r += '~' if tok[i + 1] == '0' else '/'
                i += 2
            else:
                r += tok[i]; i += 1
        out.append(r)
    return out

def print_ptr(keys):
    o = ''
    for k in keys:
        o += '/'
        for c in k:
            o += '~0' if c == '~' else '~1' if c == '/' else c
    return o

def index_of(tok, n, extra=0):
    """array index denoted by a token, or None"""
    if tok == '' or any(c not in '0123456789' for c in tok): return None
    if len(tok) > 1 and tok[0] == '0': return None
    if len(tok) > 18: return None
    i = int(tok)
    return i if i < n + extra else None

def get(doc, keys):
    for k in keys:
        if isinstance(doc, dict):
            if k not in doc: raise PtrRef(k)
            doc = doc[k]
        elif isinstance(doc, (list, tuple)):
            i = index_of(k, len(doc))
            if i is None: raise PtrRef(k)
            doc = doc[i]
        else:
            raise PtrRef(k)
    return doc

# ------------------------------------------------------------- RFC 6902
class PatchErr(Exception): pass

def cp(v):
    if isinstance(v, dict): return {k: cp(x) for k, x in v.items()}
    if isinstance(v, list): return [cp(x) for x in v]
    return v

def p_add(doc, keys, value):
    if not keys: return cp(value)
    try: parent = get(doc, keys[:-1])
    except PtrRef: raise PatchErr()
    k = keys[-1]
    if isinstance(parent, dict): parent[k] = cp(value)
    elif isinstance(parent, list):
        i = len(parent) if k == '-' else index_of(k, len(parent), 1)
        if i is None: raise PatchErr()
        parent.insert(i, cp(value))
    else: raise PatchErr()
    return doc

class Nothing: pass
def p_remove(doc, keys):
    try: get(doc, keys)
    except PtrRef: raise PatchErr()
    if not keys: return Nothing
    parent = get(doc, keys[:-1])
    if isinstance(parent, dict): del parent[keys[-1]]
    else: del parent[int(keys[-1])]
    return doc

def p_replace(doc, keys, value):
    try: get(doc, keys)
    except PtrRef: raise PatchErr()
    if not keys: return cp(value)
    parent = get(doc, keys[:-1])
    if isinstance(parent, dict): parent[keys[-1]] = cp(value)
    else: parent[int(keys[-1])] = cp(value)
    return doc

def p_get(doc, keys):
    try: return get(doc, keys)
    except PtrRef: raise PatchErr()

def apply_op(doc, op):
    """doc is consumed"""
    keys = parse_ptr(op['path'])
    o = op['op']
    if o == 'add': return p_add(doc, keys, op['value'])
    if o == 'remove': return p_remove(doc, keys)
    if o == 'replace': return p_replace(doc, keys, op['value'])
    if o == 'test':
        if not jeq(p_get(doc, keys), op['value']): raise PatchErr()
        return doc
    src = parse_ptr(op['from'])
    v = cp(p_get(doc, src))
    if o == 'copy': return p_add(doc, keys, v)
    if o == 'move':
        if len(keys) > len(src) and keys[:len(src)] == src: raise PatchErr()
        if keys == src: return doc
        doc = p_remove(doc, src)
        if doc is Nothing: raise PatchErr()
        return p_add(doc, keys, v)
    raise ValueError(o)

# ------------------------------------------------------------- JSON Schema
def num(x):
    if isinstance(x, int): return Fraction(x)
    return Fraction(repr(x))

class Unresolvable(Exception): pass

D19 = 'https://json-schema.org/draft/2019-09/schema'
D20 = 'https://json-schema.org/draft/2020-12/schema'

SUB1 = {'not', 'if', 'then', 'else', 'additionalProperties', 'propertyNames', 'contains', 'unevaluatedItems', 'unevaluatedProperties',
        'additionalItems', 'contentSchema'}
SUBA = {'allOf', 'anyOf', 'oneOf', 'prefixItems'}
SUBO = {'properties', 'patternProperties', 'dependentSchemas', '$defs'}
ORDER = ['$ref', '$dynamicRef', '$recursiveRef', 'properties', 'patternProperties', 'additionalProperties', 'prefixItems', 'items', 'additionalItems',
         'contains', 'if', 'then', 'else', 'allOf', 'anyOf', 'oneOf', 'not', 'dependentSchemas', 'unevaluatedItems', 'unevaluatedProperties']
ANNOT = {'title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', 'contentMediaType', 'contentEncoding', 'format'}
STATIC = {'$schema', '$id', '$anchor', '$dynamicAnchor', '$recursiveAnchor', '$defs', '$comment', '$vocabulary'}
KNOWN20 = SUB1 - {'additionalItems'} | SUBA | SUBO | ANNOT | STATIC - {'$recursiveAnchor'} | {'items', '$ref', '$dynamicRef', 'type', 'enum', 'const',
    'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern', 'maxItems', 'minItems', 'uniqueItems',
    'maxContains', 'minContains', 'maxProperties', 'minProperties', 'required', 'dependentRequired'}
KNOWN19 = (KNOWN20 - {'prefixItems', '$dynamicRef', '$dynamicAnchor'}) | {'additionalItems', '$recursiveRef', '$recursiveAnchor'}

class Doc:
    """a schema document and everything embedded in it"""
    def __init__(self, root, uri, dialect):
        self.res = {}        # resource uri -> (schema, ...)
        self.anchors = {}    # (resource uri, anchor) -> schema
        self.dyn = {}        # (resource uri, dynamic anchor) -> schema
        self.rec = {}        # resource uri -> bool
        self.base = {}       # id(schema) -> resource uri
        self.dialect = dialect
        self.root = root
        self.scan(root, uri)
    def scan(self, s, base):
        if not isinstance(s, dict):
            self.base[id(s)] = base
            return
        if '$id' in s:
            base = urldefrag(join(base, s['$id']))[0]
        if base not in self.res:
            self.res[base] = s
        self.base[id(s)] = base
        if '$anchor' in s: self.anchors[base, s['$anchor']] = s
        if '$dynamicAnchor' in s and self.dialect == D20:
            self.anchors[base, s['$dynamicAnchor']] = s
            self.dyn[base, s['$dynamicAnchor']] = s
        if self.res[base] is s:
            self.rec[base] = bool(s.get('$recursiveAnchor')) if self.dialect == D19 else False
        for k, v in s.items():
            if not isinstance(k, str): continue
            if k in SUB1 or (k == 'items' and not isinstance(v, list)): self.scan(v, base)
            elif k in SUBA or k == 'items':
                for x in v: self.scan(x, base)
            elif k in SUBO:
                for x in v.values(): self.scan(x, base)
    def resolve(self, base, ref):
        uri = join(base, ref)
        uri, frag = urldefrag(uri)
        if uri not in self.res: raise Unresolvable(ref)
        s = self.res[uri]
        if not frag: return uri, s
        f = unquote(frag)
        if f.startswith('/'):
            b = uri
            for k in parse_ptr(f):
                if isinstance(s, list):
                    s = s[int(k)] if index_of(k, len(s)) is not None else self.bad(ref)
                elif isinstance(s, dict):
                    if k not in s: self.bad(ref)
                    s = s[k]
                else: self.bad(ref)
                if isinstance(s, dict) and '$id' in s and id(s) in self.base: b = self.base[id(s)]
            return b, s
        if (uri, f) in self.anchors: return uri, self.anchors[uri, f]
        self.bad(ref)
    def bad(self, ref): raise Unresolvable(ref)

class Eval:
    def __init__(self, doc):
        self.doc = doc; self.d19 = doc.dialect == D19; self.applied = []
        self.known = KNOWN19 if self.d19 else KNOWN20
        self.steps = 0
    def run(self, inst):
        base = self.doc.base.get(id(self.doc.root), '')
        return self.ev(self.doc.root, inst, base, [base], (), ())
    def ev(self, s, i, base, scope, kp, ip):
        """-> (valid, annotations); annotations: (keyword, ip, kp, value)"""
        self.steps += 1
        if self.steps > 20000: raise RecursionError
        if s is True: return True, []
        if s is False: return False, []
        if '$id' in s:
            base = self.doc.base.get(id(s)) or urldefrag(join(base, s['$id']))[0]
        if scope[-1] != base: scope = scope + [base]
        ok, anns, t = True, [], jt(i)
        cx = dict(base=base, scope=scope)
        ks = sorted(s, key=lambda k: ORDER.index(k) if k in ORDER else -1)
        st = {}
        for k in ks:
            if k in STATIC: continue
            v = s[k]
            r = self.kw(k, v, s, i, t, base, scope, kp + (k,), ip, st, anns)
            if r is None: continue
            valid, sub = r
            if k == 'if': st['if'] = valid
            if not valid and k != 'if': ok = False
            if valid: anns.extend(sub)
        return ok, (anns if ok else [])

    def kw(self, k, v, s, i, t, base, scope, kp, ip, st, anns):
        E = lambda sub, inst, kp=kp, ip=ip: self.ev(sub, inst, base, scope, kp, ip)
        def A(val, ok=True, more=()):
            out = list(more)
            if val is not None: out = [(k, ip, kp, val)] + out
            return ok, out
        if k not in self.known:
            return True, [(k, ip, kp, v)] if v is not None else []
        d19 = self.d19
        # --- references
        if k == '$ref':
            b, x = self.doc.resolve(base, v)
            return self.ev(x, i, b, scope + ([b] if scope[-1] != b else []), kp, ip)
        if k == '$dynamicRef':
            b, x = self.doc.resolve(base, v)
            frag = unquote(urldefrag(v)[1])
            if frag and (b, frag) in self.doc.dyn and self.doc.dyn[b, frag] is x:
                for r in scope:
                    if (r, frag) in self.doc.dyn:
                        b, x = r, self.doc.dyn[r, frag]; break
            return self.ev(x, i, b, scope + ([b] if scope[-1] != b else []), kp, ip)
        if k == '$recursiveRef':
            b, x = self.doc.resolve(base, v)
            if self.doc.rec.get(b) and self.doc.res.get(b) is x:
                for r in scope:
                    if self.doc.rec.get(r):
                        b, x = r, self.doc.res[r]; break
            return self.ev(x, i, b, scope + ([b] if scope[-1] != b else []), kp, ip)
        # --- annotations
        if k in ANNOT:
            if k in ('contentMediaType', 'contentEncoding') and t != 'string': return None
            return A(v)
        if k == 'contentSchema':
            if t != 'string' or 'contentMediaType' not in s: return None
            return A(v)
        # --- assertions
        if k == 'type':
            ts = v if isinstance(v, list) else [v]
            return any(x == t or (x == 'integer' and t == 'number' and i == i // 1 and abs(i) != float('inf')) for x in ts), []
        if k == 'enum': return any(jeq(x, i) for x in v), []
        if k == 'const': return jeq(v, i), []
        if t == 'number':
            if k == 'multipleOf': return (num(i) / num(v)).denominator == 1, []
            if k == 'maximum': return i <= v, []
            if k == 'minimum': return i >= v, []
            if k == 'exclusiveMaximum': return i < v, []
            if k == 'exclusiveMinimum': return i > v, []
        if t == 'string':
            if k == 'maxLength': return len(i) <= v, []
            if k == 'minLength': return len(i) >= v, []
            if k == 'pattern': return re.search(v, i) is not None, []
        if t == 'array':
            if k == 'maxItems': return len(i) <= v, []
            if k == 'minItems': return len(i) >= v, []
            if k == 'uniqueItems':
                return not v or not any(jeq(i[a], i[b]) for a in range(len(i)) for b in range(a)), []
            if k in ('minContains', 'maxContains') and 'contains' in s:
                n = sum(1 for a, x in enumerate(i) if self.ev(s['contains'], x, base, scope, kp, ip + (str(a),))[0])
                return (n >= v if k == 'minContains' else n <= v), []
        if t == 'object':
            if k == 'maxProperties': return len(i) <= v, []
            if k == 'minProperties': return len(i) >= v, []
            if k == 'required': return all(x in i for x in v), []
            if k == 'dependentRequired': return all(all(y in i for y in v[x]) for x in v if x in i), []
        # --- in-place applicators
        if k in ('allOf', 'anyOf', 'oneOf'):
            rs = [E(x, i, kp + (str(n),)) for n, x in enumerate(v)]
            c = sum(1 for r in rs if r[0])
            ok = c == len(v) if k == 'allOf' else c >= 1 if k == 'anyOf' else c == 1
            return ok, [a for r in rs if r[0] for a in r[1]]
        if k == 'not': return not E(v, i)[0], []
        if k == 'if': return E(v, i)
        if k == 'then': return E(v, i) if st.get('if') is True else None
        if k == 'else': return E(v, i) if st.get('if') is False else None
        if k == 'dependentSchemas' and t == 'object':
            rs = [E(x, i, kp + (n,)) for n, x in v.items() if n in i]
            return all(r[0] for r in rs), [a for r in rs for a in r[1]]
        # --- child applicators
        if t == 'object':
            if k == 'properties':
                rs = {n: E(v[n], x, kp + (n,), ip + (n,)) for n, x in i.items() if n in v}
                return A(list(rs), all(r[0] for r in rs.values()), [a for r in rs.values() for a in r[1]])
            if k == 'patternProperties':
                rs = [(n, E(sub, x, kp + (rx,), ip + (n,))) for n, x in i.items() for rx, sub in v.items() if re.search(rx, n)]
                return A(sorted({n for n, r in rs}), all(r[0] for n, r in rs), [a for n, r in rs for a in r[1]])
            if k == 'additionalProperties':
                rest = [n for n in i if n not in s.get('properties', {}) and not any(re.search(rx, n) for rx in s.get('patternProperties', {}))]
                rs = {n: E(v, i[n], kp, ip + (n,)) for n in rest}
                return A(list(rs), all(r[0] for r in rs.values()), [a for r in rs.values() for a in r[1]])
            if k == 'propertyNames':
                rs = [E(v, n, kp, ip + (n,)) for n in i]
                return all(r[0] for r in rs), [a for r in rs for a in r[1]]
            if k == 'unevaluatedProperties':
                done = set()
                for kk, aip, akp, val in anns:
                    if aip == ip and kk in ('properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties'): done |= set(val)
                rs = {n: E(v, i[n], kp, ip + (n,)) for n in i if n not in done}
                return A(list(rs), all(r[0] for r in rs.values()), [a for r in rs.values() for a in r[1]])
        if t == 'array':
            def prefix(v, whole):
                rs = [E(x, y, kp + (str(n),), ip + (str(n),)) for n, (x, y) in enumerate(zip(v, i))]
                val = None if not rs else True if whole and len(rs) == len(i) else len(rs) - 1
                return A(val, all(r[0] for r in rs), [a for r in rs for a in r[1]])
            def rest(start, v=v):
                rs = [E(v, y, kp, ip + (str(n),)) for n, y in enumerate(i) if n >= start]
                return A(True if rs else None, all(r[0] for r in rs), [a for r in rs for a in r[1]])
            if k == 'prefixItems': return prefix(v, True)
            if k == 'items':
                if d19: return prefix(v, False) if isinstance(v, list) else rest(0)
                return rest(len(s.get('prefixItems', [])))
            if k == 'additionalItems':
                if not isinstance(s.get('items'), list): return None
                return rest(len(s['items']))
            if k == 'contains':
                rs = [(n, E(v, y, kp, ip + (str(n),))) for n, y in enumerate(i)]
                m = [n for n, r in rs if r[0]]
                # minContains 0 does not make "contains" itself pass here: see P14
                return A(m, bool(m) or (s.get('minContains') == 0), [a for n, r in rs if r[0] for a in r[1]])
            if k == 'unevaluatedItems':
                ann = [(kk, val) for kk, aip, akp, val in anns if aip == ip]
                done = set()
                for kk, val in ann:
                    if kk in (('items', 'additionalItems', 'unevaluatedItems') if d19 else ('prefixItems', 'items', 'unevaluatedItems')):
                        done |= set(range(len(i))) if val is True else set(range(val + 1))
                    if kk == 'contains' and not d19: done |= set(val)
                rs = [E(v, y, kp, ip + (str(n),)) for n, y in enumerate(i) if n not in done]
                return A(True if rs else None, all(r[0] for r in rs), [a for r in rs for a in r[1]])
        return None
