"""Bounded search for P21: bundles of schema resources with references, against
an evaluator that keeps the dynamic scope explicitly (oracle.Eval)."""
from .common import *
from .oracle import join, Doc, Eval, Unresolvable, D19, D20
import random, copy
from urllib.parse import urljoin, urldefrag, quote, unquote
from jschon import JSON, JSONSchema, URI, JSONPointer
from jschon.catalog import Source
from jschon.exc import JschonError

DNEXT = 'https://json-schema.org/draft/next/schema'
DOCS = {}
class Src(Source):
    def __call__(self, rel): return copy.deepcopy(DOCS['https://e.com/' + rel])
_c = {}
def cat():
    if 'c' not in _c:
        c = _c['c'] = catalog('2019-09', '2020-12', 'next', name=f'p21-{os.getpid()}')
        c.add_uri_source(URI('https://e.com/'), Src())
        _c['n'] = 0
    return _c['c']

class G:
    """a random bundle; schemas are generated first, references afterwards"""
    def __init__(self, g, dialect):
        self.g = g; self.d = dialect; self.n = 0; self.slots = []; self.all = []
    def doc(self, uri, own_id):
        self.res = [uri]; self.names = {uri: set()}; self.here = []; self.uri = uri
        s = self.schema(0, uri, [], root=True)
        if not isinstance(s, dict): s = {'type': 'object'}; self.here = [([], uri, s)]
        if own_id: s = {'$id': uri, **s}; self.here[0] = ([], uri, s) if self.here and self.here[0][0] == [] else self.here[0]
        for p, b, x in self.here: self.all.append((uri, p, b, x))
        return s
    def schema(self, d, base, path, root=False):
        g = self.g
        if not root and g.random() < .12:
            v = g.random() < .6
            self.here.append((path, base, v)); return v
        s = {}
        if not root and g.random() < .3:
            self.n += 1
            i = g.choice([f'r{self.n}', f'd/r{self.n}', f'https://e.com/x/r{self.n}', f'/r{self.n}', f'../r{self.n}', f'?q=r{self.n}', f'https://f.org/r{self.n}', f'urn:x:r{self.n}'])
            if base.startswith('urn:'): i = f'https://e.com/y/r{self.n}'
            if self.d != DNEXT and g.random() < .1: i += '#'
            s['$id'] = i
            base = urldefrag(urljoin(base, i))[0]
            self.names[base] = set(); self.res.append(base)
        top = root or '$id' in s
        if self.d == D19:
            if top and g.random() < .5: s['$recursiveAnchor'] = g.random() < .8
        elif g.random() < (.5 if top else .3):
            a = g.choice(['n', 'm', 'n'])
            if a not in self.names[base]: self.names[base].add(a); s['$dynamicAnchor'] = a
        if g.random() < .2:
            a = g.choice(['n', 'm', 'a', 'b', 'a.b-c_1'])
            if a not in self.names[base]: self.names[base].add(a); s['$anchor'] = a
        entry = (path, base, s); self.here.append(entry)
        sub = lambda *p: self.schema(d + 1, base, path + list(p))
        lim = 3 if d == 0 else 2 if d < 3 else 0
        for k in g.sample(['$defs', 'properties', 'items', 'allOf', 'anyOf', 'not', 'additionalProperties', '$defs', 'prefixItems', 'x-unknown'], g.randint(0, lim)):
            if k in s: continue
            if k == '$defs': s[k] = {n: sub(k, n) for n in g.sample(['p', 'q', 'a/b', 'a~b', 'é %', 'p%71', '0', ''], g.randint(1, 2))}
            elif k == 'properties': s[k] = {n: sub(k, n) for n in g.sample(['a', 'b', 'c'], g.randint(1, 2))}
            elif k in ('allOf', 'anyOf'): s[k] = [sub(k, str(i)) for i in range(g.randint(1, 2))]
            elif k == 'prefixItems':
                if self.d == D19: s['items'] = [sub('items', str(i)) for i in range(g.randint(1, 2))] if 'items' not in s else s['items']
                else: s[k] = [sub(k, str(i)) for i in range(g.randint(1, 2))]
            elif k == 'x-unknown': s[k] = {'$ref': '#/nowhere'}
            else: s[k] = sub(k)
        if g.random() < .5 or not s: s.update(g.choice([{'type': 'integer'}, {'type': 'string'}, {'type': ['object', 'array']}, {'const': 1}, {'minimum': 1}, {'maxLength': 1}, {'required': ['a']}, {'maxProperties': 2}]))
        if g.random() < (.7 if d else .9): self.slots.append((self.uri, entry))
        return s
    def link(self):
        g = self.g
        for doc, (p, base, s) in self.slots:
            r = g.random()
            if self.d == D19 and r < .35:
                s['$recursiveRef'] = '#'; continue
            k = '$dynamicRef' if self.d != D19 and r < .5 else '$ref'
            s[k] = self.target(doc, base, k)
    def target(self, doc, base, k):
        g = self.g
        if g.random() < .03: return g.choice(['#/nope', '#nope', 'nope.json', '#/$defs', '#/type', '#/%', 'https://e.com/x/nope', '#/properties/zzz/0', 'http://g.org/'])
        local = [t for t in self.all if t[0] == doc]; other = [t for t in self.all if t[0] != doc]
        t = g.choice(local if not other or g.random() < .75 else other)
        if k == '$dynamicRef' and g.random() < .7:
            # an anchor reachable from here
            c = [x for x in local if isinstance(x[3], dict) and '$dynamicAnchor' in x[3]]
            c2 = [x for x in c if x[2] == base]
            if c2 and g.random() < .7: return '#' + g.choice(c2)[3]['$dynamicAnchor']
            if c: t = g.choice(c)
        u, p, b, s = t
        names = [x for x in ([s.get('$anchor'), s.get('$dynamicAnchor')] if isinstance(s, dict) else []) if x]
        if u == doc and names and g.random() < .6: return self.rel(base, b) + '#' + g.choice(names)
        if u == doc:
            # relative to any enclosing resource
            enc = [(x[1], x[2]) for x in local if x[1] == p[:len(x[1])] and (x[1] == [] or isinstance(x[3], dict) and '$id' in x[3])]
            q, eb = g.choice(enc)
            rest = p[len(q):]
            return self.rel(base, eb) + ('#' + self.ptr(rest) if rest or g.random() < .5 else '') or '#'
        if names and b == u and g.random() < .3: return self.rel(base, u) + '#' + g.choice(names)
        return self.rel(base, u) + ('#' + self.ptr(p) if p else '')
    def rel(self, base, u):
        g = self.g
        if base == u and g.random() < .7: return ''
        if base.startswith('https://e.com/') and u.startswith('https://e.com/') and g.random() < .5: return u[len('https://e.com'):]
        return u
    def ptr(self, p):
        o = ''
        for k in p:
            k = k.replace('~', '~0').replace('/', '~1')
            o += '/' + (quote(k, safe='~$' if self.g.random() < .7 else '~'))
        return o

def vals(g, d=0):
    if d > 2 or g.random() < .4: return g.choice([0, 1, 2, 'x', 'xy', None, True, 1.0])
    if g.random() < .6: return {k: vals(g, d + 1) for k in g.sample(['a', 'b', 'c'], g.randint(0, 3))}
    return [vals(g, d + 1) for _ in range(g.randint(0, 3))]

def cases(prop, seed, n0=0):
    g = random.Random(f'{seed}{prop}{n0}')
    for c in FIXED: yield c
    while True:
        d = g.choice([D19, D20, D20, D20, DNEXT])
        G_ = G(g, d)
        docs = {}
        for u in g.sample(['https://e.com/a', 'https://e.com/d/b.json', 'https://e.com/d/c'], g.choice([1, 1, 2, 3])):
            docs[u] = G_.doc(u, not docs or g.random() < .6)
        G_.link()
        yield dict(dialect=d, docs=docs, root=list(docs)[0], instances=[vals(g) for _ in range(4)], cacheid=g.random() < .5)

# scopes that random bundles seldom build
REENTERED = {'$id': 'https://e.com/A', '$defs': {'n': {'$dynamicAnchor': 'n', 'type': 'integer'}, 'inner': {'$dynamicRef': '#n'}, 'B': {'$id': 'https://e.com/B', '$defs': {'n': {'$dynamicAnchor': 'n', 'type': 'string'}}, '$ref': 'https://e.com/A#/$defs/inner'}}, '$ref': 'https://e.com/B'}
FIXED = [dict(dialect=D20, docs={'https://e.com/A': REENTERED}, root='https://e.com/A', instances=[1, 'x', None], cacheid=False)]

def locations(s, path=(), doc=None, out=None):
    from .oracle import SUB1, SUBA, SUBO
    out = {} if out is None else out
    out[path] = s
    if isinstance(s, dict):
        for k, v in s.items():
            if k in SUB1 or (k == 'items' and not isinstance(v, list)): locations(v, path + (k,), doc, out)
            elif k in SUBA or k == 'items':
                for i, x in enumerate(v): locations(x, path + (k, str(i)), doc, out)
            elif k in SUBO:
                for n, x in v.items(): locations(x, path + (k, n), doc, out)
    return out

class Linked(Doc):
    """documents are loaded when first referred to; every reference of a loaded document must resolve to a schema"""
    def __init__(self, docs, root, dialect):
        self.docs = docs
        super().__init__(docs[root], root, D20 if dialect == DNEXT else dialect)
        self.done = {root}; self.pending = [root]
        while self.pending:
            d = self.docs[self.pending.pop()]
            loc = locations(d)
            for s in loc.values():
                if not isinstance(s, dict): continue
                for k in ('$ref', '$dynamicRef', '$recursiveRef'):
                    if k in s:
                        b, t = self.resolve(self.base[id(s)], s[k])
                        if not isinstance(t, bool) and id(t) not in self.base: self.bad(s[k])
    def resolve(self, base, ref):
        u = urldefrag(join(base, ref))[0]
        if u not in self.res and u in self.docs and u not in self.done:
            self.done.add(u); self.pending.append(u); self.scan(self.docs[u], u)
        return super().resolve(base, ref)

def check(prop, c):
    docs = copy.deepcopy(c['docs'])
    cc = cat(); _c['n'] += 1
    cid = f'c{_c["n"]}' if c['cacheid'] else 'default'
    DOCS.clear(); DOCS.update(c['docs'])
    root = copy.deepcopy(c['docs'][c['root']])
    try: model = Linked(docs, c['root'], c['dialect'])
    except Unresolvable as e: model = None; why = e
    if not c['cacheid']: cc._schema_cache['default'] = {}
    try:
        try:
            s = JSONSchema({'$schema': c['dialect'], **root} if c['root'].startswith('h') else root, catalog=cc, cacheid=cid)
        except JschonError as e:
            return None if model is None else f'construction fails: {type(e).__name__}: {e}'
        if model is None: return f'the reference {why} cannot be resolved, but the schema is constructed'
        w = lookup(cc, s, cid)
        if w: return w
        for i in c['instances']:
            try: want = Eval(model).run(i)[0]
            except RecursionError: continue
            got = s.evaluate(JSON(i)).valid
            if got is not want: return f'{i!r} is {"valid" if want else "invalid"}, but evaluates to {got}'
        s.uri = URI(f'https://moved.example/c{_c["n"]}')
        w = lookup(cc, s, cid)
        if w: return f'after the URI of the schema is set to {s.uri}: {w}'
    finally:
        cc._schema_cache.pop(cid, None)

def walk(j):
    yield j
    for x in (j.data.values() if j.type == 'object' else j.data if j.type == 'array' else ()): yield from walk(x)

def lookup(cc, s, cid):
    for n in walk(s):
        if not isinstance(n, JSONSchema): continue
        u = n.canonical_uri
        try: f = cc.get_schema(u, cacheid=cid)
        except JschonError as e: return f'canonical URI {u} of the subschema at {n.path} is not found: {e}'
        if f is not n: return f'canonical URI {u} of the subschema at {n.path} identifies {f.path}'
