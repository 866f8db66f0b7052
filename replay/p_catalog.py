"""Bounded search for P22 and P23: sources and schema caches against plain
dictionaries."""
from .common import *
import random, itertools, tempfile, shutil, pathlib, uuid
from jschon import JSON, JSONSchema, URI, Catalog, LocalSource, RemoteSource
from jschon.catalog import Source
from jschon.exc import *
from jschon.vocabulary import Metaschema, Vocabulary, Keyword
import jschon.utils as UT

D = 'https://json-schema.org/draft/2020-12/schema'
PRE = ['http://e.com/', 'http://e.com/a/', 'http://e.com/a/b/', 'http://e.com/a/bc/', 'http://e.co/', 'urn:x:/', 'http://e.com/a/b/c/', 'https://e.com/', 'tag:a/']
BADP = ['http://e.com/a', 'http://e.com', '/a/', 'http://e.com/a/#', 'http://E.com/', 'http://e.com/a/../b/', '', 'urn:x', '//e.com/', 'http://e.com/a/#f', 'http://e.com/%7ea/#']
REL = ['', 'x', 'a/x', 'a/b/x', 'a/b/', 'a/b/c/x.json', 'a/bc/x', 'b?q=1', 'a//x', 'a/bcd', '%20', 'a/b']
BADU = ['http://e.com/x#', 'http://e.com/x#/a', 'x', '/a/x', '//e.com/x', 'HTTP://e.com/x', 'http://e.com/a/../x', '#a', 'http://E.COM/a/x']
ERR = {'CatalogError': CatalogError, 'OSError': OSError, 'ValueError': ValueError, 'KeyError': KeyError, 'URIError': URIError, 'AttributeError': AttributeError, 'RuntimeError': RuntimeError, 'StopIteration': StopIteration}
CIDS = ['default', 'one', 'two', 0, '__other__', ('t', 1)]
URIS = ['http://e.com/s1', 'http://e.com/s2', 'http://e.com/s3', 'urn:uuid:00000000-0000-0000-0000-000000000001', 'http://e.com/s1?q']
_n = itertools.count()

def cases(prop, seed, n0=0):
    g = random.Random(f'{seed}{prop}{n0}')
    while True:
        if prop == 'P22':
            k = g.choice(['load', 'load', 'load', 'local', 'remote', 'register'])
            if k == 'register': yield dict(kind=k, uri=g.choice(BADP + PRE))
            elif k == 'local':
                yield dict(kind=k, files=g.sample(['x', 'x.json', 'a/x.json', 'a/x', 'a/b/y.json', 'é.json', 'x.txt', 'a.b'], 4), suffix=g.choice([None, '', '.json', '.json', '.txt']),
                           get=g.choice(['x', 'a/x', 'x.json', 'a/b/y', 'a/x.json', 'nope', 'bad', 'dir', 'a.b']), direct=g.random() < .4)
            elif k == 'remote':
                yield dict(kind=k, base=g.choice(['http://h/b/', 'http://h/b', 'http://h/b/c/']), rel=g.choice(['x', 'a/x', '../x', './y', 'x?q=1', 'a/']), suffix=g.choice([None, '', '.json']), fail=g.choice([None, None, 'OSError', 'ValueError']))
            else:
                pre = [None] * (g.random() < .3) + g.sample(PRE, g.randint(0, 5)); g.shuffle(pre)
                base = g.choice(PRE)
                yield dict(kind=k, prefixes=pre + ([g.choice(pre)] if pre and g.random() < .2 else []), uri=g.choice([base + g.choice(REL), base + g.choice(REL), g.choice(BADU), 'http://other/x']), err=g.choice([None, None, None] + list(ERR)))
        else:
            ops = []
            for _ in range(g.randint(2, 10)):
                o = g.choice(['add', 'add', 'new', 'get', 'get', 'get', 'getfrag', 'del', 'seturi', 'enter', 'exit', 'anon', 'vocab', 'catalog', 'part', 'meta'])
                ops.append([o, g.randrange(len(CIDS)), g.randrange(len(URIS)), g.randrange(4), g.randrange(6)])
            yield dict(kind='history', ops=ops)

def fresh_catalog():
    c = Catalog(f'replay{next(_n)}x{os.getpid()}')
    return c

def check(prop, c):
    return globals()['k_' + c['kind']](c)

def k_register(c):
    cat = fresh_catalog()
    s = Source(); u = URI(c['uri'])
    ok = c['uri'] in PRE
    try: cat.add_uri_source(u, s)
    except CatalogError:
        return f'the base URI {c["uri"]!r} is rejected' if ok else None
    if not ok: return f'the base URI {c["uri"]!r} is accepted'

def k_load(c):
    cat = fresh_catalog()
    calls = []
    class Src(Source):
        def __init__(self, i): super().__init__(); self.i = i; self.doc = {'doc': i}
        def __call__(self, rel):
            calls.append((self.i, rel))
            if c['err']: raise ERR[c['err']]('boom')
            return self.doc
    reg = {}
    for i, p in enumerate(c['prefixes']):
        s = Src(i); reg[p or ''] = s
        cat.add_uri_source(URI(p) if p else None, s)
    u = c['uri']
    bad = u in BADU
    m = [p for p in reg if u.startswith(p)]
    want = None if bad or not m else max(m, key=len)
    try: r = cat.load_json(URI(u)); exc = None
    except CatalogError as e: r, exc = None, e
    if want is None:
        return None if exc and not calls else f'load_json({u!r}) with prefixes {list(reg)}: {r!r}, calls {calls}'
    if calls != [(reg[want].i, u[len(want):])]: return f'load_json({u!r}) with prefixes {c["prefixes"]}: calls {calls}, expected source {reg[want].i} with {u[len(want):]!r}'
    if c['err']: return None if exc else 'a failing source is not the catalog error'
    if exc or r is not reg[want].doc: return f'load_json({u!r}) = {r!r} {exc!r}'

def k_local(c):
    d = tempfile.mkdtemp(prefix='jsrc')
    try:
        doc = {}
        for f in c['files']:
            p = os.path.join(d, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.isdir(p): continue
            with open(p, 'w') as h: h.write(json.dumps({'file': f}))
            doc[f] = {'file': f}
        with open(os.path.join(d, 'bad'), 'w') as h: h.write('{')
        os.makedirs(os.path.join(d, 'dir'), exist_ok=True)
        if c['suffix']:
            with open(os.path.join(d, 'bad' + c['suffix']), 'w') as h: h.write('[NaN]')
        src = LocalSource(d if c['direct'] else pathlib.Path(d), **({} if c['suffix'] is None else dict(suffix=c['suffix'])))
        cat = fresh_catalog(); cat.add_uri_source(URI('http://e.com/'), src)
        want = doc.get(c['get'] + (c['suffix'] or ''))
        try: r = cat.load_json(URI('http://e.com/' + c['get'])); exc = None
        except CatalogError as e: r, exc = None, e
        if want is None: return None if exc else f'loading {c["get"]!r} with suffix {c["suffix"]!r} gives {r!r}'
        if r != want: return f'loading {c["get"]!r} with suffix {c["suffix"]!r} gives {r!r} {exc!r}, expected {want!r}'
    finally: shutil.rmtree(d)

def k_remote(c):
    got = []
    class Resp:
        text = '{"r": 1}'; status_code = 200; ok = True; content = b'{"r": 1}'
        def raise_for_status(self):
            if c['fail'] == 'OSError': raise OSError('404')
        def json(self, **kw):
            if c['fail'] == 'ValueError': raise ValueError('bad json')
            return json.loads(self.text, **kw)
    class Req:
        @staticmethod
        def get(url, *a, **k): got.append(url); return Resp()
    old = UT.requests; UT.requests = Req
    try:
        from urllib.parse import urljoin
        src = RemoteSource(URI(c['base']), **({} if c['suffix'] is None else dict(suffix=c['suffix'])))
        cat = fresh_catalog(); cat.add_uri_source(URI('http://e.com/'), src)
        try: r = src(c['rel']); exc = None
        except (OSError, ValueError, CatalogError) as e: r, exc = None, e
        want = urljoin(c['base'], c['rel']) + (c['suffix'] or '')
        if got != [want]: return f'remote source {c}: requested {got}, expected {want!r}'
        if c['fail']: return None if exc else 'a failure of the remote source is hidden'
        if r != {'r': 1}: return f'remote source returned {r!r} {exc!r}'
    finally: UT.requests = old

class KwX(Keyword): key = 'x-keyword'

BASE = []
def k_history(c):
    """one catalog, arbitrary operations, against a dictionary of dictionaries"""
    if not BASE: BASE.append(catalog('2020-12', name=f'hist{os.getpid()}'))
    cat = BASE[0]
    tag = next(_n)
    U_ = lambda i: URI(URIS[i % len(URIS)].replace('e.com', f'h{tag}.com') if 'e.com' in URIS[i] else URIS[i][:-6] + f'{tag % 10**6:06d}')
    C_ = lambda i: (CIDS[i], tag) if CIDS[i] != 'default' else 'default'
    model, owned, ctx, schemas = {}, {}, [], []
    vocab, names = {}, {}
    def make(k, i, shape):
        doc = [{'$schema': D, 'type': 'object', '$defs': {'a': {'type': 'string'}, 'b~/c': True}, 'x-foo': {'y': 1}}, True, {'$schema': D, '$defs': {'a': False}}, False][shape]
        s = JSONSchema(doc, catalog=cat, cacheid=C_(k), uri=U_(i))
        if shape in (0, 2): pass
        model.setdefault(C_(k), {})[str(U_(i))] = s
        schemas.append([s, C_(k), str(U_(i)), shape])
        return s
    def look():
        for k in range(len(CIDS)):
            for i in range(len(URIS)):
                want = model.get(C_(k), {}).get(str(U_(i)))
                try: got = cat.get_schema(U_(i), cacheid=C_(k))
                except CatalogError: got = None
                if got is not want: return f'schema {U_(i)} in cache {C_(k)}: {"found" if got is not None else "not found"}, expected {"one" if want is not None else "none"}{" (another one)" if got is not None and want is not None else ""}'
        for u, v in vocab.items():
            try: got = cat.get_vocabulary(URI(u))
            except CatalogError: got = None
            if got is not v: return f'vocabulary {u} is not the registered one'
        for n, v in names.items():
            try: got = Catalog.get_catalog(n)
            except CatalogError: got = None
            if got is not v: return f'catalog {n!r} is not the registered one'
    class Stop(Exception): pass
    def close(cm, cid, how):
        try:
            if how % 2: 
                if cm.__exit__(Stop, Stop('x'), None): return 'the context swallows an exception'
            else: cm.__exit__(None, None, None)
        except Stop: pass
        model.pop(cid, None)
        for s in schemas:
            if s[1] == cid: s[2] = s[2]
    try:
        for o, k, i, x, y in c['ops']:
            if o in ('add', 'new'):
                if o == 'new' or not schemas: make(k, i, x)
                else:
                    s = schemas[y % len(schemas)][0]
                    cat.add_schema(U_(i), s, **({} if C_(k) == 'default' else dict(cacheid=C_(k))))
                    model.setdefault(C_(k), {})[str(U_(i))] = s
            elif o == 'del':
                cat.del_schema(U_(i), **({} if C_(k) == 'default' else dict(cacheid=C_(k)))); model.get(C_(k), {}).pop(str(U_(i)), None)
            elif o == 'seturi' and schemas:
                e = schemas[y % len(schemas)]
                s, cid, old, _ = e
                new = None if x == 0 else U_(i)
                if old is not None and new is not None and str(new) == old: continue
                s.uri = new
                if (None if s.uri is None else str(s.uri)) != (None if new is None else str(new)): return 'the URI of the schema is not the one it was given'
                if old is not None and model.get(cid, {}).get(old) is s: model[cid].pop(old)
                if new is not None: model.setdefault(cid, {})[str(new)] = s
                e[2] = None if new is None else str(new)
            elif o in ('get', 'getfrag', 'part', 'meta'):
                cid = C_(k)
                if o == 'meta':
                    try:
                        cat.get_metaschema(U_(i)); return 'a metaschema out of nothing'
                    except CatalogError: pass
                    if str(cat.get_metaschema(URI(D)).uri) != D: return 'the metaschema is not the registered one'
                    continue
                f = ['', '/$defs/a', '/$defs/b~0~1c', '/$defs', '/x-foo', '/nope', 'anchor', '/type'][y if o == 'getfrag' else y % 2 + 1 if o == 'part' else 0]
                want = model.get(cid, {}).get(str(U_(i)))
                res = None
                if want is not None:
                    if f == '': res = want
                    elif f in ('/$defs/a', '/$defs/b~0~1c') and isinstance(want.data, dict): res = (want['$defs'].data if '$defs' in want else {}).get('a' if f.endswith('a') else 'b~/c')
                try: got = cat.get_schema(URI(f'{U_(i)}#{f}'), cacheid=cid)
                except CatalogError: got = None
                if got is not res: return f'part {f!r} of schema {U_(i)}: {got!r}, expected {res!r}'
            elif o in ('enter', 'anon'):
                cid = C_(k) if o == 'enter' else None
                cm = cat.cache(cid) if cid is not None else cat.cache()
                inuse = cid is not None and (cid in model or any(z == cid for _, z in ctx) or (cid == 'default'))
                try: got = cm.__enter__()
                except CatalogError:
                    if not inuse: return f'entering a cache {cid!r} is refused'
                    w = look()
                    if w: return w
                    continue
                if inuse and cid != 'default': return f'entering a cache {cid!r} already in use is accepted'
                if cid == 'default': cm.__exit__(None, None, None); return None
                if cid is not None and got != cid: return 'the context yields another identifier'
                if cid is None and any(got == z for _, z in ctx): return 'an identifier is handed out twice'
                ctx.append((cm, got))
                if o == 'anon':
                    s = JSONSchema(True, catalog=cat, cacheid=got, uri=U_(i)); model.setdefault(got, {})[str(U_(i))] = s
                    if cat.get_schema(U_(i), cacheid=got) is not s: return 'a schema is not found in its context-managed cache'
                else: model.setdefault(cid, {})
            elif o == 'exit' and ctx:
                cm, cid = ctx.pop(y % len(ctx))
                w = close(cm, cid, x)
                if w: return w
                try: cat.get_schema(U_(i), cacheid=cid); return 'a context-managed cache survives its context'
                except CatalogError: pass
            elif o == 'vocab':
                u = f'http://h{tag}.com/vocab/{y}'
                try: cat.get_vocabulary(URI(u)); known = True
                except CatalogError: known = False
                if known != (u in vocab): return 'an unregistered vocabulary is found' if known else 'a registered vocabulary is not found'
                vocab[u] = cat.create_vocabulary(URI(u), KwX)
            elif o == 'catalog':
                n = f'n{tag}-{y}'
                if n not in names:
                    try: Catalog.get_catalog(n); return 'an unknown catalog is found'
                    except CatalogError: pass
                names[n] = Catalog(n)
            w = look()
            if w: return f'after {o}: {w}'
    finally:
        for cm, cid in ctx:
            try: cm.__exit__(None, None, None)
            except Exception: pass
        for cid in list(model):
            for u in list(model[cid]): cat.del_schema(URI(u), cacheid=cid)
        for s, cid, u, _ in schemas:
            if u: cat.del_schema(URI(u), cacheid=cid)
