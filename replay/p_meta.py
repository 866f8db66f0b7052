"""Bounded search for P25: metaschemas against plain dictionaries."""
from .common import *
import random, itertools
from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.catalog import Source
from jschon.exc import *
from jschon.vocabulary import Metaschema, Vocabulary, Keyword

S = 'https://json-schema.org/draft/2020-12/'
D = S + 'schema'
CORE = S + 'vocab/core'
CORES = [CORE, 'https://json-schema.org/draft/next/vocab/core', 'https://json-schema.org/draft/foo/vocab/core', 'https://json-schema.org/draft/2020-12/vocab/corex', 'http://example.com/draft/2020-12/vocab/core']
KEYS = ['k0', 'k1', 'k2', 'k3', '$ref', '$id', 'type']
BADV = ['v', '/v', 'HTTP://e.com/v', 'http://e.com/a/../v', '']
_n = itertools.count()
_c = {}

def cat():
    if 'c' not in _c:
        c = _c['c'] = catalog('2019-09', '2020-12', 'next', name=f'p25-{os.getpid()}')
        _c['v'] = []
        for i in range(5):
            ks = [type('Kw', (Keyword,), dict(key=k, tag=(i, k))) for j, k in enumerate(KEYS) if (i * 7 + j * 3) % 4 < 2 and (i < 4 or k.startswith('k'))]
            ks = [k for k in ks if k.key.startswith('k') or k.key == 'type' or i == 3]
            _c['v'].append(c.create_vocabulary(URI(f'http://e.com/vocab/{i}'), *ks))
    return _c['c']

def cases(prop, seed, n0=0):
    g = random.Random(f'{seed}{prop}{n0}')
    while True:
        k = g.choice(['declare', 'declare', 'declare', 'default', 'unknown', 'create', 'dialect', 'versions'] if g.random() < .3 else ['declare', 'default', 'unknown', 'create'])
        if k in ('declare', 'create'):
            d = []
            r = g.random()
            if r < .75: d.append([CORE, g.choice([True, True, True, True, False])])
            elif r < .9: d += [[x, g.choice([True, False])] for x in g.sample(CORES, g.randint(1, 2))]
            for i in g.sample(range(5), g.randint(0, 4)): d.append([f'http://e.com/vocab/{i}', g.choice([True, False])])
            if g.random() < .4: d.append([g.choice(['http://e.com/vocab/unknown', 'http://e.com/vocab/0/', 'urn:x:y', 'http://e.com/vocab/0#']), g.choice([True, False, False])])
            if g.random() < .1: d.append([g.choice(BADV), g.choice([True, False])])
            g.shuffle(d)
            yield dict(kind=k, declare=d, default=g.choice([None, None, 0, 1]), defaults=g.sample(range(5), g.randint(0, 2)), invalid=g.random() < .3, schema=g.random() < .8)
        elif k == 'default':
            yield dict(kind=k, default=g.choice([None, 0, 0, 0, 1, 2]), defaults=g.sample(range(5), g.randint(0, 4)), declare=g.choice([None, None, None, []]))
        elif k == 'unknown':
            yield dict(kind=k, version=g.choice(['2019-09', '2020-12', 'next']), names=g.sample(['', 'x', 'X-y', 'a b', '\u00e9', '\x00', 'Type', '__init__', 'key', 'prefixitems', '$', 'k0', '~/', '\U0001f600', '1', 'contentschema'], g.randint(1, 4)),
                       value=g.choice([None, False, True, 0, 1.5, '', 'false', [], [False], {}, {'not': {}}]), instance=g.choice([None, False, 1, 'x', [], {}, {'a': 1}, [1]]))
        elif k == 'dialect': yield dict(kind=k, version=g.choice(['2019-09', '2020-12', 'next']))
        else: yield dict(kind=k, versions=[g.choice(['2019-09', '2020-12', 'next', '2019-9', '', 'draft-07']) if g.random() < .3 else g.choice(['2019-09', '2020-12', 'next']) for _ in range(g.randint(1, 3))])

def check(prop, c): return globals()['k_' + c['kind']](c)

def spec(c, d):
    """None (schema error) or the mapping of names to classes"""
    known = {CORE: 'core', CORES[1]: 'next'}
    known.update({f'http://e.com/vocab/{i}': i for i in range(5)})
    if d:
        cand = [u for u, _ in d if u in CORES[:3]]
        if len(cand) != 1 or cand[0] not in known: return None
        dd = dict(map(tuple, d))
        if dd[cand[0]] is not True: return None
        for u, req in d:
            if u in BADV: return None
            if u not in known and req: return None
        return cand[0], [u for u, _ in d if u in known]
    if c['default'] is None: return None
    if d is not None: return None        # an empty declaration lacks the core vocabulary
    return 'default', None

def compare(m, core, order, after):
    want = {}
    for v in order: want.update(v.kwclasses)
    want.update(core.kwclasses)
    for v in after: want.update(v.kwclasses)
    for k in KEYS + ['$schema', '$dynamicRef', '$recursiveRef', 'minimum', 'nope', 'items']:
        got = m.get_kwclass(k)
        if k in want:
            if got is not want[k]: return f'{k}: {got} {getattr(got, "tag", None)}, expected {want[k]} {getattr(want[k], "tag", None)}'
        elif got.__mro__[1].__name__ != '_UnknownKeyword' or got.key != k: return f'{k}: {got}, expected an unknown keyword'
        if m.get_kwclass(k).__mro__[:1] != (got,) and k in want: return f'{k}: differs when asked again'

def build(c, d, how):
    ct = cat(); n = next(_n)
    uri = f'http://e.com/meta/{n}'
    doc = {'$schema': D, '$id': uri}
    if d is not None: doc['$vocabulary'] = dict(map(tuple, d))
    dc = c.get('default')
    core = {None: None, 0: ct.get_vocabulary(URI(CORE)), 1: ct.get_vocabulary(URI(CORES[1])), 2: _c['v'][0]}[dc]
    extra = [_c['v'][i] for i in c.get('defaults', [])] if core is not None else []
    return ct, uri, doc, core, extra

def verdict(c, d, make):
    s = spec(c, d)
    ct, uri, doc, core, extra = build(c, d, make)
    try: m = Metaschema(ct, doc, core, *extra, uri=URI(uri)) if core is not None else Metaschema(ct, doc, uri=URI(uri))
    except JSONSchemaError as e:
        return None if s is None else f'rejected: {doc}: {e}'
    if s is None: return f'accepted: {doc}, default core {core}'
    if s[0] == 'default': return compare(m, core, [], extra)
    if m.core_vocabulary is not ct.get_vocabulary(URI(s[0])): return f'core vocabulary {m.core_vocabulary} for {doc}'
    return compare(m, m.core_vocabulary, [ct.get_vocabulary(URI(u)) for u in s[1]], [])

def k_declare(c): return verdict(c, c['declare'], None)
def k_default(c): return verdict(c, c['declare'], None)

class Src(Source):
    doc = None; fail = None
    def __call__(self, rel):
        if self.fail: raise self.fail
        return self.doc
def k_create(c):
    s = spec(c, c['declare'])
    ct, uri, doc, core, extra = build(c, c['declare'], None)
    if c['invalid']: doc['$comment'] = 1
    if 'src' not in _c:
        _c['src'] = Src(); ct.add_uri_source(URI('http://e.com/meta/'), _c['src'])
    _c['src'].doc = doc
    args = [] if core is None else [core.uri] + [v.uri for v in extra]
    try: m = ct.create_metaschema(URI(uri), *args)
    except JSONSchemaError as e: return None if s is None else f'create_metaschema rejects {doc}: {e}'
    except CatalogError as e: return None if s is not None and c['invalid'] else f'create_metaschema: {e!r} for {doc}'
    if s is None: return f'create_metaschema accepts {doc}'
    if c['invalid']: return f'create_metaschema accepts the invalid {doc}'
    if ct.get_metaschema(URI(uri)) is not m: return 'get_metaschema finds another metaschema'
    return compare(m, m.core_vocabulary, [ct.get_vocabulary(URI(u)) for u in s[1]], [])

def k_unknown(c):
    ct = cat()
    doc = {'$schema': f'https://json-schema.org/draft/{c["version"]}/schema'}
    for n in c['names']: doc[n] = c['value']
    s = JSONSchema(doc, catalog=ct, uri=URI(f'http://e.com/u/{next(_n)}'))
    if s.metaschema is not ct.get_metaschema(URI(doc['$schema'])): return f'{doc} has the metaschema {s.metaschema.uri}'
    # (the metaschema recurses dynamically: the scope starts with it)
    for d2, ok in ((doc, True), ({**doc, 'type': 5}, False), ({**doc, 'properties': {'a': {'minimum': 'x'}}}, False)):
        try: s2 = JSONSchema(d2, catalog=ct, uri=URI(f'http://e.com/u/{next(_n)}'))
        except (JschonError, TypeError, AttributeError, ValueError): continue
        if s2.validate().valid is not ok: return f'validate() finds {d2} {"invalid" if ok else "valid"}'
    r = s.evaluate(JSON(c['instance']))
    if not r.valid: return f'{doc} rejects {c["instance"]!r}'
    got = {a['keywordLocation']: a.get('annotation') for a in r.output('verbose').get('annotations', [])}
    for n in c['names']:
        if n == '$': pass
        k = [v for p, v in got.items() if p == '/' + n.replace('~', '~0').replace('/', '~1')]
        if c['value'] is not None and k != [c['value']]: return f'unknown keyword {n!r} of {doc}: annotations {got}'

COMMON = '''$schema $vocabulary $id $ref $anchor $defs $comment allOf anyOf oneOf not if then else dependentSchemas items contains properties patternProperties
additionalProperties propertyNames unevaluatedItems unevaluatedProperties type enum const multipleOf maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength
pattern maxItems minItems uniqueItems maxContains minContains maxProperties minProperties required dependentRequired format title description default deprecated readOnly
writeOnly examples contentMediaType contentEncoding contentSchema'''.split()
DIAL = {'2019-09': ['$recursiveRef', '$recursiveAnchor', 'additionalItems'], '2020-12': ['$dynamicRef', '$dynamicAnchor', 'prefixItems'], 'next': ['$dynamicRef', '$dynamicAnchor', 'prefixItems']}
def k_dialect(c):
    m = cat().get_metaschema(URI(f'https://json-schema.org/draft/{c["version"]}/schema'))
    have = set(COMMON + DIAL[c['version']])
    for k in sorted(have | {x for v in DIAL.values() for x in v} | {'dependencies', 'definitions', 'propertyDependencies', 'id'}):
        cls = m.get_kwclass(k)
        if cls.key != k: return f'{c["version"]}: the class of {k} is for {cls.key}'
        if (cls.__mro__[1].__name__ != '_UnknownKeyword') != (k in have): return f'{c["version"]}: {k} is {"unknown" if k in have else "known"}'

def k_versions(c):
    bad = [v for v in c['versions'] if v not in DIAL]
    if not bad and len(c['versions']) > 1: c = dict(c, versions=c['versions'][:1])      # (each takes a while to build)
    try: ct = catalog(*c['versions'], name=f'p25v{os.getpid()}')
    except ValueError: return None if bad else f'create_catalog{tuple(c["versions"])} fails'
    if bad: return f'create_catalog{tuple(c["versions"])} succeeds'
    for v in DIAL:
        try: ct.get_vocabulary(URI(f'https://json-schema.org/draft/{v}/vocab/core')); ok = True
        except CatalogError: ok = False
        if ok != (v in c['versions']): return f'create_catalog{tuple(c["versions"])}: core vocabulary of {v}: {ok}'
