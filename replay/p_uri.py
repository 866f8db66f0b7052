"""Bounded search for P26: URI objects against RFC 3986 (component regex of
appendix B, resolution of section 5.2)."""
from .common import *
import random, re, itertools
from jschon import URI
from jschon.exc import URIError

RX = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$', re.S)
NAMES = ('scheme', 'authority', 'path', 'query', 'fragment')
def split(s):
    m = RX.match(s)
    return dict(scheme=m[2] or None, authority=m[4] or None, path=m[5] or None, query=m[7], fragment=m[9])
def join(c):
    return ((c['scheme'] + ':') if c['scheme'] else '') + (('//' + c['authority']) if c['authority'] else '') + (c['path'] or '') + \
        ('?' + c['query'] if c['query'] is not None else '') + ('#' + c['fragment'] if c['fragment'] is not None else '')
def dots(p):
    out = []
    while p:
        if p.startswith('../'): p = p[3:]
        elif p.startswith('./'): p = p[2:]
        elif p.startswith('/./'): p = p[2:]
        elif p == '/.': p = '/'
        elif p.startswith('/../'):
            p = p[3:]
            if out: out.pop()
        elif p == '/..':
            p = '/'
            if out: out.pop()
        elif p in ('.', '..'): p = ''
        else:
            m = re.match(r'/?[^/]*', p); out.append(m[0]); p = p[m.end():]
    return ''.join(out)
def resolve(r, b):
    if r['scheme'] and r['scheme'] != b['scheme']: t = dict(r, path=dots(r['path'] or '') or None)
    elif r['authority']: t = dict(r, scheme=b['scheme'], path=dots(r['path'] or '') or None)
    elif not r['path']: t = dict(b, query=r['query'] if r['query'] is not None else b['query'])
    elif r['path'].startswith('/'): t = dict(b, path=dots(r['path']), query=r['query'])
    else:
        m = '/' + r['path'] if b['authority'] and not b['path'] else (b['path'] or '').rpartition('/')[0] + '/' + r['path']
        t = dict(b, path=dots(m), query=r['query'])
    return dict(t, fragment=r['fragment'])
def normal(c):
    up = lambda s: re.sub(r'%[0-9a-fA-F]{2}', lambda m: m[0].upper(), s) if s else s
    return dict(scheme=c['scheme'] and c['scheme'].lower(), authority=c['authority'] and c['authority'].lower(), path=dots(up(c['path'])) or None if c['path'] else None, query=up(c['query']), fragment=up(c['fragment']))

SCH = ['http', 'https', 'urn', 'tag', 'HTTP', 'a+b', None, None]
AUT = ['example.com', 'example.com:8080', 'u@h.org', 'EXAMPLE.com', 'localhost', None, None]
PTH = ['/', '/a', '/a/b', '/a/b/', '/a/../b', '/./a', 'a', 'a/b', '../c', 'c/./d', '/a%2Fb', '/a%2fb', '/~x', '', None, '/d/json-schema.org/']
QRY = ['', 'x', 'a=b&c=%41', 'q%3f', None, None, None]
FRG = ['', '/a/b', 'anchor', '/%7E0', '%c3%a9', None, None, None]

def cases(prop, seed, n0=0):
    g = random.Random(f'{seed}{prop}{n0}')
    def one(absolute=False):
        c = dict(scheme=g.choice([x for x in SCH if x] if absolute else SCH), authority=g.choice(AUT), path=g.choice(PTH), query=g.choice(QRY), fragment=g.choice(FRG))
        if c['authority'] and c['path'] and not c['path'].startswith('/'): c['path'] = '/' + c['path']
        if c['path'] == '': c['path'] = None
        return join(c)
    modes = [None, True, False, 'keep']
    while True:
        kind = g.choice(['parts', 'copy', 'copy', 'copy', 'resolve', 'validate', 'validate'])
        if kind == 'parts': yield dict(kind=kind, uri=one(), other=one())
        elif kind == 'copy': yield dict(kind=kind, uri=one(), args={n: v for n in NAMES for v in [g.choice([True, False, None, 'keep', 'new', 'keep'])] if v != 'keep'})
        elif kind == 'resolve': yield dict(kind=kind, uri=one(), base=one(True))
        else:
            yield dict(kind=kind, uri=one(), flags={n: g.choice([True, False]) for n in ('require_scheme', 'require_normalized', 'allow_fragment', 'allow_non_empty_fragment') if g.random() < .7})

NEW = dict(scheme='ftp', authority='new.net', path='/new', query='n=1', fragment='newf')
def parts(u): return {n: getattr(u, n) for n in NAMES}

def check(prop, case):
    s = case['uri']; u = URI(s); c = split(s)
    def same(got, want, what):
        if got != want: return f'{what}: {got!r} instead of {want!r} ({case})'
    w = same(parts(u), c, 'components') or same(str(u), join(c), 'text') or same(len(u), len(join(c)), 'length')
    if w: return w
    if case['kind'] == 'parts':
        o = URI(case['other'])
        w = same(u == o, c == split(case['other']) or normal(c) == normal(split(case['other'])), '==') or same(u == None, False, '== None') or same(u == URI(s), True, '== itself') or same(hash(u), hash(URI(s)), 'hash')
        ab = bool(c['scheme']) and c['fragment'] is None
        if c['authority'] or c['path']:      # (rfc3986 does not take 'x:?y' for an absolute URI)
            w = w or same(bool(u.is_absolute()), ab, 'is_absolute') or same(bool(u.has_absolute_base()), bool(c['scheme']), 'has_absolute_base')
    elif case['kind'] == 'copy':
        args = {n: NEW[n] if v == 'new' else v for n, v in case['args'].items()}
        want = {n: c[n] if args.get(n, True) is True else None if args[n] in (False, None) else args[n] for n in NAMES}
        k = u.copy(**args)
        w = same(parts(k), want, 'copy') or (same(True, False, 'copy is the original') if k is u else None)
    elif case['kind'] == 'resolve':
        b = split(case['base'])
        if not b['scheme'] or (c['scheme'] or '').lower() == b['scheme'].lower(): return     # RFC 3986 allows two readings
        if not b['authority'] and not (b['path'] or '').startswith('/'): return     # not a hierarchical base
        r = u.resolve(URI(case['base']))
        w = same(normal(parts(r)), normal(resolve(c, normal(b))), 'resolve')
    else:
        f = case['flags']
        bad = (f.get('require_scheme') and not c['scheme']) or (f.get('require_normalized') and c != normal(c)) or \
            (f.get('allow_fragment') is False and c['fragment'] is not None) or (f.get('allow_non_empty_fragment') is False and c['fragment'])
        try: u.validate(**f); got = False
        except URIError: got = True
        w = same(got, bool(bad), 'rejected')
    return w or same(parts(u), c, 'the URI after use')
