"""Bounded search for P20: the output formats of random results against
independent renderings of the result tree."""
from .common import *
from .gen import SG
from . import oracle as O
from .p_schema import evaluate
from urllib.parse import urldefrag, urljoin, unquote
from jschon import JSONSchema
import json as _json

def cases(prop, seed, n0=0):
    gs = {d: SG(f'{seed}{prop}{d}{n0}', d) for d in ('20', '19')}
    while True:
        g = gs['20' if gs['20'].p(.6) else '19']
        s = g.schema(g.pick([1, 2, 2, 3]))
        if isinstance(s, dict):
            if g.p(.3):
                s = {'$defs': {'d': s, 'e/~f': g.schema(1)}, g.pick(['$ref', 'x']): '#/$defs/d', 'properties': {'a': {'$ref': g.pick(['#/$defs/d', '#/$defs/e~1~0f'])}}, 'title': 'T'}
                if '$ref' in s and g.p(.3): s['$defs']['d'] = {'$id': 'sub', **({'title': 'x'} if s['$defs']['d'] in (True, False) else s['$defs']['d'])}
            if g.p(.5) or '"sub"' in _json.dumps(s): s = {'$id': g.pick(['http://oracle.invalid/s', 'http://oracle.invalid/d/s']), **s}
        for _ in range(3):
            yield {'dialect': g.dialect, 'schema': s, 'instance': g.instance_for(s), 'names': g.pick([None, None, [], ['title'], ['type', 'minimum', 'properties', 'items'], ['a', '0', 'default', 'x']])}

def canonical(sch, base):
    """(URI without fragment, keys below it) of a schema node, from the documents alone"""
    chain = []
    n = sch
    while n is not None: chain.append(n); n = n.parent
    uri, keys = base, []
    for n in reversed(chain):
        if n.parent is not None: keys.append(n.key)
        if isinstance(n, JSONSchema) and n.type == 'object' and '$id' in n.data:
            uri = urljoin(uri, urldefrag(n.data['$id'].data)[0]); keys = []
    return uri, keys

def place(res, base):
    if res._refschema is not None: return canonical(res._refschema, base)
    rel, n = [], res
    while n.parent is not None:
        rel.insert(0, n.key)
        if n.parent.schema is not n.schema: break
        n = n.parent
    uri, keys = canonical(res.schema, base)
    return uri, keys + rel

def where(node):
    ks = []
    while node.parent is not None: ks.insert(0, node.key); node = node.parent
    return O.print_ptr(ks)
def kw(res):
    ks = []
    while res.parent is not None: ks.insert(0, res.key); res = res.parent
    return O.print_ptr(ks)

def check(prop, case):
    s, j, r = evaluate(case['schema'], case['instance'], case['dialect'])
    base = str(s.uri).split('#')[0]
    def abs_(n, got):
        """the reported URI identifies the right place (fragments up to percent-encoding)"""
        uri, keys = place(n, base)
        u, f = urldefrag(got)
        return (u, unquote(f)) == (uri, O.print_ptr(keys)) and all(ord(c) < 128 for c in f) and '"' not in f
    bad = []
    def head(n, got, names=('instanceLocation', 'keywordLocation', 'absoluteKeywordLocation')):
        g = got.get(names[2]) if isinstance(got, dict) else None
        if isinstance(got, dict) and not (isinstance(g, str) and abs_(n, g)): bad.append(f'{names[2]} {g!r} for the schema at {place(n, base)}')
        return {names[0]: where(n.instance), names[1]: kw(n), names[2]: g}
    v = r._valid
    msg = lambda n, v: n.annotation if v else n.error
    def kids(n): return list(n.children.values())
    def cmp(fmt, got, want):
        if bad: return f'{fmt}: {bad[0]}'
        if not O.same(norm(got), norm(want)): return f'{fmt} output is {got!r}, not {want!r}'
    # flag
    w = cmp('flag', r.output('flag'), {'valid': v})
    if w: return w
    # basic
    for names in (None, case['names']):
        out = r.output('basic') if names is None else r.output('basic', annotations=names)
        ck, mk = ('annotations', 'annotation') if v else ('errors', 'error')
        flat = []
        def walk(n):
            if n._valid != v: return
            if msg(n, v) is not None and (names is None or n.key in names): flat.append(n)
            for c in kids(n): walk(c)
        walk(r)
        l = out.get(ck)
        if not isinstance(l, list) or len(l) != len(flat): return f'basic output has {l!r}; expected messages of {[kw(n) for n in flat]}'
        w = cmp('basic', out, {'valid': v, ck: [{**head(n, x), mk: msg(n, v)} for n, x in zip(flat, l)]})
        if w: return w
    # detailed
    def det(n, got, top=False):
        cs = [c for c in kids(n) if c._valid == v]
        if not top and len(cs) == 1: return det(cs[0], got)
        o = {'valid': v} if top else {}
        o.update(head(n, got))
        gl = got.get(ck) if isinstance(got, dict) else None
        gl = gl if isinstance(gl, list) and len(gl) == len(cs) else [None] * len(cs)
        if cs or top: o[ck] = [det(c, x) for c, x in zip(cs, gl)]
        elif msg(n, v) is not None: o[mk] = msg(n, v)
        return o
    out = r.output('detailed'); w = cmp('detailed', out, det(r, out, True))
    if w: return w
    def ver(n, got):
        o = {'valid': n._valid, **head(n, got)}
        a, b = ('annotations', 'annotation') if n._valid else ('errors', 'error')
        if msg(n, n._valid) is not None: o[b] = msg(n, n._valid)
        cs = kids(n); gl = got.get(a) if isinstance(got, dict) else None
        gl = gl if isinstance(gl, list) and len(gl) == len(cs) else [None] * len(cs)
        if cs: o[a] = [ver(c, x) for c, x in zip(cs, gl)]
        return o
    out = r.output('verbose'); w = cmp('verbose', out, ver(r, out))
    if w: return w
    # hierarchical: where a node of the tree stands for a schema
    def isunit(n):
        if n._refschema is not None: return True
        x, rel, m = n.schema, [], n
        while m.parent is not None:
            rel.insert(0, m.key)
            if m.parent.schema is not m.schema: break
            m = m.parent
        for k in rel: x = x.data[int(k)] if isinstance(x.data, list) else x.data[k]
        return isinstance(x, JSONSchema)
    def units(n):
        return [n] if isunit(n) else [u for c in kids(n) for u in units(c)]
    def hier(n, got):
        o = {'valid': n._valid, **head(n, got, ('instanceLocation', 'evaluationPath', 'schemaLocation'))}
        us = [u for c in kids(n) if c._valid == n._valid for u in units(c)]
        gl = got.get('details') if isinstance(got, dict) else None
        gl = gl if isinstance(gl, list) and len(gl) == len(us) else [None] * len(us)
        if us: o['details'] = [hier(u, x) for u, x in zip(us, gl)]
        ms = {c.key: msg(c, n._valid) for c in kids(n) if msg(c, n._valid) is not None}
        if ms: o['annotations' if n._valid else 'errors'] = ms
        return o
    out = r.output('hierarchical'); w = cmp('hierarchical', out, hier(r, out))
    if w: return w

def norm(v):
    if isinstance(v, list): return [norm(x) for x in v]
    if isinstance(v, dict): return {k: norm(v[k]) for k in sorted(v)}
    return v
