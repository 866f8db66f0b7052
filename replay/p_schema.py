"""P14-P19: verdicts and annotations of random schemas against the reference
evaluator of oracle.py."""
from .common import *
from .gen import SG
from . import oracle as O
from jschon import JSON, JSONSchema, URI
import json as _json

FOCUS = {
    'P14': ['type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern', 'maxItems',
            'minItems', 'uniqueItems', 'contains+', 'contains+', 'maxProperties', 'minProperties', 'required', 'dependentRequired'],
    'P15': ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'dependentSchemas'],
    'P16': ['properties', 'patternProperties', 'additionalProperties', 'propertyNames', 'items', 'items+', 'prefixItems*', 'contains'],
    'P17': ['unevaluatedItems', 'unevaluatedProperties', 'unevaluatedItems', 'unevaluatedProperties', 'if', 'allOf', 'anyOf', 'not', 'dependentSchemas', 'contains', 'items+'],
    'P18': [], 'P19': ['title', 'default', 'content', 'unknown', 'if', 'properties'],
}

DIRECTED = [
    # schema, instance[, dialect]
    ({'multipleOf': 0.01}, 0.07), ({'multipleOf': 0.0001}, 0.0075), ({'multipleOf': 3}, 10**30), ({'multipleOf': 1e-7}, 1e22), ({'multipleOf': 0.1}, 1e300), ({'multipleOf': 7}, 0), ({'multipleOf': 2**60}, 2**61 + 1),
    ({'type': 'integer'}, 1.0), ({'type': 'integer'}, 1.5), ({'type': 'integer'}, True), ({'type': ['integer', 'null']}, 2.0), ({'type': 'number'}, True), ({'type': 'integer'}, 1e300), ({'type': ['number', 'integer']}, 1.5), ({'type': []}, 1.5),
    ({'const': 1}, True), ({'const': 0}, False), ({'const': [0]}, [False]), ({'const': 1.0}, 1), ({'const': {'a': 1, 'b': 2}}, {'b': 2.0, 'a': 1}), ({'enum': [[True], 0]}, [1]), ({'enum': [None]}, None), ({'const': None}, None), ({'const': ''}, ''), ({'const': 2**53}, float(2**53)), ({'const': 2**53 + 1}, float(2**53)),
    ({'uniqueItems': True}, [1, True]), ({'uniqueItems': True}, [0, False]), ({'uniqueItems': True}, [1, 1.0]), ({'uniqueItems': True}, [{'a': 1, 'b': 2}, {'b': 2, 'a': 1}]), ({'uniqueItems': True}, [[1], [True]]), ({'uniqueItems': True}, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 1]), ({'uniqueItems': True}, ['a', 'b', 'a']), ({'uniqueItems': False}, [1, 1]), ({'uniqueItems': True}, [None, None]), ({'uniqueItems': True}, [2**53, float(2**53), 2**53 + 1]), ({'uniqueItems': True}, ['1', 1]), ({'uniqueItems': True}, [[], {}]), ({'uniqueItems': True}, [{}, {}]),
    ({'maxLength': 1}, '\U0001f600'), ({'minLength': 2}, '\U0001f600'), ({'maxLength': 1}, 'e\u0301'), ({'maxLength': 2.0}, 'ab'), ({'pattern': 'b'}, 'abc'), ({'pattern': '^b'}, 'a\nb'), ({'pattern': 'a$'}, 'a\n'), ({'pattern': ''}, ''),
    ({'maximum': 3}, 3), ({'exclusiveMaximum': 3}, 3), ({'minimum': 3}, 3), ({'exclusiveMinimum': 3}, 3), ({'maximum': 1.1}, 1.1), ({'maximum': 2**53}, 2**53 + 1), ({'minimum': 2**53 + 1}, 2**53), ({'maximum': float(2**53)}, 2**53 + 1), ({'exclusiveMaximum': 10**40 + 1}, 10**40),
    ({'maxItems': 0}, [1]), ({'minItems': 1}, []), ({'maxProperties': 0}, {'a': 1}), ({'minProperties': 2}, {'a': 1}), ({'required': ['a', 'b']}, {'b': 1}), ({'required': []}, {}), ({'required': ['a']}, {'a': None}),
    ({'dependentRequired': {'a': ['b', 'c']}}, {'a': 1, 'b': 2}), ({'dependentRequired': {'a': ['b']}}, {'b': 2}), ({'dependentRequired': {'a': []}}, {'a': 2}), ({'dependentRequired': {'a': ['b'], 'c': ['d']}}, {'a': None, 'b': 1, 'c': 1}),
    ({'contains': {'const': 1}, 'minContains': 0}, []), ({'contains': {'const': 1}, 'minContains': 0}, [2]), ({'contains': {'const': 1}, 'minContains': 0, 'maxContains': 1}, [1, 1]), ({'contains': {'const': 1}, 'minContains': 2}, [1]), ({'contains': {'const': 1}, 'maxContains': 1}, [1, 2]), ({'contains': {'const': 1}, 'maxContains': 0}, [1]), ({'minContains': 2}, [1]), ({'maxContains': 0}, [1]), ({'minContains': 0, 'contains': False}, [1]), ({'minContains': 2, 'contains': True}, [1, 2]), ({'maxContains': 2.0, 'contains': True}, [1, 2, 3]), ({'minContains': 0, 'maxContains': 0, 'contains': {'const': 1}}, [2]),
    ({'oneOf': [True, True]}, 1), ({'oneOf': [True, False, True]}, 1), ({'oneOf': [{'minimum': 1}, {'minimum': 2}]}, 1), ({'oneOf': [{'minimum': 1}, {'minimum': 2}]}, 2), ({'oneOf': [True, True, True]}, 1), ({'oneOf': [False]}, 0), ({'anyOf': [False, True]}, 1), ({'anyOf': [False, False]}, 1), ({'allOf': [True, False]}, 1), ({'not': {}}, 1), ({'not': False}, 1), ({'not': {'not': {'type': 'string'}}}, 'a'), ({'not': {'not': {'type': 'string'}}}, 1),
    ({'if': False, 'then': False}, 1), ({'if': False, 'else': False}, 1), ({'if': True, 'else': False}, 1), ({'if': True, 'then': False}, 1), ({'then': False}, 1), ({'else': False}, 1), ({'else': False, 'then': False, 'if': {'minimum': 2}}, 1), ({'if': {'properties': {'a': False}}, 'then': False, 'else': True}, {'a': 1}),
    ({'dependentSchemas': {'a': False}}, {'b': 1}), ({'dependentSchemas': {'a': {'required': ['b']}, 'c': False}}, {'a': None, 'b': 1}), ({'dependentSchemas': {'a': False}}, {'a': False}), ({'dependentSchemas': {'a': False}}, 'a'), ({'dependentSchemas': {'a': False}}, ['a']),
    ({'anyOf': [{'properties': {'a': {}}}, {'properties': {'b': {}}}], 'unevaluatedProperties': False}, {'a': 1, 'b': 1}),
    ({'oneOf': [{'properties': {'a': {}}, 'required': ['a']}, {'properties': {'b': {}}, 'required': ['b']}], 'unevaluatedProperties': False}, {'b': 1}),
    ({'anyOf': [{'title': 'x'}, {'title': 'y'}, {'type': 'null', 'title': 'z'}]}, 1),
    ({'properties': {'a': {'type': 'integer'}, 'b': False}}, {'a': 'x'}), ({'properties': {'a': {'type': 'integer'}, 'c': True}}, {'a': 1, 'c': 2, 'd': 3}), ({'properties': {}, 'additionalProperties': False}, {'a': 1}), ({'patternProperties': {}, 'additionalProperties': False}, {'a': 1}),
    ({'patternProperties': {'a': {'minimum': 1}, 'b': {'maximum': 5}}}, {'ab': 7, 'b': 9}), ({'patternProperties': {'a': True, 'b': False}}, {'ab': 7}), ({'patternProperties': {'b': True}, 'additionalProperties': False}, {'ab': 7}), ({'patternProperties': {'^b': True}, 'additionalProperties': False}, {'ab': 7}),
    ({'properties': {'a': True}, 'patternProperties': {'^b': True}, 'additionalProperties': {'type': 'string'}}, {'a': 1, 'bc': 2, 'c': 'x', 'd': 1}), ({'properties': {'a': False}, 'additionalProperties': {'type': 'string'}}, {'a': 1}),
    ({'additionalProperties': {'type': 'string'}}, {'a': 'x'}), ({'additionalProperties': False}, {}), ({'propertyNames': {'maxLength': 2}}, {'abc': 1}), ({'propertyNames': False}, {}), ({'propertyNames': {'enum': ['a']}}, {'a': 1, 'b': 2}), ({'propertyNames': {'pattern': 'a'}}, {'b': 1, 'a': 2}),
    ({'prefixItems': [True, {'type': 'string'}]}, [1, 2]), ({'prefixItems': [True, {'type': 'string'}]}, [1]), ({'prefixItems': [{}, {}]}, [1, 2]), ({'prefixItems': [{}, {}]}, [1, 2, 3]), ({'prefixItems': [{}], 'items': False}, [1]), ({'prefixItems': [{}], 'items': False}, [1, 2]), ({'prefixItems': [False], 'items': True}, [1, 2]), ({'items': {'type': 'string'}}, ['a', 1]), ({'items': {'type': 'string'}}, [1, 'a']), ({'items': False}, []), ({'prefixItems': [False, {}], 'items': {'type': 'integer'}}, [1, 2, 'x']),
    ({'contains': {'const': 1}}, []), ({'contains': {'const': 1}}, [2, 1]), ({'contains': {'const': 1}}, [1, 2]), ({'contains': True}, [1, 2]), ({'contains': False}, [1]),
    ({'prefixItems': [{}], 'unevaluatedItems': False}, [1, 2]), ({'prefixItems': [{}, {}], 'unevaluatedItems': False}, [1, 2]), ({'contains': {'const': 2}, 'unevaluatedItems': False}, [2, 2]), ({'contains': {'const': 2}, 'unevaluatedItems': False}, [2, 3]), ({'contains': {'const': 2}, 'prefixItems': [True], 'unevaluatedItems': {'const': 5}}, [1, 2, 5, 2]), ({'contains': {'const': 2}, 'prefixItems': [True], 'unevaluatedItems': {'const': 5}}, [1, 2, 6, 2]),
    ({'allOf': [{'prefixItems': [{}, {}]}, {'prefixItems': [{}]}], 'unevaluatedItems': False}, [1, 2, 3]), ({'allOf': [{'prefixItems': [{}, {}]}, {'prefixItems': [{}]}], 'unevaluatedItems': {'const': 3}}, [1, 2, 3]), ({'anyOf': [{'prefixItems': [{}, {}]}, {'prefixItems': [{}, {}, False]}], 'unevaluatedItems': False}, [1, 2, 3]),
    ({'allOf': [{'unevaluatedItems': True}], 'unevaluatedItems': False}, [1]), ({'allOf': [{'items': True}], 'unevaluatedItems': False}, [1]), ({'anyOf': [{'items': {'type': 'integer'}}, True], 'unevaluatedItems': False}, ['a']), ({'if': {'prefixItems': [{'const': 1}]}, 'unevaluatedItems': False}, [1]), ({'if': {'prefixItems': [{'const': 1}]}, 'unevaluatedItems': False}, [2]), ({'if': {'prefixItems': [{'const': 1}]}, 'then': {'prefixItems': [True, True]}, 'else': {'items': True}, 'unevaluatedItems': False}, [2, 3]), ({'not': {'not': {'prefixItems': [True]}}, 'unevaluatedItems': False}, [2]),
    ({'unevaluatedItems': False, 'items': True}, [1]), ({'unevaluatedProperties': False, 'properties': {'a': True}}, {'a': 1}), ({'unevaluatedProperties': False, 'properties': {'a': True}}, {'b': 1}), ({'unevaluatedProperties': {'type': 'string'}, 'patternProperties': {'^a': True}}, {'ab': 1, 'b': 'x'}), ({'unevaluatedProperties': {'type': 'string'}, 'patternProperties': {'^a': True}}, {'ab': 1, 'b': 2}),
    ({'unevaluatedProperties': False, 'additionalProperties': {'type': 'integer'}}, {'b': 1}), ({'unevaluatedProperties': False, 'allOf': [{'unevaluatedProperties': True}]}, {'b': 1}), ({'unevaluatedProperties': False, 'dependentSchemas': {'a': {'properties': {'a': True, 'b': True}}}}, {'a': 1, 'b': 1}), ({'unevaluatedProperties': False, 'if': {'properties': {'a': {'const': 1}}, 'required': ['a']}, 'then': {'properties': {'b': True}}, 'else': {'properties': {'c': True}}}, {'a': 1, 'b': 1}), ({'unevaluatedProperties': False, 'if': {'properties': {'a': {'const': 1}}, 'required': ['a']}, 'then': {'properties': {'b': True}}, 'else': {'properties': {'c': True}}}, {'c': 1}), ({'unevaluatedProperties': False, 'if': {'properties': {'a': {'const': 1}}, 'required': ['a']}, 'then': {'properties': {'b': True}}, 'else': {'properties': {'c': True}}}, {'a': 2, 'c': 1}),
    ({'unevaluatedProperties': False, 'not': {'not': {'properties': {'a': True}}}}, {'a': 1}), ({'properties': {'a': {'properties': {'x': True}, 'unevaluatedProperties': False}}, 'unevaluatedProperties': False}, {'a': {'x': 1}}), ({'properties': {'a': {'properties': {'x': True}}}, 'unevaluatedProperties': False}, {'a': {'x': 1}, 'x': 1}), ({'allOf': [{'allOf': [{'anyOf': [{'properties': {'a': True}}]}]}], 'unevaluatedProperties': False}, {'a': 1}),
    ({'$defs': {'d': {'properties': {'a': True}}}, '$ref': '#/$defs/d', 'unevaluatedProperties': False}, {'a': 1}), ({'$defs': {'d': {'properties': {'a': True}, 'required': ['b']}}, 'anyOf': [{'$ref': '#/$defs/d'}, True], 'unevaluatedProperties': False}, {'a': 1}),
    (True, 1), (False, 1), ({}, None), ({'foo': 1, 'bar': False}, 1), ({'items': False}, 'ab'), ({'minLength': 5}, [1]), ({'additionalProperties': False, 'properties': {'a': True}}, {'a': 1}), ({'maxContains': 1, 'minContains': 0, 'contains': True}, []),
    ({'title': 'x', 'description': 'd', 'default': None, 'deprecated': True, 'readOnly': False, 'writeOnly': True, 'examples': [1], 'format': 'email', '$comment': 'c', 'contentMediaType': 'text/plain', 'contentEncoding': 'base64', 'contentSchema': True}, 'v'), ({'contentMediaType': 'text/plain', 'contentEncoding': 'base64', 'contentSchema': True}, 1), ({'contentSchema': {'type': 'string'}}, 'v'), ({'title': 't', 'type': 'string'}, 1), ({'properties': {'a': {'title': 't', 'type': 'string'}}}, {'a': 1}), ({'default': {'a': [1, {'b': 2}]}}, 1), ({'if': {'title': 'i', 'const': 1}, 'then': {'title': 't'}, 'else': {'title': 'e'}}, 1), ({'if': {'title': 'i', 'const': 1}, 'then': {'title': 't'}, 'else': {'title': 'e'}}, 2),
]
DIRECTED19 = [
    ({'items': [True, {'type': 'string'}], 'additionalItems': False}, [1, 'a']), ({'items': [True, {'type': 'string'}], 'additionalItems': False}, [1, 'a', 2]), ({'items': [True], 'additionalItems': {'type': 'integer'}}, ['a', 1, 'b']), ({'items': True, 'additionalItems': False}, [1, 2]), ({'additionalItems': False}, [1]), ({'items': {'type': 'integer'}, 'additionalItems': False}, [1]), ({'items': [True, True, True], 'additionalItems': False}, [1]), ({'items': False}, [1]), ({'items': False}, []), ({'items': True}, [1]),
    ({'items': [True], 'unevaluatedItems': False}, [1]), ({'items': [True], 'unevaluatedItems': False}, [1, 2]), ({'items': [True], 'additionalItems': {'type': 'integer'}, 'unevaluatedItems': False}, [1, 2]), ({'items': True, 'unevaluatedItems': False}, [1]), ({'contains': {'const': 1}, 'unevaluatedItems': False}, [1]), ({'allOf': [{'items': [True, True]}, {'items': [True]}], 'unevaluatedItems': {'const': 3}}, [1, 2, 3]), ({'allOf': [{'items': [True, True]}, {'items': [True]}], 'unevaluatedItems': {'const': 4}}, [1, 2, 3]), ({'allOf': [{'items': {'type': 'integer'}}], 'unevaluatedItems': False}, [1, 2]), ({'allOf': [{'unevaluatedItems': True}], 'unevaluatedItems': False}, [1]), ({'anyOf': [{'items': [True, False]}, {'items': [True]}], 'unevaluatedItems': False}, [1, 2]),
    ({'contains': {'const': 1}, 'minContains': 0}, []), ({'unevaluatedProperties': False, 'properties': {'a': True}}, {'a': 1}), ({'unevaluatedProperties': False, 'dependentSchemas': {'a': {'properties': {'a': True, 'b': True}}}}, {'a': 1, 'b': 1}), ({'unevaluatedProperties': False, 'allOf': [{'patternProperties': {'a': True}}, {'unevaluatedProperties': {'type': 'integer'}}]}, {'a': 1, 'c': 3}),
    ({'$defs': {'d': {'properties': {'a': True}}}, '$ref': '#/$defs/d', 'unevaluatedProperties': False}, {'a': 1}),
]

def cases(prop, seed, n0=0):
    if prop == 'P18':
        # exhaustive stand-in for _resolve_dependencies: all acyclic dependency graphs, shared among the workers
        for n in range(5): yield {'kind': 'dependencies', 'n': n, 'part': n0 % 6, 'parts': 6}
        yield {'kind': 'classes', 'seed': f'{seed}{n0}'}
    if n0 == 0:
        for c in DIRECTED:
            yield {'dialect': '20', 'schema': c[0], 'instance': c[1]}
            if not any(k in _json.dumps(c[0]) for k in ('prefixItems', 'dynamicRef')) and not ('contains' in _json.dumps(c[0]) and 'unevaluatedItems' in _json.dumps(c[0])):
                yield {'dialect': '19', 'schema': c[0], 'instance': c[1]}
        for c in DIRECTED19: yield {'dialect': '19', 'schema': c[0], 'instance': c[1]}
    gs = {d: SG(f'{seed}{prop}{d}{n0}', d, [k for k in FOCUS.get(prop, []) if k != 'prefixItems*'] + (['prefixItems'] if d == '20' and 'prefixItems*' in FOCUS.get(prop, []) else [])) for d in ('20', '19')}
    if prop == 'P14':
        # exhaustive small grid: one assertion keyword, boundary values
        g = gs['20']
    while True:
        g = gs['20' if gs['20'].p(.6) else '19']
        if prop == 'P17' and g.p(.7):
            kind = g.pick(['obj', 'arr'])
            s = g.useg(g.pick([1, 2, 2, 3]), kind)
            if isinstance(s, dict): s.setdefault('unevaluatedProperties' if kind == 'obj' else 'unevaluatedItems', False)
            for _ in range(5): yield {'dialect': g.dialect, 'schema': s, 'instance': g.uinst(2, kind)}
            continue
        s = g.schema(g.pick([1, 1, 2, 2, 3]))
        if g.p(.15): s = {'allOf': [s, g.schema(1)], **({'unevaluatedProperties': False} if g.p(.5) else {'unevaluatedItems': False})}
        for _ in range(3):
            yield {'dialect': g.dialect, 'schema': s, 'instance': g.instance_for(s)}

def norm(v):
    if isinstance(v, list) and all(isinstance(x, str) for x in v): return sorted(v)
    return v

def key(a): return _json.dumps(a, sort_keys=True, default=str)

def collect(res, out):
    """annotations of valid nodes below valid nodes, from the result tree"""
    if res.valid and not getattr(res, '_discard', False):
        if res.annotation is not None:
            out.append((res.key, tuple(res.instance.path), tuple(res.path), res.annotation))
        for ch in res.children.values(): collect(ch, out)
    return out

def evaluate(schema, inst, dialect, cat=None):
    s = JSONSchema(schema, metaschema_uri=URI(O.D20 if dialect == '20' else O.D19), catalog=cat or std())
    j = JSON(inst)
    return s, j, s.evaluate(j)

def clean(anns):
    # annotations inside "contains" of items that did not match are not specified
    return sorted(([k, list(ip), list(kp), norm(v)] for k, ip, kp, v in anns if 'contains' not in kp[:-1] and k != 'dependentSchemas'), key=key)

def ordered(deps, present, order):
    """the classes of `order` come out once each, after those they depend on"""
    out = []
    for c in JSONSchema._resolve_dependencies(order):
        out.append(c)
        if len(out) > len(present): break
    at = {id(c): i for i, c in enumerate(out)}
    if len(out) != len(present) or len(at) != len(out) or set(map(id, out)) != set(map(id, present)): return f'{[c.key for c in order.values()]} come out as {[c.key for c in out]}'
    for c in out:
        for d in c.depends_on:
            if d in order and at[id(order[d])] > at[id(c)]: return f'{c.key!r} depends on {d!r} but comes before it'

def k_dependencies(case):
    import itertools
    from jschon.vocabulary import Keyword
    n = case['n']
    names = [f'k{i}' for i in range(n)] + ['absent']
    count = 0
    for edges in itertools.product(*[[c for r in range(i + 1) for c in itertools.combinations(list(range(i)) + [n], r)] + ([tuple(range(i)) + (n,)] if i else [(n,)]) for i in range(n)]):
        count += 1
        if count % case['parts'] != case['part']: continue
        cl = [type('K', (Keyword,), dict(key=names[i], depends_on=tuple(names[j] for j in edges[i]))) for i in range(n)]
        for perm in itertools.permutations(range(n)):
            for rev in (False, True):
                if rev:
                    for c in cl: c.depends_on = c.depends_on[::-1]
                w = ordered(edges, cl, {names[i]: cl[i] for i in perm})
                if w: return f'dependencies { {c.key: c.depends_on for c in cl} }: {w}'

def k_classes(case):
    import random
    from jschon.vocabulary import Metaschema
    g = random.Random(case['seed'])
    for u in (O.D19, O.D20):
        kw = std().get_metaschema(URI(u)).kwclasses
        for _ in range(300):
            ks = list(kw); g.shuffle(ks); ks = ks[:g.randint(0, len(ks))]
            w = ordered(None, [kw[k] for k in ks], {k: kw[k] for k in ks})
            if w: return w

TYPES = {**dict.fromkeys(('multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'), 'number'),
         **dict.fromkeys(('maxLength', 'minLength', 'pattern', 'contentMediaType', 'contentEncoding', 'contentSchema'), 'string'),
         **dict.fromkeys(('items', 'prefixItems', 'additionalItems', 'unevaluatedItems', 'contains', 'maxContains', 'minContains', 'maxItems', 'minItems', 'uniqueItems'), 'array'),
         **dict.fromkeys(('properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties', 'propertyNames', 'dependentSchemas', 'maxProperties', 'minProperties', 'required', 'dependentRequired'), 'object')}
INPLACE = ('if', 'then', 'else', 'allOf', 'anyOf', 'oneOf', 'not', '$ref', '$dynamicRef', '$recursiveRef')
AFTER = {'then': ('if',), 'else': ('if',), 'additionalProperties': ('properties', 'patternProperties'), 'additionalItems': ('items',), 'maxContains': ('contains',), 'minContains': ('contains', 'maxContains'),
         'contentSchema': ('contentMediaType',), 'unevaluatedProperties': ('properties', 'patternProperties', 'additionalProperties', 'dependentSchemas', *INPLACE)}

def observed(s, j):
    """evaluate; every schema object evaluates each applicable keyword once, in dependency order"""
    frames, bad, seen = [[]], [], set()
    def hook(x):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, JSONSchema):
            orig = x.evaluate
            def evaluate(instance, *a, **kw):
                frames.append([])
                try: return orig(instance, *a, **kw)
                finally:
                    got = frames.pop()
                    t = instance.type
                    d20 = 'prefixItems' in x.metaschema.kwclasses if x.type == 'object' else True
                    known = O.KNOWN20 if d20 else O.KNOWN19
                    want = [k for k in x.data if (k not in O.STATIC or k not in known) and TYPES.get(k if k in known else '', t) == t] if x.type == 'object' else []
                    if sorted(got) != sorted(want): bad.append(f'{x.data if x.type == "boolean" else x.value!r} on {instance.value!r}: evaluated {got}, expected {want}')
                    after = {**AFTER, 'items': ('prefixItems',), 'unevaluatedItems': ('prefixItems', 'items', 'contains', *INPLACE)} if d20 else {**AFTER, 'unevaluatedItems': ('items', 'additionalItems', *INPLACE)}
                    for i, k in enumerate(got):
                        for d in after.get(k, ()):
                            if d in got[i:]: bad.append(f'{x.value!r}: {k!r} was evaluated before {d!r}')
            x.evaluate = evaluate
            for kw in x.keywords.values(): hookkw(kw)
            for y in x.data.values() if x.type == 'object' else (): hook(y)
        else:
            for y in x.data if x.type == 'array' else x.data.values() if x.type == 'object' else (): hook(y)
    def hookkw(kw):
        orig = kw.evaluate
        def evaluate(instance, result):
            frames[-1].append(kw.key)
            return orig(instance, result)
        kw.evaluate = evaluate
    hook(s)
    r = s.evaluate(j)
    return r, (bad or [None])[0]

def nodes(r):
    yield r
    for c in r.children.values(): yield from nodes(c)

def locations(j):
    yield j
    for c in j.data if j.type == 'array' else j.data.values() if j.type == 'object' else (): yield from locations(c)

def lookups(j, r):
    """siblings and filtered collection, at every location and for every keyword"""
    locs = list(locations(j))[:12]
    rs = list(nodes(r))[:60]
    keys = sorted({x.key for x in rs if x.key is not None})[:12]
    for x in rs:
        if len(rs) > 20 and x.parent is not None and x.parent.parent is not None and len(x.parent.children) < 2: continue
        for k in keys:
            for l in locs:
                want = x.parent.children.get((k, l.path)) if x.parent is not None else None
                if x.sibling(l, k) is not want: return f'sibling({l.path}, {k}) of the result at {x.path} is {x.sibling(l, k)!r}'
    for x in [r, *r.children.values()][:4]:
        for what, good, val, coll in (('annotations', True, 'annotation', x.collect_annotations), ('errors', False, 'error', x.collect_errors)):
            def visit(y, out):
                if y.valid is good and not getattr(y, '_discard', False):
                    if getattr(y, val) is not None: out.append((y.key, y.instance.path, getattr(y, val)))
                    for c in y.children.values(): visit(c, out)
                return out
            every = visit(x, [])
            for k in [None, *keys]:
                for l in [None, *locs]:
                    want = [v for kk, p, v in every if (k is None or kk == k) and (l is None or p == l.path)]
                    got = list(coll(l, k))
                    if [key(v) for v in got] != [key(v) for v in want]: return f'{what} of {x.path} at {l and l.path} for {k}: {got}, expected {want}'

def check(prop, case):
    if 'kind' in case: return globals()['k_' + case['kind']](case)
    sch, ins = case['schema'], case['instance']
    doc = O.Doc(sch, 'http://oracle.invalid/s', O.D20 if case['dialect'] == '20' else O.D19)
    ok, anns = O.Eval(doc).run(ins)
    s, j, r = evaluate(sch, ins, case['dialect'])
    if r.valid != ok: return f'verdict {r.valid}, expected {ok}'
    if prop == 'P18':
        s5 = JSONSchema(sch, metaschema_uri=URI(O.D20 if case['dialect'] == '20' else O.D19), catalog=std())
        r5, w = observed(s5, JSON(ins))
        if w: return w
        if r5.valid != ok: return f'verdict {r5.valid}, expected {ok}'
    if prop == 'P19':
        w = lookups(j, r)
        if w: return w
    want, got = clean(anns), clean(collect(r, []))
    if ok and [key(x) for x in want] != [key(x) for x in got]:
        return f'annotations {got}, expected {want}'
    if ok:
        g2 = sorted(key(norm(a)) for a in r.collect_annotations())
        w2 = sorted(key(norm(a[3])) for a in collect(r, []))
        if g2 != w2: return f'collect_annotations() yields {g2}, expected {w2}'
        # every keyword at every location
        for k, ip, kp, v in {(a[0], a[1]): a for a in collect(r, [])}.values():
            loc = j
            try:
                for x in ip: loc = loc[int(x) if loc.type == 'array' else x]
            except Exception: continue
            g3 = sorted(key(norm(a)) for a in r.collect_annotations(loc, k))
            w3 = sorted(key(norm(a[3])) for a in collect(r, []) if a[0] == k and a[1] == ip)
            if g3 != w3: return f'collect_annotations({list(ip)}, {k}) yields {g3}, expected {w3}'
    else:
        def errs(res):
            if res.valid or getattr(res, '_discard', False): return []
            return ([res.error] if res.error is not None else []) + [e for ch in res.children.values() for e in errs(ch)]
        g2, w2 = [key(e) for e in r.collect_errors()], [key(e) for e in errs(r)]
        if g2 != w2: return f'collect_errors() yields {g2}, expected {w2}'
    if prop in ('P18', 'P15', 'P16') or True:
        r2 = s.evaluate(JSON(ins))
        if r2.valid != ok: return f'second evaluation gives {r2.valid}, expected {ok}'
        if not O.jeq(s.value, sch) or not O.same(j.value, ins): return 'evaluation changed the schema or the instance'
    if prop in ('P18',) and isinstance(sch, dict):
        for perm in (list(sch)[::-1], sorted(sch), sorted(sch, reverse=True)):
            s3 = JSONSchema({k: sch[k] for k in perm}, metaschema_uri=URI(O.D20 if case['dialect'] == '20' else O.D19), catalog=std())
            r3 = s3.evaluate(JSON(ins))
            if r3.valid != ok: return f'with members ordered {perm}: verdict {r3.valid}, expected {ok}'
            if ok and [key(x) for x in clean(collect(r3, []))] != [key(x) for x in want]: return f'with members ordered {perm}: annotations differ'
        # the same node evaluated as part of a document: paths below the root
        wrapped = JSON({'x': [ins]})
        r4 = JSONSchema(sch, metaschema_uri=URI(O.D20 if case['dialect'] == '20' else O.D19), catalog=std()).evaluate(wrapped['x'][0])
        if r4.valid != ok: return f'nested instance: verdict {r4.valid}, expected {ok}'
    return None
