"""Bounded search for P24: format assertion, enabling, registration."""
from .common import *
import random, itertools
from jschon import JSON, JSONSchema
from jschon.vocabulary.format import format_validator
import jschon.vocabulary.format as FM
import jschon.formats as FS

TYPES = ('null', 'boolean', 'number', 'string', 'array', 'object')
VALS = [None, True, False, 0, 1.5, 'a', '', '/a', 'a~', 'x', [], [1, 'a'], [[1]], {}, {'a': [1]}, {'b': {}}]
PTRS = ['', '/', '/a/b', 'a', '/~', '/~0', '/~1', '/~2', '/a~', '/a\n', '\n', '/a\n/b', '/é', '~', '/~01', '/a/', '#/a', ' ', '/ ']
cats, counter = [], itertools.count()
def the_cats():
    while len(cats) < 3: cats.append(catalog('2020-12', '2019-09', name=f'fmt{len(cats)}x{os.getpid()}'))
    return cats
REJ = {'never': lambda v: False, 'always': lambda v: True, 'falsy': lambda v: not v, 'list_of_int': lambda v: isinstance(v, list) and any(type(x) is not int for x in v),
       'text': lambda v: isinstance(v, str) and v != 'a', 'members': lambda v: isinstance(v, dict) and any(type(x) is not list for x in v.values())}
def jt(v): return 'null' if v is None else 'boolean' if isinstance(v, bool) else 'number' if isinstance(v, (int, float)) else 'string' if isinstance(v, str) else 'array' if isinstance(v, list) else 'object'

def cases(prop, seed, n0=0):
    g = random.Random(f'{seed}{prop}{n0}')
    for p in PTRS: yield dict(kind='ptr', values=[p])
    for v in VALS: yield dict(kind='ptr', values=[v])
    while True:
        if g.random() < .1: yield dict(kind='ptr', values=[''.join(g.choice('/~01a\né') for _ in range(g.randint(0, 5))) for _ in range(20)]); continue
        n = g.randint(1, 4)
        fm = [dict(reg=g.random() < .85, types=g.choice([None, list(g.sample(TYPES, g.randint(0, 6)))]), rej=g.choice(list(REJ)), err=g.choice(['ValueError'] * 4 + ['UnicodeError'])) for _ in range(n)]
        on = [(g.randrange(3), [g.randrange(n) for _ in range(g.randint(0, 3))]) for _ in range(g.randint(0, 4))]
        probes = [(g.randrange(3), g.randrange(n), g.choice(VALS), g.choice(['2020-12', '2019-09'])) for _ in range(g.randint(1, 4))]
        late = [(g.randrange(3), [g.randrange(n)]) for _ in range(g.randint(0, 2))]
        yield dict(kind='format', formats=fm, on=on, probes=probes, late=late, twice=g.random() < .2)

def check(prop, c):
    if c['kind'] == 'ptr':
        import re
        for v in c['values']:
            bad = isinstance(v, str) and not re.fullmatch(r'(/([^~/]|~[01])*)*', v, re.S)
            try: FS.validate_json_pointer(v); got = False
            except ValueError: got = True
            if got != bad: return f'the json-pointer format {"rejects" if got else "accepts"} {v!r}'
        return
    cs, base = the_cats(), next(counter)
    name = lambda i: f'fmt{base}-{i}'
    calls = []
    for i, f in enumerate(c['formats']):
        if not f['reg']: continue
        def val(v, i=i, f=f):
            calls.append((i, v))
            if REJ[f['rej']](v): raise (ValueError if f['err'] == 'ValueError' else UnicodeError)('rejected')
        r = format_validator(name(i), **({} if f['types'] is None else dict(instance_types=tuple(f['types']))))(val)
        if r is not val: return 'the decorator does not return the function'
    on = [set(), set(), set()]
    for k, l in c['on']:
        cs[k].enable_formats(*[name(i) for i in l]); on[k].update(l)
    def enabled_ok():
        for k in range(3):
            for i in range(len(c['formats'])):
                if bool(cs[k].is_format_enabled(name(i))) != (i in on[k]): return f'format {i} enabled in catalog {k}: {i not in on[k]}, expected {i in on[k]}'
    w = enabled_ok()
    if w: return w
    made = []
    for k, i, v, ver in c['probes']:
        doc = {'$schema': f'https://json-schema.org/draft/{ver}/schema', 'format': name(i)}
        try: s = JSONSchema(doc, catalog=cs[k])
        except KeyError:
            if i in on[k] and not c['formats'][i]['reg']: continue
            return f'construction with format {i} in catalog {k}: KeyError'
        if i in on[k] and not c['formats'][i]['reg']: return 'an enabled format without a validator is accepted'
        made.append((s, k, i, v, i in on[k]))
    for k, l in c['late']:
        cs[k].enable_formats(*[name(i) for i in l]); on[k].update(l)
    for s, k, i, v, was in made:
        f = c['formats'][i]
        act = was and jt(v) in (f['types'] if f['types'] is not None else ['string'])
        want = not (act and REJ[f['rej']](v))
        for _ in range(2 if c['twice'] else 1):
            calls.clear()
            r = s.evaluate(JSON(v))
            if r.valid != want: return f'format {i} in catalog {k} with {v!r}: valid={r.valid}, expected {want}'
            if act and calls != [(i, v)] or not act and calls: return f'validator calls {calls!r} for {v!r}'
            if act and repr(calls[0][1]) != repr(v): return f'validator called with {calls[0][1]!r} instead of {v!r}'
            fr = [x for x in r.children.values() if x.key == 'format']
            if len(fr) != 1 or fr[0].annotation != name(i) or fr[0].passed is not (want or not act): return 'the format result is wrong'
            if want and list(r.collect_annotations(key='format')) != [name(i)]: return 'the annotation of format is missing'
    return enabled_ok()
