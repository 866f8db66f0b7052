"""Bounded search for P11-P13: the patch operations against RFC 6902, isolation
of patch evaluation, patch objects as sequences."""
import json as _json
from . import common
from .gen import G
from .oracle import *
import jschon.jsonpatch as JP
from jschon import JSONPatch, JSONPatchOperation, JSONPointer
from jschon.exc import JSONPatchError
RAW = True

def ptrs(doc, pre=()):
    yield list(pre)
    for k, x in ((str(i), x) for i, x in enumerate(doc)) if isinstance(doc, list) else doc.items() if isinstance(doc, dict) else ():
        yield from ptrs(x, [*pre, k])

def make(g, doc, quiet=False):
    """one operation, likely (not certain) to apply to doc"""
    op = g.pick(['add', 'add', 'remove', 'replace', 'move', 'copy', 'copy', 'test', 'test'])
    some = list(ptrs(doc))
    def path(e):
        p = g.pick(some) if g.p(.5) else g.path(doc, e)
        if g.p(.35):
            q = g.pick(some); t = get(doc, q)
            p = q + [g.pick([str(len(t)), '-', '0', str(max(0, len(t) - 1))]) if isinstance(t, list) else g.key()]
        if not p and g.p(.7): p = g.pick(some)
        if g.p(.05): p = p + [g.pick(['-', '0', 'a', '-1', '00', '01', '+1', '１', '1\n'])]
        return p
    p = path(.25)
    o = dict(op=op, path=print_ptr(p))
    if op in ('add', 'replace'): o['value'] = g.json(2)
    if op == 'test':
        try: o['value'] = g.variant(cp(get(doc, p)))
        except PtrRef: o['value'] = g.json(1)
    if op in ('move', 'copy'):
        f = path(.1)
        if g.p(.08): f = p[:len(p) - 1]
        if g.p(.05): f = list(p)
        o['from'] = print_ptr(f)
    return o

def ref(doc, o):
    """(raised, document) by the RFC; the document is copied first"""
    try: d = apply_op(cp(doc), o)
    except PatchErr: return True, None
    return False, None if d is Nothing else d

def cases(prop, seed, n0):
    g = G(f'{prop}.{seed}'); k = 0
    while True:
        k += 1
        doc = g.container(3) if g.p(.85) else g.json(2)
        s = f'{seed}.{k}'
        if prop == 'P11': yield dict(doc=doc, op=make(g, doc), seed=s)
        elif prop == 'P12':
            ops, d = [], cp(doc)
            for _ in range(g.r.randint(1, 6)):
                for _ in range(8):
                    o = make(g, d)
                    bad, d2 = ref(d, o)
                    if not bad: break
                if bad and g.p(.8): continue
                ops.append(o)
                if bad: break
                d = d2
            yield dict(doc=doc, ops=ops, seed=s)
        else: yield dict(doc=doc, ops=[make(g, doc) for _ in range(g.r.randint(0, 6))], more=[make(g, doc) for _ in range(6)], seed=s)

def check(prop, c): return globals()['c_' + prop](c, G(str(c['seed'])))

def build(o, g):
    x = g.r.randint(0, 2)
    if x == 0: return JSONPatchOperation(**o)
    if x == 1: return JSONPatchOperation(**{'from_' if k == 'from' else k: v for k, v in o.items()})
    return JSONPatchOperation(**{'from_' if k == 'from' else k: JSONPointer(v) if k in ('path', 'from') else v for k, v in o.items()})

def run(o, doc, g):
    if g.p(.5): return build(o, g).apply(doc)
    f = getattr(JP, o['op']); p = JSONPointer(o['path'])
    if 'from' in o: return f(doc, p, JSONPointer(o['from']))
    if 'value' in o: return f(doc, p, o['value'])
    return f(doc, p)

def c_P11(c, g):
    doc, o = cp(c['doc']), cp(c['op'])
    bad, want = ref(doc, o)
    try: r, exc = run(o, doc, g), None
    except Exception as e: r, exc = None, e
    if exc is not None:
        if not isinstance(exc, JSONPatchError): return f'{o} raises {type(exc).__name__}: {exc}'
        return None if bad else f'{o} fails: {exc}'
    if bad: return f'{o} yields {r!r} instead of failing'
    if not same_kind(r, want): return f'{o} yields {r!r}, not {want!r}'

def same_kind(a, b):
    """identical values; member order is free"""
    if type(a) is not type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(same_kind(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return a.keys() == b.keys() and all(same_kind(a[k], b[k]) for k in a)
    return a == b

def containers(v):
    if isinstance(v, (list, dict)):
        yield v
        for x in (v if isinstance(v, list) else v.values()): yield from containers(x)

def c_P12(c, g):
    doc, ops = cp(c['doc']), cp(c['ops'])
    patch = JSONPatch(*[build(o, g) if g.p(.5) else o for o in ops])
    bad, want = False, cp(doc)
    for o in ops:
        bad, want = ref(want, o)
        if bad: break
    def once():
        try: return patch.evaluate(doc), None
        except Exception as e: return None, e
    for when in ('', ' the second time', ' after a change of the result'):
        r, exc = once()
        if not same(doc, c['doc']): return f'evaluation{when} changed the document from {c["doc"]!r} to {doc!r}'
        if exc is not None:
            if not isinstance(exc, JSONPatchError): return f'evaluation{when} raises {type(exc).__name__}: {exc}'
            if not bad: return f'evaluation{when} fails: {exc}'
        elif bad: return f'evaluation{when} yields {r!r} instead of failing'
        elif not same_kind(r, want): return f'evaluation{when} yields {r!r}, not {want!r}'
        for o, x in zip(ops, c['ops']):
            if not same(o, x): return f'evaluation{when} changed the operation {x!r} to {o!r}'
        for p, x in zip(patch, c['ops']):
            if 'value' in x and not same(p.value, x['value']): return f'evaluation{when} changed the value of operation {x!r} to {p.value!r}'
        if exc is None:
            ids = [id(x) for x in containers(r)]
            if len(set(ids)) != len(ids): return f'the result {r!r} shares a container with itself'
            others = {id(x): 'document' for x in containers(doc)}
            for p, x in zip(patch, ops):
                for y in containers(p.value): others[id(y)] = f'operation {x!r}'
                for y in containers(x.get('value')): others[id(y)] = f'operation {x!r}'
            for x in containers(r):
                if id(x) in others: return f'the result {r!r} shares {x!r} with the {others[id(x)]}'
            for x in list(containers(r)):
                if isinstance(x, list): x.append('changed')
                else: x['changed'] = 'changed'

def opeq(a, b):
    return a['op'] == b['op'] and parse_ptr(a['path']) == parse_ptr(b['path']) and \
        ('from' in a) == ('from' in b) and ('from' not in a or parse_ptr(a['from']) == parse_ptr(b['from'])) and jeq(a.get('value'), b.get('value'))

def c_P13(c, g):
    ops, more = cp(c['ops']), cp(c['more'])
    form = lambda o: build(o, g) if g.p(.5) else cp(o)
    P = JSONPatch(*[form(o) for o in ops])
    def state(when):
        if len(P) != len(ops): return f'{when}: length {len(P)}, not {len(ops)}'
        l = P.aslist()
        if [dict(x) for x in l] != l or not all(same_kind(dict(x), o) for x, o in zip(l, ops)) or len(l) != len(ops): return f'{when}: list form {l!r}, not {ops!r}'
        if not all(isinstance(x, JSONPatchOperation) for x in P): return f'{when}: not all items are operations'
        for o, x in zip(ops, P):
            if not (x == o) or not (x == build(o, g)): return f'{when}: operation {x!r} does not equal {o!r}'
        if not (JSONPatch(*l) == P and P == l and P == JSONPatch(*[form(o) for o in ops])): return f'{when}: not equal to the rebuilt patch'
        if [x.asdict() for x in _each(P)] != l: return f'{when}: indexing and list form differ'
    w = state('construction')
    if w: return w
    for a in ops + more[:3]:
        for b in [g.pick(ops + more), {**a, **({'value': g.variant(a['value'])} if 'value' in a else {})}]:
            e = form(a)
            if isinstance(e, dict): e = JSONPatchOperation(**e)
            if (e == form(b)) != opeq(a, b): return f'operations {a!r} and {b!r} compare {not opeq(a, b)}'
    for _ in range(3):
        other = [{**o, **({'value': g.variant(o['value'])} if 'value' in o and g.p(.6) else {})} for o in ops]
        if g.p(.2): other = other[:-1] if g.p(.5) else other + [more[0]]
        if g.p(.1): other = other[::-1]
        e = len(other) == len(ops) and all(opeq(a, b) for a, b in zip(ops, other))
        for Q in (JSONPatch(*[form(o) for o in other]), [form(o) for o in other], tuple(form(o) for o in other)):
            if (P == Q) is not e or (P != Q) is e: return f'patches {ops!r} and {other!r} compare {not e}'
    for x in ('Add', '', 'ADD', 'adds', 'frobnicate', 'add '):
        try: JSONPatchOperation(op=x, path='', value=1); return f'operation {x!r} is accepted'
        except ValueError: pass
    for m in more:
        n = len(ops); i = g.r.randint(-n - 2, n + 2); act = g.pick(['set', 'del', 'insert', 'get', 'slice', 'append', 'pop', 'extend'])
        before = cp(ops); when = f'{act} at {i} of {n}'
        def do(l, f):
            if act == 'set': l[i] = f(m)
            elif act == 'del': del l[i]
            elif act == 'insert': l.insert(i, f(m))
            elif act == 'append': l.append(f(m))
            elif act == 'pop': l.pop(i)
            elif act == 'extend': l.extend([f(m)])
            elif act == 'get': return l[i]
            elif act == 'slice': return l[sl]
        sl = slice(g.pick([None, i, 0, 1, -1]), g.pick([None, n, i, -1, 2]))
        res = []
        for l, f in ((ops, cp), (P, form)):
            try: res.append((None, do(l, f)))
            except Exception as e: res.append((type(e), None))
        if res[0][0] != res[1][0]: return f'{when}: {res[1][0]} where a list has {res[0][0]}'
        if act == 'get' and res[0][0] is None and not same_kind(res[1][1].asdict(), res[0][1]): return f'{when}: {res[1][1]!r}, not {res[0][1]!r}'
        if act == 'slice':
            s = res[1][1]
            if not isinstance(s, JSONPatch) or len(s) != len(res[0][1]) or not all(same_kind(a, b) for a, b in zip(s.aslist(), res[0][1])): return f'{when}: slice {sl} is {s!r}, not {res[0][1]!r}'
            s.append(dict(op='remove', path=''))
        w = state(when)
        if w: return w

def _each(P): return [P[i] for i in range(len(P))]
