"""Bounded search for P06-P10: JSON nodes, their mutation, in-place add, remove
and replace, equality and ordering, and serialization."""
import os, json as _json, math, tempfile, types, collections
from . import common
from .gen import G
from .oracle import *
import jschon
from jschon import JSON, JSONPointer
from jschon.exc import *
RAW = True

class Bad:
    def __repr__(self): return '<no JSON value>'
class Sub(JSON):
    def __init__(self, value, *, tag=None, **kw):
        super().__init__(value, tag=tag, **{'itemclass': Sub, **kw})
        self.tag = tag
class Item(JSON):
    """an item class that does not pass itself on"""
    def __init__(self, value, *, mark=None, **kw):
        super().__init__(value, **kw)
        self.mark = mark
def items_ok(n):
    """children are of the item class with its arguments; what is below them is plain"""
    for x in n.data if n.type == 'array' else n.data.values() if n.type == 'object' else ():
        if type(x) is not Item or x.mark != 'M': return f'an item of class {type(x).__name__}'
        for y in x.data if x.type == 'array' else x.data.values() if x.type == 'object' else ():
            if type(y) is not JSON: return f'an item of an item of class {type(y).__name__}'

def tree(n, want, parent, key, path, caches=True, ch=False):
    """the node is exactly the tree of `want`"""
    at = print_ptr(path)
    if n.type != jt(want): return f'type of {at!r} is {n.type}, not {jt(want)}'
    if n.parent is not parent: return f'parent of {at!r} is {n.parent!r}'
    if n.key != key or type(n.key) is not type(key): return f'key of {at!r} is {n.key!r}, not {key!r}'
    if isinstance(want, list):
        if type(n.data) is not list or len(n.data) != len(want): return f'{at!r} holds {n.data!r}, not {want!r}'
        for i, x in enumerate(want):
            w = tree(n.data[i], x, n, str(i), path + [str(i)], caches)
            if w: return w
    elif isinstance(want, dict):
        if type(n.data) is not dict or list(n.data) != list(want): return f'{at!r} holds members {list(n.data)!r}, not {list(want)!r}'
        for k, x in want.items():
            w = tree(n.data[k], x, n, k, path + [k], caches)
            if w: return w
    elif not same(n.data, want): return f'{at!r} holds {n.data!r}, not {want!r}'
    if caches:
        if not same(n.value, want): return f'value of {at!r} is {n.value!r}, not {want!r}'
        if list(n.path) != path: return f'path of the node at {at!r} is {str(n.path)!r}'

def down(root, keys):
    for k in keys: root = root.data[k] if isinstance(root.data, dict) else root.data[int(k)]
    return root

def read_some(g, n, p):
    if g.p(p): n.path
    if g.p(p): n.value
    for c in (n.data if isinstance(n.data, list) else n.data.values() if isinstance(n.data, dict) else ()): read_some(g, c, p)

def cpath(g, doc):
    """path of some container"""
    ks = []
    while True:
        kids = [(str(i), x) for i, x in enumerate(doc)] if isinstance(doc, list) else list(doc.items())
        kids = [(k, x) for k, x in kids if isinstance(x, (list, dict))]
        if not kids or g.p(.35): return ks
        k, doc = g.pick(kids); ks.append(k)

def cases(prop, seed, n0):
    g = G(f'{prop}.{seed}')
    k = 0
    while True:
        k += 1
        if prop == 'P06': yield dict(doc=g.json(3), bad=g.p(.15), tup=g.p(.2), seed=f'{seed}.{k}')
        elif prop == 'P07': yield dict(doc=g.container(3), seed=f'{seed}.{k}', n=g.r.randint(1, 7))
        elif prop == 'P08':
            d = g.container(3); at = cpath(g, d) if g.p(.4) else []
            ops = []
            sh = cp(d)
            for _ in range(g.r.randint(1, 4)):
                ks = g.path(get(d, at), .35)
                if g.p(.1): ks = []
                ops.append([g.pick(['add', 'add', 'remove', 'replace']), ks, g.json(2), g.r.randint(0, 9)])
            yield dict(doc=d, at=at, ops=ops, seed=f'{seed}.{k}')
        elif prop == 'P09':
            a = g.json(2); b = g.variant(a); c = g.variant(b)
            yield dict(a=a, b=b, c=c)
        else: yield dict(doc=g.json(3), nan=g.pick([None, None, None, 'NaN', 'Infinity', '-Infinity']), seed=f'{seed}.{k}')

def check(prop, c): return globals()['c_' + prop](c, G(str(c.get('seed', 0))))

def c_P06(c, g):
    d = c['doc']
    def mk(v):
        if isinstance(v, dict): return types.MappingProxyType({k: mk(x) for k, x in v.items()}) if c['tup'] and g.p(.3) else collections.OrderedDict((k, mk(x)) for k, x in v.items()) if c['tup'] else {k: mk(x) for k, x in v.items()}
        if isinstance(v, list): return tuple(mk(x) for x in v) if c['tup'] and g.p(.5) else [mk(x) for x in v]
        return v
    v = mk(d)
    if c['bad']:
        bad = g.pick([object(), Bad(), {1, 2}, 1j, frozenset(), JSON, len, (i for i in [1]), __import__('decimal').Decimal(1)])
        v = g.pick([bad, [bad], {'a': bad}, [d, [bad]], {'a': d, 'b': {'c': [bad, 1]}}])
        try: n = JSON(v)
        except TypeError: return
        return f'JSON({v!r}) is accepted: {n.type}'
    for cls, kw in ((JSON, {}), (Sub, dict(tag='T'))):
        n = cls(v, **kw)
        order = g.p(.5)
        if order:
            deep = n
            ks = g.path(d, 0)
            deep = down(n, ks)
            if list(deep.path) != ks: return f'path of {ks!r} in {d!r} is {str(deep.path)!r}'
        w = tree(n, d, None, None, [])
        if w: return f'{cls.__name__}({v!r}): {w}'
        def walk(x, y):
            if type(x) is not cls: return f'item of class {type(x).__name__}'
            if kw and x.tag != 'T': return f'item without its keyword argument'
            if isinstance(y, (list, dict)):
                if len(x) != len(y): return f'len({y!r}) is {len(x)}'
                if isinstance(y, list):
                    if any(a is not b for a, b in zip(x, x.data)): return 'iteration'
                    for i in range(len(y)):
                        if x[i] is not x.data[i] or x[i - len(y)] is not x.data[i]: return f'[{i}]'
                        if walk(x[i], y[i]): return walk(x[i], y[i])
                    if x[1:3] != x.data[1:3]: return 'slice'
                else:
                    if list(x) != list(y): return 'iteration'
                    for k in y:
                        if x[k] is not x.data[k]: return f'[{k!r}]'
                        if walk(x[k], y[k]): return walk(x[k], y[k])
                for i in ((len(y), -len(y) - 1) if isinstance(y, list) else ('\x00absent',)):
                    try: x[i]
                    except (IndexError, KeyError): continue
                    return f'[{i!r}] of {y!r} does not raise'
            elif isinstance(y, str) and len(x) != len(y): return f'len({y!r})'
            if bool(x) != bool(y): return f'bool({y!r})'
        w = walk(n, d)
        if w: return f'{cls.__name__}({v!r}): {w}'

    n = JSON(v, itemclass=Item, mark='M')
    if items_ok(n) or tree(n, d, None, None, []): return f'JSON({v!r}, itemclass): {items_ok(n)} {tree(n, d, None, None, [])}'

def c_P07(c, g):
    doc = cp(c['doc'])
    cls = g.pick([JSON, JSON, Sub])
    root = cls(cp(doc))
    other = JSON(g.json(2)); oshadow = cp(other.value)
    log = [f'doc = {doc!r}']
    for _ in range(c['n']):
        p = g.pick([0, .3, 1])
        read_some(g, root, p)
        ks = cpath(g, doc); n, sh = down(root, ks), get(doc, ks)
        x = g.r.random()
        bad = .55 <= x < .65
        if x < .55: v = g.json(2); given = cp(v)
        elif x < .65:
            v = g.pick([[1, Bad()], {'a': Bad()}, Bad()]); given = v
        elif x < .8:
            src = g.path(doc, 0); given = down(root, src); v = cp(get(doc, src))
        else: given = other; v = cp(oshadow)
        m = len(sh)
        k = g.pick([0, 1, -1, m - 1, m, -m, -m - 1, g.r.randint(-m - 2, m + 2), 2]) if isinstance(sh, list) else g.pick(list(sh)) if sh and g.p(.6) else g.key()
        op = g.pick(['set', 'set', 'del', 'del', 'insert', 'insert', 'append', 'extend', 'pop', 'pop1', 'reverse', 'iadd'] if isinstance(sh, list) else ['set', 'set', 'del', 'update', 'updatekw', 'setdefault', 'popitem', 'pop1'])
        if bad and op in ('extend', 'iadd', 'update'): continue
        if op in ('extend', 'iadd') and given is not other: given = cp(v)
        log.append(f'{op} at {print_ptr(ks)!r} {k!r} {v!r}' + (' (read)' if p else ''))
        before = cp(doc)
        exp = None
        nt = lambda z: given if given is not v else z
        try:
            if bad and op in ('set', 'insert', 'append', 'updatekw') and not (op == 'set' and isinstance(sh, list) and not -m <= k < m): raise TypeError
            if op == 'set': sh[k] = cp(v)
            elif op == 'del': del sh[k]
            elif op == 'insert': sh.insert(k, cp(v))
            elif op == 'append': sh.append(cp(v))
            elif op in ('extend', 'iadd'): sh += [cp(v), cp(v)]
            elif op == 'pop': sh.pop()
            elif op == 'pop1': sh.pop(k)
            elif op == 'reverse': sh.reverse()
            elif op in ('update', 'updatekw'): sh.update({k: cp(v)})
            elif op == 'setdefault':
                if bad and k not in sh: raise TypeError
                sh.setdefault(k, cp(v))
            elif op == 'popitem':
                if not sh: raise KeyError
                kk = next(iter(sh)); del sh[kk]
        except (IndexError, KeyError, TypeError) as e: exp = e; doc = before
        got = None
        try:
            if op == 'set': n[k] = given
            elif op == 'del': del n[k]
            elif op == 'insert': n.insert(k, given)
            elif op == 'append': n.append(given)
            elif op == 'extend': n.extend([given, given])
            elif op == 'iadd':
                q = n; q += [given, given]
            elif op == 'pop': n.pop()
            elif op == 'pop1': n.pop(k)
            elif op == 'reverse': n.reverse()
            elif op in ('update', 'updatekw'): n.update({k: given})
            elif op == 'setdefault': n.setdefault(k, given)
            elif op == 'popitem': n.popitem()
        except (IndexError, KeyError, TypeError) as e: got = e
        if type(exp) is not type(got): return f'{log}: raises {got!r}, expected {exp!r}'
        if op == 'popitem' and exp is None:      # whichever member went, exactly one did
            pass
        if g.p(.6):
            w = tree(root, doc, None, None, [], g.p(.7))
            if w: return f'{log}: {w}'
        if g.p(.3):
            if other.type in ('array', 'object') and len(other.data):
                if other.type == 'array': other.insert(0, 'changed'); oshadow.insert(0, 'changed')
                else: other['zz'] = 'changed'; oshadow['zz'] = 'changed'
        if given is other and g.p(.5):      # change the source, then the copy
            w = tree(other, oshadow, None, None, [])
            if w: return f'{log}: the source of a copy: {w}'
    w = tree(root, doc, None, None, [])
    if w: return f'{log}: {w}'
    w = tree(other, oshadow, None, None, [])
    if w: return f'{log}: the source of a copy: {w}'

def c_P08(c, g):
    doc = cp(c['doc']); cls = g.pick([JSON, Sub] + ([Item] if not c['at'] else []))
    root = cls(cp(doc)) if cls is JSON else JSON(cp(doc), itemclass=Item, mark='M') if cls is Item else Sub(cp(doc), tag='T')
    node = down(root, c['at'])
    log = [f'doc {doc!r} at {print_ptr(c["at"])!r}']
    for op, ks, v, x in c['ops']:
        read_some(g, root, g.pick([0, .3, 1]))
        sub = get(doc, c['at']) if c['at'] else doc
        path = print_ptr(ks) if x < 7 else JSONPointer(ks)
        log.append(f'{op} {str(path)!r} {v!r}')
        before = cp(doc)
        try:
            new = p_add(cp(sub), ks, v) if op == 'add' else p_replace(cp(sub), ks, v) if op == 'replace' else p_remove(cp(sub), ks)
            if new is Nothing: new = None
            fails = False
        except PatchErr: fails = True
        given = JSON(cp(v)) if x % 3 == 0 else cp(v)
        try:
            if op == 'remove': node.remove(path)
            else: getattr(node, op)(path, given)
            failed = False
        except JSONError: failed = True
        if fails != failed: return f'{log}: {"raises the JSON error" if failed else "does not raise the JSON error"}'
        if not fails:
            if c['at']:
                p = get(doc, c['at'][:-1]); kk = c['at'][-1]
                p[int(kk) if isinstance(p, list) else kk] = new
            else: doc = new
        if isinstance(given, JSON) and not fails and g.p(.5) and given.type == 'array': given.insert(0, 'later')
        w = tree(root, doc, None, None, [], g.p(.8))
        if w: return f'{log}: {w}'
        if cls is Item and items_ok(root): return f'{log}: {items_ok(root)}'
        if cls is Sub:
            def walk(n):
                if type(n) is not Sub or n.tag != 'T': return 'a node lost its item class or keyword arguments'
                for y in (n.data if isinstance(n.data, list) else n.data.values() if isinstance(n.data, dict) else ()):
                    if walk(y): return walk(y)
            if walk(root): return f'{log}: {walk(root)}'
        if not isinstance(get(doc, c['at']), (list, dict)) and ks: pass

def c_P09(c, g):
    vals = [c['a'], c['b'], c['c']]
    nodes = [JSON(cp(v)) for v in vals]
    for v, n in zip(vals, nodes):
        if not n == n or n != n or not n == JSON(cp(v)) or not n == cp(v): return f'{v!r} is not equal to itself'
        for w, m in zip(vals, nodes):
            e = jeq(v, w)
            for a, b, t in ((n, m, 'nodes'), (n, cp(w), 'node and value')):
                if (a == b) is not e: return f'{t} {v!r} == {w!r} is {a == b!r}'
                if (a != b) is e: return f'{t} {v!r} != {w!r} is {a != b!r}'
            if not isinstance(v, (list, dict)) and (cp(v) == m) is not e and not isinstance(v, str): return f'value and node {v!r} == {w!r} is {cp(v) == m!r}'
            if jt(v) == jt(w) and jt(v) in ('number', 'string'):
                for f in ('__lt__', '__le__', '__gt__', '__ge__'):
                    import operator
                    o = getattr(operator, f)
                    for b in (m, w):
                        if o(n, b) is not o(v, w): return f'{v!r} {f} {w!r} is {o(n, b)!r}'

def c_P10(c, g):
    d = c['doc']
    def odd(v):
        if isinstance(v, float): return math.isinf(v) or math.isnan(v)
        if isinstance(v, str): return any(0xd800 <= ord(x) <= 0xdfff for x in v)
        if isinstance(v, list): return any(map(odd, v))
        if isinstance(v, dict): return any(odd(x) or odd(k) for k, x in v.items())
    if odd(d): return
    n = JSON(cp(d))
    t = n.dumps()
    if not same(_json.loads(t, parse_constant=lambda x: Bad()), d): return f'text of {d!r} is {t!r}'
    if str(n) != t: return f'str() of {d!r} is {str(n)!r}'
    for cls, kw in ((JSON, {}), (Sub, dict(tag='K'))):
        m = cls.loads(t, **kw)
        w = tree(m, d, None, None, [])
        if w or type(m) is not cls or (kw and m.tag != 'K'): return f'loading {t!r} gives {m!r} {w}'
    with tempfile.TemporaryDirectory() as td:
        f = os.path.join(td, 'f.json')
        if g.p(.5): open(f, 'w').write('x' * 3000)
        n.dumpf(f)
        txt = open(f).read()
        if not same(_json.loads(txt), d): return f'file of {d!r} holds {txt!r}'
        for cls, kw in ((JSON, {}), (Sub, dict(tag='K'))):
            m = cls.loadf(f, **kw)
            w = tree(m, d, None, None, [])
            if w or type(m) is not cls or (kw and m.tag != 'K'): return f'loading the file of {d!r} gives {m!r} {w}'
        import jschon.utils as U
        class Resp:
            def raise_for_status(self): pass
            def json(self, **kw): return _json.loads(self.t, **kw)
        class Req:
            @staticmethod
            def get(url, *a, **kw):
                r = Resp(); r.t = open(f).read(); return r
        U.requests = Req
        try:
            m = Sub.loadr('http://x/y', tag='K')
            w = tree(m, d, None, None, [])
            if w or m.tag != 'K': return f'loading {txt!r} remotely gives {m!r} {w}'
        finally: pass
        if c['nan']:
            spot = g.pick(['%s', '[%s]', '[1, {"a": %s}]', '{"b": [%s]}', '[[[[%s]]]]', '-0.5e3'.join(['[', ', %s]'])])
            text = spot % c['nan']
            open(f, 'w').write(text)
            for what, call in (('loads', lambda: JSON.loads(text)), ('loadf', lambda: JSON.loadf(f)), ('loadr', lambda: JSON.loadr('http://x/y'))):
                try: r = call()
                except ValueError: continue
                return f'{what}({text!r}) gives {r.value!r}'
            bad = _json.loads(text)
            n = JSON(bad)
            for what, call in (('dumps', lambda: n.dumps()), ('dumpf', lambda: n.dumpf(f)), ('str', lambda: str(n))):
                try: r = call()
                except ValueError: continue
                return f'{what} of {bad!r} gives {r!r}'
