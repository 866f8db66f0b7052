"""Small functions on a list of ints, an int and a list of texts: every one is
run by CPython on concrete inputs and by the verifier on symbolic inputs
assumed equal to them (see run.py)."""
__pyvc__ = True
from collections import deque

def f01(xs, k, ss):
    n = 0
    for x in xs:
        if x > k: n += 1
    return n
def f02(xs, k, ss):
    last = None
    for x in xs:
        if x != k: last = x
    return last
def f03(xs, k, ss):
    for i, x in enumerate(xs):
        if x == k: return i
    return -1
def f04(xs, k, ss):
    m = 0
    for x in xs:
        if x > m: m = x
    return m
def f05(xs, k, ss):
    out = []
    for x in xs:
        if x >= k: out.append(x + 1)
    return out
def f06(xs, k, ss): return [x for x in xs if x % 2 == 0]
def f07(xs, k, ss): return any(x == k for x in xs)
def f08(xs, k, ss): return all(x <= k for x in xs)
def f09(xs, k, ss): return sum(1 for x in xs if x < k)
def f10(xs, k, ss): return len([x for x in xs if x == k])
def f11(xs, k, ss): return xs[:k]
def f12(xs, k, ss): return xs[k:]
def f13(xs, k, ss): return xs[-k:]
def f14(xs, k, ss): return xs[k]
def f15(xs, k, ss):
    try: return xs[k]
    except IndexError: return 'out'
def f16(xs, k, ss):
    i = 0
    while i < len(xs):
        if xs[i] == k: break
        i += 1
    else: return 'none'
    return i
def f17(xs, k, ss):
    d = {}
    for i, s in enumerate(ss): d[s] = i
    return len(d)
def f18(xs, k, ss):
    d = {s: i for i, s in enumerate(ss)}
    return d.get('a', -1)
def f19(xs, k, ss): return 'b' in ss
def f20(xs, k, ss): return max(xs, default=0)
def f21(xs, k, ss): return max((x for x in xs if x < k), default=-1)
def f22(xs, k, ss):
    ok = True
    for x in xs:
        if x > k:
            ok = False
            break
    return ok
def f23(xs, k, ss):
    ok = True
    for x in xs:
        ok = x > k
    return ok
def f24(xs, k, ss):
    found = None
    for x in xs:
        if x > k and (found is None or x > found): found = x
    return found
def f25(xs, k, ss):
    out = deque()
    for x in xs: out.appendleft(x)
    return list(out)
def f26(xs, k, ss):
    total = 0
    for x in xs:
        for y in xs:
            if x == y: total += 1
    return total == len(xs)
def f27(xs, k, ss): return [[y for y in xs if y < x] for x in xs if x > k] == []
def f28(xs, k, ss):
    for x in xs:
        try:
            if x == k: raise ValueError('v')
            if x > k: raise KeyError('k')
        except KeyError: return 'key'
    return 'end'
def f29(xs, k, ss):
    for x in xs:
        if x == k: raise ValueError('v')
    return k
def f30(xs, k, ss):
    out = list(xs); out.insert(k, 7); return out
def f31(xs, k, ss):
    out = list(xs); del out[k]; return out
def f32(xs, k, ss):
    out = list(xs); out[k] = 9; return out
def f33(xs, k, ss):
    out = list(xs); x = out.pop(k); return (x, out)
def f34(xs, k, ss): return xs + [k] + xs
def f35(xs, k, ss): return xs == sorted(xs) if False else list(reversed(xs))
def f36(xs, k, ss):
    a, b = 0, 1
    for x in xs: a, b = b, a
    return a
def f37(xs, k, ss):
    n = 10
    for x in xs:
        if x == k: continue
        n -= 1
    return n
def f38(xs, k, ss): return k if k > 2 else -k
def f39(xs, k, ss): return (k > 1 and xs) or ss
def f40(xs, k, ss): return not xs or xs[0] <= xs[-1]
def f41(xs, k, ss): return [i for i, x in enumerate(xs) if x != k]
def f42(xs, k, ss): return list(zip(xs, ss))
def f43(xs, k, ss): return list(range(k)) == [i for i in range(k)]
def f44(xs, k, ss):
    seen = set()
    for s in ss:
        if s in seen: return False
        seen.add(s)
    return True
def f45(xs, k, ss): return [x for x in xs if x not in (1, 2)]
def f46(xs, k, ss):
    def rec(n): return 0 if n <= 0 else 1
    return [rec(x) for x in xs]
def f47(xs, k, ss):
    def gen():
        for x in xs:
            if x > k: yield x
            yield k
    return list(gen())
def f48(xs, k, ss): return {s: 1 for s in ss} == {s: 1 for s in reversed(ss)}
def f49(xs, k, ss):
    t = ''
    for s in ss: t += '/' + s
    return t == ''
def f50(xs, k, ss): return -7 // 2 + -7 % 3 + k
def f51(xs, k, ss):
    d = {'a': 1, 'b': 2}
    d['a'] = k
    d.pop('b')
    d.update(c=k)
    return list(d.items())
def f52(xs, k, ss):
    d = {}
    for s in ss: d.setdefault(s, 0)
    return 'a' in d
def f53(xs, k, ss): return isinstance(k, int) and not isinstance(k, bool) and isinstance(xs, list)
def f54(xs, k, ss): return next((x for x in xs if x > k), None)
def f55(xs, k, ss):
    it = iter(xs)
    return next(it, 'empty')
def f56(xs, k, ss): return min(len(xs), k)
def f57(xs, k, ss): return max(k, 3, len(ss))
def f58(xs, k, ss):
    best = None
    for s in ss:
        if best is None or len(s) > len(best): best = s
    return best
def f59(xs, k, ss): return [s for s in ss if s.startswith('a')] == []
def f60(xs, k, ss):
    try:
        for x in xs:
            if x == k: return 'in'
    finally:
        k = 0
    return 'out'
def f61(xs, k, ss):
    out = []
    for x in xs:
        out.append(x)
        if len(out) == 2: break
    return out
def f62(xs, k, ss):
    i = k
    while i > 0: i -= 1
    return i
def f63(xs, k, ss): return xs[1:-1]
def f64(xs, k, ss): return xs[::-1]
def f65(xs, k, ss): return {x for x in xs} == set(xs)
def f66(xs, k, ss): return set(xs) <= {0, 1, 2, 3, 4}
def f67(xs, k, ss):
    n = 0
    for i in range(len(xs)):
        if i and xs[i] == xs[i - 1]: n += 1
    return n
def f68(xs, k, ss): return xs.index(k)
def f69(xs, k, ss): return xs.count(k)
def f70(xs, k, ss): return sum(x == k for x in xs)
def f71(xs, k, ss):
    flag = False
    for x in xs:
        if flag and x == k: return 'again'
        if x == k: flag = True
    return flag
def f72(xs, k, ss):
    out = {}
    for i, x in enumerate(xs):
        if x > k: out[i] = x
    return list(out.values())
def f73(xs, k, ss):
    a = []
    b = a
    for x in xs: b.append(x)
    return len(a)
def f74(xs, k, ss): return xs < [k]
def f75(xs, k, ss): return ss == sorted(ss)
def f76(xs, k, ss): return [s for s in ss][::2]
def f77(xs, k, ss): return f'{k}' == '2'
def f78(xs, k, ss): return str(k) + 'x'
def f79(xs, k, ss): return bool(xs) is True
def f80(xs, k, ss): return 1 < k <= 3

class Node:
    kind = 'node'
    def __init__(self, v, parent=None, **kw):
        self.v, self.parent = v, parent
        self.kw = kw
    @property
    def depth(self): return 0 if self.parent is None else 1
    def __eq__(self, o): return isinstance(o, Node) and self.v == o.v
    def __len__(self): return self.v
    def __contains__(self, x): return x == self.v
    def __getitem__(self, i):
        if i > self.v: raise IndexError(i)
        return i
    @classmethod
    def make(cls, v): return cls(v, kw=1)
    @staticmethod
    def two(): return 2
class Leaf(Node):
    kind = 'leaf'
    def __init__(self, v): super().__init__(v + 1)
    def __bool__(self): return self.v != 2

def g01(xs, k, ss): return Node(k).v
def g02(xs, k, ss): return Leaf(k).v + Leaf.two()
def g03(xs, k, ss): return [Node(x).v for x in xs]
def g04(xs, k, ss): return len([n for n in [Node(x) for x in xs] if n.v > k]) > 0
def g05(xs, k, ss): return Node(k) == Leaf(k)
def g06(xs, k, ss): return Node(k) != Node(2)
def g07(xs, k, ss): return 'yes' if Leaf(k) else 'no'
def g08(xs, k, ss): return 'yes' if Node(k) else 'no'
def g09(xs, k, ss): return k in Node(2)
def g10(xs, k, ss):
    n = Node(0)
    for x in xs: n = Node(x, n)
    return n.v
def g11(xs, k, ss):
    n = Node(0)
    for x in xs: n.v = x
    return n.v
def g12(xs, k, ss):
    n = Node(0)
    for x in xs:
        if x > k: n.v += 1
    return n.v
def g13(xs, k, ss): return list(Node(k))
def g14(xs, k, ss): return Node.make(k).kw['kw']
def g15(xs, k, ss): return getattr(Node(k), 'w', 5)
def g16(xs, k, ss):
    try: return Node(k).w
    except AttributeError: return 'none'
def g17(xs, k, ss): return hasattr(Node(k), 'v') and Leaf.kind
def g18(xs, k, ss):
    n = Node(k)
    del n.v
    return hasattr(n, 'v')
def g19(xs, k, ss):
    def f(a, b=2, *args, c=3, **kw): return a + b + c + len(args) + len(kw)
    return f(k) + f(1, 1, 1, c=k, d=4)
def g20(xs, k, ss):
    def f(*args): return list(args)
    return f(*xs, k)
def g21(xs, k, ss):
    d = dict(a=1)
    def f(**kw): return list(kw.items())
    return f(**d, b=k)
def g22(xs, k, ss):
    if (y := k + 1) > 3: return y
    return -y
def g23(xs, k, ss):
    def gen():
        yield from xs
        yield k
    return list(gen())
def g24(xs, k, ss):
    try:
        try: raise ValueError('x')
        finally: k += 1
    except ValueError: k += 2
    else: k += 4
    return k
def g25(xs, k, ss):
    try: x = xs[0]
    except IndexError as e: raise KeyError('empty') from e
    else: return x
def g26(xs, k, ss): return 'a/b/c'.split('/')[k % 3]
def g27(xs, k, ss): return 'a~1b'.replace('~1', '/') + ss[0] if ss else ''
def g28(xs, k, ss):
    a, *b = [1] + xs
    return b
def g29(xs, k, ss):
    a, b = (k, 1) if k > 2 else (1, k)
    return a - b
def g30(xs, k, ss): return k is None or k is not None
def g31(xs, k, ss): return [1, 2] == [1, 2.0] and True == 1 and 'a' != 1
def g32(xs, k, ss): return k == 2.0
def g33(xs, k, ss): return (k, 'x') == (2, 'x')
def g34(xs, k, ss):
    d = {'a': 1, 'b': 2, 'c': 3}
    del d['b']
    return list(d) + [len(d)]
def g35(xs, k, ss): return {'a': 1}.keys() <= {'a': 2, 'b': 3}.keys()
def g36(xs, k, ss): return {'a': 1, 'b': k} == {'b': 2, 'a': 1}
def g37(xs, k, ss):
    for x in xs:
        for y in ss:
            if y == 'b': break
        else: return x
    return 'end'
def g38(xs, k, ss):
    i, j = 0, k
    while i < j: i, j = i + 1, j - 1
    return i >= j
def g39(xs, k, ss):
    out = []
    for x in xs:
        if x == k: out = []
        else: out.append(x)
    return len(out) >= 0
def g40(xs, k, ss):
    a = b = 0
    for x in xs:
        if x > k: a = x
        else: b = a
    return b <= 4
def g41(xs, k, ss):
    c = 0
    for i, x in enumerate(xs, start=1): c = i
    return c
def g42(xs, k, ss):
    prev = None
    for x in xs:
        if prev is not None and x < prev: return False
        prev = x
    return True
def g43(xs, k, ss): return all(xs[i] <= xs[i + 1] for i in range(len(xs) - 1))
def g44(xs, k, ss): return [x for x in xs if x in xs[:k]] != 5
def g45(xs, k, ss): return not any(x > k for x in xs) == all(x <= k for x in xs)
def g46(xs, k, ss): return sum(x == k for x in xs) == len([1 for x in xs if x == k])
def g47(xs, k, ss):
    out = []
    for x in xs: out += [x, k]
    return out
def g48(xs, k, ss):
    out = []
    for x in xs:
        if x > k: out.extend([x])
        else: out.insert(0, x)
    return len(out) == len(xs)
def g49(xs, k, ss):
    d = {}
    for i, x in enumerate(xs): d[x] = i
    return d.get(k)
def g50(xs, k, ss):
    d = {}
    for x in xs: d.setdefault(x, []).append(x)
    return k in d
def g51(xs, k, ss):
    keep = list(xs)
    while keep and keep[-1] == k: keep.pop()
    return len(keep) <= len(xs)
def g52(xs, k, ss):
    q = deque(xs)
    if q: q.popleft()
    return list(q)
def g53(xs, k, ss): return [*xs, *xs][len(xs):]
def g54(xs, k, ss): return (lambda a, b=k: a + b)(1)
def g55(xs, k, ss):
    n = 0
    def inc():
        nonlocal n
        n += k
    inc(); inc()
    return n
def g56(xs, k, ss): return xs[min(k, len(xs)):] == xs[k:]
def g57(xs, k, ss): return xs[:k] + xs[k:] == xs
def g58(xs, k, ss): return xs[-1:] == [] or xs[-1] == xs[len(xs) - 1]
def g59(xs, k, ss): return list(map(lambda x: x + 1, xs))
def g60(xs, k, ss): return list(filter(lambda x: x > k, xs))
def g61(xs, k, ss): return int('12') + k if '5'.isdigit() else 0
def g62(xs, k, ss):
    assert k >= 0
    return k // 2, k % 2, -k // 2, k * 2 - 1, abs(-k)
def g63(xs, k, ss): return (k or 5, k and 5, not k)
def g64(xs, k, ss): return [x if x > k else None for x in xs]
def g65(xs, k, ss): return [(i, s) for i, s in enumerate(ss)]
def g66(xs, k, ss):
    try: raise Exc(k)
    except (KeyError, Exc) as e: return e.args[0] if e.args else None
class Exc(Exception): pass
def g67(xs, k, ss):
    out = []
    for x in xs:
        try:
            if x == k: raise Exc()
            out.append(x)
        except Exc: out.append(-1)
    return out
def g68(xs, k, ss):
    x = 0
    for x in xs: pass
    return x
def g69(xs, k, ss): return type(k) is int and type(ss) is not dict and isinstance(ss, (tuple, list))
def g70(xs, k, ss): return dict(zip(ss, xs)).get('a', 7)

def h01(xs, k, ss):
    a, *b = xs
    return (a, len(b), b[:2])
def h02(xs, k, ss):
    *a, b = xs
    return (b, a)
def h03(xs, k, ss):
    a, *m, b = xs
    return (a, b, m)
def h04(xs, k, ss):
    a, b = xs
    return (b, a)
def h05(xs, k, ss):
    try:
        a, b, c = xs
    except ValueError:
        return 'no'
    return a + b + c
def h06(xs, k, ss): return next((x for x in xs if x > k), None)
def h07(xs, k, ss): return next(iter(xs), -1)
def h08(xs, k, ss): return next(x for x in xs if x == k)
def h09(xs, k, ss):
    it = iter([1, 2] + xs)
    return (next(it), next(it), sum(it))
def h10(xs, k, ss): return next((i for i, x in enumerate(xs) if x < k), len(xs))
def h11(xs, k, ss): return next(iter(ss))
def h12(xs, k, ss):
    it = iter(xs)
    a = next(it, 0)
    return (a, list(it))

# ---- slices assigned and deleted, format specifications, operator functions, translate
import operator as _operator
def i01(xs, k, ss): l = list(xs); l[k:k] = [7]; return l
def i02(xs, k, ss): l = list(xs); l[k:] = [7, 8]; return l
def i03(xs, k, ss): l = list(xs); l[1:k] = xs; return l
def i04(xs, k, ss): l = list(xs); del l[k:]; return l
def i05(xs, k, ss): l = list(xs); del l[:k]; return l
def i06(xs, k, ss): l = list(xs); del l[k:1]; return l
def i07(xs, k, ss): return f'{k:+d}' == '+2'
def i08(xs, k, ss): return f'{k:d}{k:+}' if k in (0, 1) else ''
def i09(xs, k, ss): return [x for x in xs if _operator.lt(x, k)]
def i10(xs, k, ss): return _operator.contains(xs, k)
def i11(xs, k, ss): return any(map(_operator.eq, xs, xs))
def i12(xs, k, ss): l = list(xs); l[-2:k] = []; return l
def i13(xs, k, ss): return [s.translate(str.maketrans({'a': 'b', 'b': None})) == 'b' for s in ss if s == 'a']
def i14(xs, k, ss): return _operator.not_(xs)
