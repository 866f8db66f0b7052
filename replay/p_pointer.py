"""Bounded search for P01-P05: JSON pointers and relative JSON pointers."""
import re, string
from . import common
from .gen import G
from .oracle import *
import jschon
from jschon import JSON, JSONPointer, RelativeJSONPointer
from jschon.exc import *
RAW = True
FRAG = set(string.ascii_letters + string.digits + "-._~!$&'()*+,;=:@/?")
ODD = ['\n', '/\n', '/a\n', '~', '/~', '/~2', '/~0', '/~1', '/~01', '/~10', '/~~', '//', '/', 'a', '0', '#', '/~a', ' /', '/ ', '/a/~', '/~0~1', '~0', '/é', '/\ud7ff', '/a\r', '/\u2028', '/\x00', '/~00', '/~11', '/~1~0', '/~０', '/~\n']
RODD = ['0', '1', '01', '00', '0+1', '0-1', '0+0', '0-0', '1+01', '0#', '1#', '0+1#', '0#/', '0##', '1/', '1/a', '-1', '+1', '#', '', '/a', '0a', '1 ', ' 1', '1\n', '0/a\n', '0#\n', '1.0', '0+', '0-', '0+1/a', '2-3/~', '2/~01', '１', '0+１', '10', '10+10#', '0/~2', '1+1+1', '9', '0/', '0-1/0', '²', '0+1\n', '1_0']

class RG(G):
    def rawptr(self):
        x = self.r.random()
        if x < .45: return print_ptr(self.keys())
        if x < .6: return self.pick(ODD)
        s = list(print_ptr(self.keys()) or '/a')
        for _ in range(self.r.randint(1, 2)):
            i = self.r.randint(0, len(s))
            y = self.r.random()
            if y < .5: s.insert(i, self.pick('/~01a\n #-+é'))
            elif y < .8 and s: s.pop(min(i, len(s) - 1))
            elif s: s[min(i, len(s) - 1)] = self.pick('/~01a2')
        return ''.join(s)
    def keys(self, m=4): return [self.pick(['~1', '~0', '~01', '/', '~', '~~', '//', '~/', '/~', '~00', '0~1', '1~']) if self.p(.25) else self.key() for _ in range(self.r.randint(0, m))]
    def rel(self):
        x = self.r.random()
        if x < .3: return self.pick(RODD)
        up = self.pick(['0', '0', '1', '1', '2', '3', '10', '01', '', '-1', '12'])if self.p(.4) else str(self.r.randint(0, 4))
        ov = self.pick(['', '', '+1', '-1', '+2', '-2', '+10', '-12', '+0', '-0', '+01', '+', '-'])
        ref = '#' if self.p(.3) else self.rawptr() if self.p(.4) else print_ptr(self.keys(2))
        return up + ov + ref

def cases(prop, seed, n0):
    g = RG(f'{prop}.{seed}')
    if prop == 'P01':
        for s in ODD: yield dict(s=s)
    if prop == 'P05':
        for s in RODD: yield dict(s=s)
    while True:
        if prop == 'P01':
            yield dict(s=g.rawptr()) if g.p(.5) else dict(keys=g.keys())
        elif prop == 'P02':
            d = g.json(3); yield dict(doc=d, keys=g.path(d, .4), tup=g.p(.1))
        elif prop == 'P03':
            a = g.keys(); b = g.keys() if g.p(.4) else a[:g.r.randint(0, len(a))] + (g.keys(2) if g.p(.6) else [])
            if g.p(.15): b = list(a)
            yield dict(parts=[dict(k=g.pick(['ptr', 'str', 'list', 'tuple', 'gen']), v=g.keys(3)) for _ in range(g.r.randint(0, 4))], a=a, b=b, key=g.key(),
                       sl=[g.pick([None, 0, 1, 2, -1, -2, 5, -7]), g.pick([None, 0, 1, 2, 3, -1, -2, 6]), g.pick([None, None, 1, 2, -1, -2])], i=g.r.randint(-5, 5))
        elif prop == 'P04':
            yield dict(keys=[''.join(g.pick(['%', '"', '#', '[', ']', '^', '`', '{', '|', '}', '<', '>', '\\', ' ', 'é', '\U0001f600', '\x00', '\x7f', '~', '/', '?', ':', '@', '+', '&', "'", '%41', '%2', 'a', '\n', 'ü', '−']) for _ in range(g.r.randint(0, 4))) if g.p(.5) else g.key() for _ in range(g.r.randint(0, 3))], raw=g.rawptr() if g.p(.5) else None)
        else:
            d = g.json(3)
            ks = [k for k in g.path(d, 0)]
            yield g.pick([dict(s=g.rel()), dict(up=g.r.randint(0, 4), over=g.pick([0, 0, 1, -1, 2, -2, 13]), ref=None if g.p(.4) else g.keys(2)),
                          dict(doc=d, node=ks, up=g.r.randint(0, len(ks) + 1), over=g.pick([0, 0, 0, 1, -1, 1, -1, 2, -2, 3, -3, 5]), ref=None if g.p(.4) else g.keys(1) if g.p(.5) else [], rt=g.r.random())])

def outcome(f, *exc):
    try: return ('ok', f())
    except exc as e: return ('exc', type(e))

def check(prop, c):
    return globals()['c_' + prop](c)

def c_P01(c):
    from jschon.formats import validate_json_pointer
    if 'keys' in c:
        ks = c['keys']
        p = JSONPointer(ks)
        s = str(p)
        if s != print_ptr(ks): return f'str(JSONPointer({ks!r})) is {s!r}, not {print_ptr(ks)!r}'
        q = JSONPointer(s)
        if list(q) != ks or not (q == p): return f'pointer with keys {ks!r} prints as {s!r} and is parsed back as keys {list(q)!r}'
        for k in ks:
            if JSONPointer.unescape(JSONPointer.escape(k)) != k: return f'escape/unescape of {k!r}'
        return
    s = c['s']
    try: want = parse_ptr(s)
    except PtrSyntax: want = None
    try: got = list(JSONPointer(s))
    except JSONPointerMalformedError: got = None
    except Exception as e: return f'JSONPointer({s!r}) raises {type(e).__name__}'
    if got != want: return f'JSONPointer({s!r}) gives keys {got!r} (None: rejected), RFC 6901 says {want!r}'
    if want is not None and str(JSONPointer(s)) != s: return f'JSONPointer({s!r}) prints as {str(JSONPointer(s))!r}'
    try: validate_json_pointer(s); f = True
    except ValueError: f = False
    if f != (want is not None): return f'format json-pointer accepts {s!r}: {f}'

def c_P02(c):
    doc, ks = c['doc'], c['keys']
    try: want = ('ok', get(doc, ks))
    except PtrRef: want = ('exc',)
    p = JSONPointer(ks)
    def plain(d):
        try: return ('ok', p.evaluate(d))
        except JSONPointerReferenceError: return ('exc',)
        except Exception as e: return ('raises', type(e).__name__)
    src = totup(doc) if c['tup'] else doc
    got = plain(src)
    if got[0] != want[0] or (got[0] == 'ok' and (got[1] is not get(src, ks))): return f'{ks!r} on {doc!r}: {got!r}, expected {want!r}'
    j = JSON(doc)
    got = plain(j)
    if got[0] != want[0]: return f'{ks!r} on JSON({doc!r}): {got!r}, expected {want!r}'
    if got[0] == 'ok':
        n = got[1]
        if not isinstance(n, JSON) or not same(n.value, want[1]): return f'{ks!r} on JSON({doc!r}) gives {n!r}'
        m = j
        for k in ks: m = m.data[k] if isinstance(m.data, dict) else m.data[int(k)]
        if m is not n: return f'{ks!r} on JSON({doc!r}) gives another node with the same value'

def totup(v):
    if isinstance(v, list): return tuple(totup(x) for x in v)
    if isinstance(v, dict): return {k: totup(x) for k, x in v.items()}
    return v

def c_P03(c):
    parts, want = [], []
    for q in c['parts']:
        v = q['v']; want += v
        parts.append({'ptr': lambda: JSONPointer(v), 'str': lambda: print_ptr(v), 'list': lambda: list(v), 'tuple': lambda: tuple(v), 'gen': lambda: (x for x in v)}[q['k']]())
    before = [list(x) for x in parts if isinstance(x, (JSONPointer, list))]
    p = JSONPointer(*parts)
    if list(p) != want or len(p) != len(want): return f'JSONPointer(*{c["parts"]!r}) has keys {list(p)!r}'
    if [list(x) for x in parts if isinstance(x, (JSONPointer, list))] != before: return 'construction changes its arguments'
    a, b, key = c['a'], c['b'], c['key']
    A, Bp = JSONPointer(a), JSONPointer(b)
    for x, w in ((lambda: A / key, a + [key]), (lambda: A / b, a + b), (lambda: A / Bp, a + b), (lambda: A / tuple(b), a + b), (lambda: A / (k for k in b), a + b), (lambda: JSONPointer(A), a), (lambda: JSONPointer(A, Bp), a + b)):
        r = x()
        if not isinstance(r, JSONPointer) or list(r) != w: return f'pointer of {a!r} extended with {key!r} or {b!r} gives {list(r)!r}'
        if list(A) != a or list(Bp) != b: return f'extension of {a!r} with {b!r} changed an operand: {list(A)!r} {list(Bp)!r}'
    L = list(a); A2 = JSONPointer(L); L.append('zz')
    if list(A2) != a: return 'a pointer changes with the list it was built from'
    x = JSONPointer(A, ['q']); 
    if list(A) != a: return 'construction changes a pointer argument'
    if (A == Bp) != (a == b) or (A != Bp) != (a != b): return f'{a!r} == {b!r}: {A == Bp}'
    if a == b and hash(A) != hash(Bp): return f'hashes of equal pointers {a!r} differ'
    if hash(A) != hash(JSONPointer(list(a))): return 'hash of equal pointers'
    pre = lambda s, t: t[:len(s)] == s
    for op, got, w in (('<=', A <= Bp, pre(a, b)), ('<', A < Bp, pre(a, b) and a != b), ('>=', A >= Bp, pre(b, a)), ('>', A > Bp, pre(b, a) and a != b)):
        if got is not w: return f'{a!r} {op} {b!r} is {got!r}'
    if list(A) != a or list(Bp) != b: return 'comparison changed an operand'
    i = c['i']
    g = outcome(lambda: A[i], IndexError); w = outcome(lambda: a[i], IndexError)
    if g != w: return f'pointer {a!r}[{i}] is {g!r}'
    sl = slice(*c['sl'])
    r = A[sl]
    if not isinstance(r, JSONPointer) or list(r) != a[sl] or list(A) != a: return f'pointer {a!r}[{sl}] is {r!r}'
    if bool(A) != bool(a): return 'truth'
    if [k for k in A] != a or list(reversed(A)) != a[::-1] or (key in A) != (key in a): return 'sequence protocol'
    if a and A.index(a[-1]) != a.index(a[-1]): return 'index'
    if A == list(a) or A == print_ptr(a): return 'pointer equals something that is not a pointer'

def c_P04(c):
    ks = c['keys']
    p = JSONPointer(ks)
    f = p.uri_fragment()
    if not isinstance(f, str) or not re.fullmatch(r'(?:[A-Za-z0-9\-._~!$&\'()*+,;=:@/?]|%[0-9A-Fa-f]{2})*', f): return f'fragment of {ks!r} is {f!r}'
    if unquote(f, errors='strict') != print_ptr(ks): return f'fragment {f!r} of {ks!r} does not decode to {print_ptr(ks)!r}'
    q = JSONPointer.parse_uri_fragment(f)
    if list(q) != ks or q != p: return f'fragment {f!r} of {ks!r} is decoded as {list(q)!r}'
    if c['raw'] is not None:
        s = c['raw']
        for frag in (quote(s), quote(s, safe='/~'), s if '%' not in s else quote(s), ''.join('%%%02X' % b for b in s.encode())):
            try: want = parse_ptr(s)
            except PtrSyntax: want = None
            try: got = list(JSONPointer.parse_uri_fragment(frag))
            except JSONPointerMalformedError: got = None
            if got != want: return f'parse_uri_fragment({frag!r}) gives {got!r}, expected {want!r}'

RELRE = re.compile(r'(0|[1-9][0-9]*)([+-][1-9][0-9]*)?(#|(?:/(?:[^~/]|~[01])*)*)', re.S | re.A)
def c_P05(c):
    if 's' in c:
        s = c['s']
        m = RELRE.fullmatch(s)
        try: r = RelativeJSONPointer(s)
        except RelativeJSONPointerMalformedError: r = None
        if (r is None) != (m is None): return f'RelativeJSONPointer({s!r}) ' + ('rejected' if m else 'accepted')
        if r is None: return
        if str(r) != s: return f'RelativeJSONPointer({s!r}) prints as {str(r)!r}'
        if r != RelativeJSONPointer(s) or hash(r) != hash(RelativeJSONPointer(s)): return f'{s!r} is not equal to itself'
        up, over, ref = int(m[1]), int(m[2] or 0), '#' if m[3] == '#' else JSONPointer(parse_ptr(m[3]))
        t = RelativeJSONPointer(up=up, over=over, ref=ref)
        if not (r == t) or hash(r) != hash(t) or str(t) != s: return f'{s!r} parsed and built from components ({up}, {over}, {ref}) differ: {str(t)!r}, equal {r == t}'
        return
    up, over, ref = c['up'], c['over'], '#' if c['ref'] is None else JSONPointer(c['ref'])
    t = RelativeJSONPointer(up=up, over=over, ref=ref)
    txt = f'{up}' + (f'{over:+d}' if over else '') + ('#' if c['ref'] is None else print_ptr(c['ref']))
    if str(t) != txt: return f'components {up}, {over}, {c["ref"]!r} print as {str(t)!r}, not {txt!r}'
    r = RelativeJSONPointer(txt)
    if r != t or not (r == t) or hash(r) != hash(t) or str(r) != txt: return f'{txt!r} differs from its components'
    for o in (RelativeJSONPointer(up=up + 1, over=over, ref=ref), RelativeJSONPointer(up=up, over=over + 1, ref=ref), RelativeJSONPointer(up=up, over=over, ref=JSONPointer(['x']) if ref == '#' else '#'), RelativeJSONPointer(up=up, over=over, ref=JSONPointer(['x', 'y', 'z', 'w']))):
        if o == t: return f'{str(o)!r} equals {txt!r}'
    if 'doc' not in c: return
    doc, ks = c['doc'], c['node']
    j = JSON(doc); n = j
    for k in ks: n = n[k] if n.type == 'object' else n[int(k)]
    def spec():
        path = list(ks)
        for _ in range(up):
            if not path: return ('exc',)
            path.pop()
        if over:
            if not path or not isinstance(get(doc, path[:-1]), list): return ('exc',)
            a = int(path[-1]) + over
            if not 0 <= a < len(get(doc, path[:-1])): return ('exc',)
            path[-1] = str(a)
        if c['ref'] is None:
            if not path: return ('exc',)
            return ('ok', int(path[-1])) if isinstance(get(doc, path[:-1]), list) else ('ok', path[-1])
        try: get(doc, path + c['ref'])
        except PtrRef: return ('exc',)
        return ('node', path + c['ref'])
    w = spec()
    for rp in (t, r):
        try: g = rp.evaluate(n)
        except RelativeJSONPointerReferenceError:
            if w[0] != 'exc': return f'{txt!r} at {ks!r} of {doc!r} raises, expected {w!r}'
            continue
        except Exception as e: return f'{txt!r} at {ks!r} of {doc!r} raises {type(e).__name__}'
        if w[0] == 'exc': return f'{txt!r} at {ks!r} of {doc!r} gives {g!r}, expected the reference error'
        if w[0] == 'ok':
            if type(g) is not type(w[1]) or g != w[1]: return f'{txt!r} at {ks!r} of {doc!r} gives {g!r}, expected {w[1]!r}'
        else:
            m = j
            for k in w[1]: m = m.data[k] if isinstance(m.data, dict) else m.data[int(k)]
            if g is not m: return f'{txt!r} at {ks!r} of {doc!r} gives {g!r}, expected the node at {w[1]!r}'
