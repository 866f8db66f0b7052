"""Decision procedures for the text-level obligations (back end "automata"):
regular languages (from the live compiled regular expressions of the code) and
chains of constant string replacements.  All answers are exact for every
string; a negative answer comes with a witness string."""
import re, string
try: import re._parser as sre
except ImportError: import sre_parse as sre
from .core import Undecided

MAXC = 0x10FFFF
class LangUndecided(Undecided): pass

# ------------------------------------------------------------- character sets
def norm_set(iv):
    iv = sorted(iv); out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(b, out[-1][1]))
        else: out.append((a, b))
    return tuple(out)
def neg_set(iv):
    out, p = [], 0
    for a, b in norm_set(iv):
        if a > p: out.append((p, a - 1))
        p = b + 1
    if p <= MAXC: out.append((p, MAXC))
    return tuple(out)
ALLC = ((0, MAXC),)
_cat = {}
def category(name, flags):
    k = (name, bool(flags & re.ASCII))
    if k not in _cat:
        pat = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D', 'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_SPACE': r'\S', 'CATEGORY_WORD': r'\w', 'CATEGORY_NOT_WORD': r'\W'}[name]
        r = re.compile(pat, re.ASCII if k[1] else 0)
        _cat[k] = norm_set([(c, c) for c in range(MAXC + 1) if r.match(chr(c))])
    return _cat[k]

# ------------------------------------------------------------- NFA
class NFA:
    def __init__(self): self.n = 0; self.eps = {}; self.tr = {}; self.mark = {}
    def new(self): self.n += 1; return self.n - 1
    def e(self, a, b, mark=None): self.eps.setdefault(a, []).append((b, mark))
    def t(self, a, cs, b): self.tr.setdefault(a, []).append((cs, b))

def fold(cs, flags):
    if not flags & re.IGNORECASE: return cs
    raise LangUndecided('case-insensitive pattern')

def build(nfa, items, flags, groups):
    """-> (start, end)"""
    s = cur = nfa.new()
    items = list(items)
    for k, (op, av) in enumerate(items):
        op = str(op)
        nxt = nfa.new()
        if op == 'LITERAL': nfa.t(cur, fold(((av, av),), flags), nxt)
        elif op == 'NOT_LITERAL': nfa.t(cur, fold(neg_set([(av, av)]), flags), nxt)
        elif op == 'ANY': nfa.t(cur, ALLC if flags & re.DOTALL else neg_set([(10, 10)]), nxt)
        elif op == 'IN':
            cs, neg = [], False
            for o, a in av:
                o = str(o)
                if o == 'NEGATE': neg = True
                elif o == 'LITERAL': cs.append((a, a))
                elif o == 'RANGE': cs.append(tuple(a))
                elif o == 'CATEGORY': cs += list(category(str(a), flags))
                else: raise LangUndecided(f'regular expression element {o}')
            cs = norm_set(cs)
            nfa.t(cur, fold(neg_set(cs) if neg else cs, flags), nxt)
        elif op == 'CATEGORY': nfa.t(cur, category(str(av), flags), nxt)
        elif op == 'BRANCH':
            for alt in av[1]:
                a, b = build(nfa, alt, flags, groups)
                nfa.e(cur, a); nfa.e(b, nxt)
        elif op == 'SUBPATTERN':
            g, add, rem, sub = av
            a, b = build(nfa, sub, (flags | add) & ~rem, groups)
            nfa.e(cur, a, ('(', g) if g is not None else None); nfa.e(b, nxt, (')', g) if g is not None else None)
        elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            if lo > 60: raise LangUndecided('large repeat')
            x = cur
            for _ in range(lo):
                a, b = build(nfa, sub, flags, groups); nfa.e(x, a); x = b
            if str(hi) == 'MAXREPEAT':
                a, b = build(nfa, sub, flags, groups)
                y = nfa.new()
                nfa.e(x, y); nfa.e(y, a); nfa.e(b, y); nfa.e(y, nxt)
            else:
                if hi > 60: raise LangUndecided('large repeat')
                nfa.e(x, nxt)
                for _ in range(hi - lo):
                    a, b = build(nfa, sub, flags, groups); nfa.e(x, a); x = b; nfa.e(x, nxt)
        elif op == 'AT':
            w = str(av)
            if w in ('AT_BEGINNING', 'AT_BEGINNING_STRING') and k == 0 and not flags & re.MULTILINE: nfa.e(cur, nxt)
            elif w == 'AT_END_STRING' and k == len(items) - 1: nfa.e(cur, nxt)
            elif w == 'AT_END' and k == len(items) - 1 and not flags & re.MULTILINE: nfa.e(cur, nxt); nfa.t(cur, ((10, 10),), nxt); raise LangUndecided('$ anchor')
            else: raise LangUndecided(f'anchor {w}')
        else: raise LangUndecided(f'regular expression element {op}')
        cur = nxt
    return s, cur

# ------------------------------------------------------------- DFA
class DFA:
    """complete DFA over the atomic character classes `parts` (tuple of interval tuples)"""
    def __init__(self, start, acc, delta, parts):
        self.start, self.acc, self.delta, self.parts = start, acc, delta, parts
    def cls(self, ch):
        c = ord(ch)
        for i, iv in enumerate(self.parts):
            if any(a <= c <= b for a, b in iv): return i
    def step(self, q, ch): return self.delta[q][self.cls(ch)]
    def accepts(self, w):
        q = self.start
        for ch in w: q = self.step(q, ch)
        return q in self.acc

def atoms(sets, extra=()):
    """partition of all characters: boundaries of all sets; characters in
    `extra` become singletons"""
    cuts = {0, MAXC + 1}
    for cs in sets:
        for a, b in cs: cuts.add(a); cuts.add(b + 1)
    for ch in extra: cuts.add(ord(ch)); cuts.add(ord(ch) + 1)
    cuts = sorted(cuts)
    iv = list(zip(cuts, [c - 1 for c in cuts[1:]]))
    sig = {}
    ex = {ord(c) for c in extra}
    for a, b in iv:
        if a > MAXC: continue
        k = (tuple(any(x <= a <= y for x, y in cs) for cs in sets), a if (a == b and a in ex) else None)
        sig.setdefault(k, []).append((a, b))
    return [tuple(v) for v in sig.values()]

def to_nfa(pattern, flags=0):
    p = sre.parse(pattern, flags)
    nfa = NFA()
    groups = {}
    s, e = build(nfa, p, p.state.flags, groups)
    return nfa, s, e, dict(p.state.groupdict)

def closure(nfa, qs):
    st, seen = list(qs), set(qs)
    while st:
        q = st.pop()
        for b, _ in nfa.eps.get(q, ()):
            if b not in seen: seen.add(b); st.append(b)
    return frozenset(seen)

def determinize(nfa, s, e, parts):
    start = closure(nfa, [s])
    ids = {start: 0}; order = [start]; delta = []; i = 0
    while i < len(order):
        q = order[i]; row = []
        for iv in parts:
            c = iv[0][0]
            nx = {b for x in q for cs, b in nfa.tr.get(x, ()) if any(l <= c <= h for l, h in cs)}
            t = closure(nfa, nx)
            if t not in ids: ids[t] = len(order); order.append(t)
            row.append(ids[t])
        delta.append(row); i += 1
        if i > 3000: raise LangUndecided('automaton too large')
    return DFA(0, {i for i, q in enumerate(order) if e in q}, delta, parts)

def sets_of(nfa): return [cs for l in nfa.tr.values() for cs, _ in l]

def compare(p1, f1, p2, f2=0):
    """None when the two patterns (full match) denote the same language, else
    (witness, accepted by first)"""
    n1, n2 = to_nfa(p1, f1), to_nfa(p2, f2)
    parts = atoms(sets_of(n1[0]) + sets_of(n2[0]))
    return compare_dfa(determinize(*n1[:3], parts), determinize(*n2[:3], parts))

def compare_dfa(a, b):
    parts = a.parts
    seen = {(a.start, b.start): ''}
    todo = [(a.start, b.start)]
    while todo:
        q = todo.pop(0)
        if (q[0] in a.acc) != (q[1] in b.acc): return seen[q], q[0] in a.acc
        for i, iv in enumerate(parts):
            t = (a.delta[q[0]][i], b.delta[q[1]][i])
            if t not in seen: seen[t] = seen[q] + show(iv); todo.append(t)
    return None

def show(iv):
    for a, b in iv:
        for c in (97, 48, 49, 47):
            if a <= c <= b: return chr(c)
    return chr(iv[0][0])

def dfa(pattern, extra=(), flags=0, more=()):
    n = to_nfa(pattern, flags)
    return determinize(*n[:3], atoms(sets_of(n[0]) + list(more), extra))

def capture_unambiguous(pattern, flags, names):
    """every accepted string has exactly one parse with respect to the
    boundaries of the named groups"""
    nfa, s, e, gd = to_nfa(pattern, flags)
    ids = {gd[n] for n in names}
    parts = atoms(sets_of(nfa))
    # configurations: sets of (state, marks since last char) explored pairwise
    def steps(q):
        """all (q', marks) reachable by eps, marks = ordered tuple of relevant marks"""
        out, st = set(), [(q, ())]
        seen = {(q, ())}
        while st:
            x = st.pop(); out.add(x)
            for b, m in nfa.eps.get(x[0], ()):
                y = (b, x[1] + ((m,) if m is not None and m[1] in ids else ()))
                if len(y[1]) > 12: raise LangUndecided('captures')
                if y not in seen: seen.add(y); st.append(y)
        return out
    seen, todo = set(), [(s, s, False)]
    while todo:
        a, b, d = todo.pop()
        if (a, b, d) in seen: continue
        seen.add((a, b, d))
        A, B = steps(a), steps(b)
        for x, mx in A:
            for y, my in B:
                dd = d or mx != my
                if x == e and y == e and dd: return False
                for cs, x2 in nfa.tr.get(x, ()):
                    for cs2, y2 in nfa.tr.get(y, ()):
                        if any(l1 <= h2 and l2 <= h1 for l1, h1 in cs for l2, h2 in cs2): todo.append((x2, y2, dd))
    return True

# ------------------------------------------------------------- transducers
class Replace:
    """str.replace(a, b) with constant non-empty a"""
    def __init__(self, a, b): self.a, self.b = a, b
    start = ''
    def step(self, q, ch):
        out = ''
        w = q + ch
        if w == self.a: return '', self.b
        while w and not self.a.startswith(w):
            out += w[0]; w = w[1:]
        return w, out
    def final(self, q): return q
class Hom:
    """character-wise substitution"""
    def __init__(self, m): self.m = m
    start = 0
    def step(self, q, ch): return 0, self.m.get(ch, ch)
    def final(self, q): return ''
class Unescape:
    """reference: RFC 6901 section 4 decoding of a well-formed token"""
    start = 0
    def step(self, q, ch):
        if q == 0: return (1, '') if ch == '~' else (0, ch)
        return 0, {'0': '~', '1': '/'}.get(ch, '~' + ch)
    def final(self, q): return '~' if q else ''

def run_step(chain, qs, ch):
    """feed one character through the composition; returns (states, output)"""
    buf = ch; out = []
    for m, q in zip(chain, qs):
        o = ''
        for c in buf:
            q, x = m.step(q, c); o += x
        out.append(q); buf = o
    return tuple(out), buf
def run_final(chain, qs):
    buf = ''
    for m, q in zip(chain, qs):
        o = ''
        for c in buf:
            q, x = m.step(q, c); o += x
        buf = o + m.final(q)
    return buf
def start_of(chain): return tuple(m.start for m in chain)
def consts(chain):
    s = set()
    for m in chain:
        if isinstance(m, Replace): s |= set(m.a) | set(m.b)
        elif isinstance(m, Hom): s |= set(m.m) | set(''.join(m.m.values()))
        else: s |= set('~01/')
    return s
def reps_of(parts, extra):
    reps = []
    ex = {ord(c) for c in extra}
    for iv in parts:
        n = 0
        for a, b in iv:
            for c in range(a, min(b, a + 3) + 1):
                if n < 2: reps.append(chr(c)); n += 1
    return reps

def equal(f, g, domain, extra=''):
    """f(x) == g(x) for all x in the domain (a pattern); None or a witness"""
    ex = consts(f) | consts(g) | set(extra)
    d = dfa(domain, ex)
    reps = reps_of(d.parts, ex)
    # states from which the domain is reachable
    live = set(d.acc); ch = True
    while ch:
        ch = False
        for q, row in enumerate(d.delta):
            if q not in live and any(t in live for t in row): live.add(q); ch = True
    st = (d.start, start_of(f), start_of(g), '', '')
    seen = {st: ''}; todo = [st]
    bad = None
    while todo:
        s = todo.pop(0)
        q, a, b, ra, rb = s
        if q in d.acc and ra + run_final(f, a) != rb + run_final(g, b): return seen[s]
        for c in reps:
            q2 = d.step(q, c)
            if q2 not in live: continue
            a2, oa = run_step(f, a, c); b2, ob = run_step(g, b, c)
            x, y = ra + oa, rb + ob
            i = 0
            while i < len(x) and i < len(y) and x[i] == y[i]: i += 1
            x, y = x[i:], y[i:]
            w = seen[s] + c
            if x and y:
                # outputs differ for good: complete the word
                return complete(d, q2, w, reps, live)
            if max(len(x), len(y)) > 12: return complete(d, q2, w, reps, live) if False else _undec()
            t = (q2, a2, b2, x, y)
            if t not in seen: seen[t] = w; todo.append(t)
            if len(seen) > 200000: raise LangUndecided('transducer product too large')
    return None
def _undec(): raise LangUndecided('unbounded delay between two string transformations')

def complete(d, q, w, reps, live):
    seen = {q: w}; todo = [q]
    while todo:
        q = todo.pop(0)
        if q in d.acc: return seen[q]
        for c in reps:
            t = d.step(q, c)
            if t in live and t not in seen: seen[t] = seen[q] + c; todo.append(t)
    return w

def image_in(f, domain, target):
    """f(x) in target for all x in domain; None or a witness"""
    ex = consts(f)
    n2 = to_nfa(target)
    d = dfa(domain, ex, more=sets_of(n2[0]))
    n1 = to_nfa(domain)
    t = dfa(target, ex, more=sets_of(n1[0]))
    reps = reps_of(d.parts, ex)
    st = (d.start, start_of(f), t.start)
    seen = {st: ''}; todo = [st]
    while todo:
        s = todo.pop(0)
        q, a, r = s
        if q in d.acc:
            r2 = r
            for c in run_final(f, a): r2 = t.step(r2, c)
            if r2 not in t.acc: return seen[s]
        for c in reps:
            a2, o = run_step(f, a, c)
            r2 = r
            for x in o: r2 = t.step(r2, x)
            n = (d.step(q, c), a2, r2)
            if n not in seen: seen[n] = seen[s] + c; todo.append(n)
    return None

# ------------------------------------------------------------- specifications
TOKEN = r'(?:[^~/]|~[01])*'
ANY = r'(?s:.)*'
POINTER = r'(?:/(?:[^~/]|~[01])*)*'          # RFC 6901 section 3
NONNEG = r'(?:0|[1-9][0-9]*)'                # array-index / non-negative-integer
OVER = r'(?:[+-][1-9][0-9]*)?'
RELATIVE = NONNEG + OVER + r'(?:#|' + POINTER + ')'
ESCAPE = [Hom({'~': '~0', '/': '~1'})]
UNESCAPE = [Unescape()]
