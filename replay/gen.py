"""Random inputs, biased to boundary values and to constants found in the
source of the code under test."""
import ast, os, glob, random
from .oracle import jt

KEYS = ['a', 'b', 'c', 'foo', '', '0', '1', '2', '10', '01', '-', '-1', '+1', 'a/b', '~', '~1', '~0', 'm~n', ' ', 'é', '\U0001f600', 'a b', '%25', 'c%d', '"', '\\', 'i^j', 'k"l', '//', '1.0', '１', '²']
NUMS = [0, 1, -1, 2, 3, 4, 5, 10, 100, 0.0, 1.0, -0.0, 2.0, 0.5, 1.5, -1.5, 0.1, 0.2, 0.3, 0.01, 1e16, 1e-7, 1e300, 10**20, 10**30 + 1, 2**53, 2**53 + 1, -10**25, 3.0, 1e22, 12.5, 7, 21]
STRS = ['', 'a', 'b', 'ab', 'abc', 'foo', 'bar', 'é', '\U0001f600', '\U0001f600a', 'a\nb', '0', '1', 'true', 'null', 'x' * 10, 'a/b', 'e\u0301', '\ud7ff', '~', 'A']

def mined(root='/repo/jschon'):
    ints, strs = set(), set()
    for f in glob.glob(root + '/**/*.py', recursive=True):
        try: tree = ast.parse(open(f).read())
        except Exception: continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, (int, float)) and not isinstance(n.value, bool): ints.add(n.value)
                elif isinstance(n.value, str) and len(n.value) <= 12: strs.add(n.value)
    return sorted(ints, key=abs), sorted(strs)
MI, MS = mined()

class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
    def pick(self, l): return self.r.choice(l)
    def p(self, x): return self.r.random() < x
    def key(self):
        x = self.r.random()
        if x < .55: return self.pick(KEYS[:9])
        if x < .9: return self.pick(KEYS)
        if x < .95: return self.pick(MS) if MS else 'a'
        return ''.join(self.pick('ab/~01%é-') for _ in range(self.r.randint(0, 4)))
    def num(self):
        x = self.r.random()
        if x < .6: return self.pick(NUMS[:12])
        if x < .85: return self.pick(NUMS)
        if x < .9 and MI: return self.pick(MI) + self.pick([0, 0, 1, -1])
        if x < .95: return self.r.randint(-30, 30)
        return round(self.r.uniform(-50, 50), self.r.randint(0, 3))
    def str(self):
        x = self.r.random()
        if x < .7: return self.pick(STRS)
        if x < .8 and MS: return self.pick(MS)
        return ''.join(self.pick('abé0 ~/') for _ in range(self.r.randint(0, 6)))
    def scalar(self):
        return self.pick([lambda: None, lambda: True, lambda: False, self.num, self.num, self.str, self.str])()
    def size(self):
        x = self.r.random()
        if x < .97: return self.r.randint(0, 4)
        return self.r.randint(5, 14)
    def json(self, d=2):
        if d <= 0 or self.p(.35): return self.scalar()
        if self.p(.5): return [self.json(d - 1) for _ in range(self.size())]
        return {self.key(): self.json(d - 1) for _ in range(self.size())}
    def container(self, d=2):
        for _ in range(20):
            v = self.json(d)
            if isinstance(v, (list, dict)): return v
        return {}
    def variant(self, v):
        """a value close to v: equal, reordered, or slightly changed"""
        if self.p(.15): return self.json(1)
        if isinstance(v, bool): return self.pick([v, v, not v, int(v)])
        if isinstance(v, (int, float)):
            try: return self.pick([v, float(v), v + 1, -v, str(v), v, bool(v)])
            except OverflowError: return v
        if isinstance(v, str): return self.pick([v, v, v + 'x', v.upper()])
        if isinstance(v, list):
            out = [self.variant(x) if self.p(.3) else x for x in v]
            if self.p(.15): out = out[::-1]
            if self.p(.15): out = out + [self.scalar()]
            if self.p(.15) and out: out = out[:-1]
            return out
        if isinstance(v, dict):
            it = [(k, self.variant(x) if self.p(.3) else x) for k, x in v.items()]
            if self.p(.5): self.r.shuffle(it)
            if self.p(.15): it.append((self.key(), self.scalar()))
            if self.p(.15) and it: it.pop()
            return dict(it)
        return self.pick([v, v, False, 0])
    def path(self, doc, extra=.3):
        """key sequence: mostly leading to a value, sometimes just beyond"""
        ks = []
        while isinstance(doc, (list, dict)) and len(doc) and self.p(.75):
            if isinstance(doc, dict):
                k = self.pick(list(doc)); doc = doc[k]
            else:
                i = self.r.randrange(len(doc)); k = str(i); doc = doc[i]
            ks.append(k)
        if self.p(extra):
            if isinstance(doc, list):
                ks.append(self.pick([str(len(doc)), str(len(doc)), '-', str(len(doc) + 1), '-1', '01', '00', '', '+0', ' 0', '0 ', '1_0', '0x0', '１', '²', '1.0', 'a', '-0', '0\n', str(10**19), str(max(0, len(doc) - 1)), '0_0']))
            else:
                ks.append(self.key())
            if self.p(.2): ks.append(self.key())
        return ks
    def subset(self, l): return [x for x in l if self.p(.5)]

# ---------------------------------------------------------------- schemas
PN = ['a', 'b', 'c', 'foo', 'a/b', '~', 'é', '0']
RX = ['a', '^a', 'b$', '^.$', '.', 'o+', '^foo$', '[0-9]', 'é', '^$']
class SG(G):
    """schemas and instances over a small shared alphabet"""
    def __init__(self, seed, dialect='20', focus=None):
        super().__init__(seed); self.dialect = dialect; self.focus = focus or []
    def inst(self, d=2):
        x = self.r.random()
        if d <= 0 or x < .25:
            return self.pick([None, True, False, 0, 1, 2, 3, 1.0, 1.5, -1, 'a', 'b', 'foo', '', 'é', 'ab', 5, 10, 0.3, 3.0])
        if x < .6:
            n = self.r.randint(0, 4)
            l = [self.inst(d - 1) for _ in range(n)]
            if l and self.p(.2): l.append(self.variant(self.pick(l)))
            return l
        return {self.pick(PN): self.inst(d - 1) for _ in range(self.r.randint(0, 4))}
    def val(self): return self.inst(self.r.randint(0, 2))
    def small(self): return self.pick([0, 1, 1, 2, 2, 3, 4, self.r.randint(0, 12)])
    def number(self): return self.pick([0, 1, 2, 3, -1, 1.5, 0.5, 1.0, 0.1, 0.3, 10, 2.0, 10**20]) if self.p(.9) else self.num()
    def types(self): return ['null', 'boolean', 'number', 'integer', 'string', 'array', 'object']
    def schema(self, d=2, typ=None):
        if d <= 0 or self.p(.12): return self.pick([True, False, True, {}, {'type': self.pick(self.types())}, {'const': self.val()}, {'minimum': 1}, {'title': 't'}])
        s = {}
        pool = self.kwpool()
        for _ in range(self.pick([1, 1, 2, 2, 3, 4])):
            k = self.pick(self.focus) if self.focus and self.p(.5) else self.pick(pool)
            self.addkw(s, k, d - 1)
        if self.p(.25):
            it = list(s.items()); self.r.shuffle(it); s = dict(it)
        return s
    def kwpool(self):
        base = ['type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern',
                'maxItems', 'minItems', 'uniqueItems', 'contains', 'contains+', 'maxProperties', 'minProperties', 'required', 'dependentRequired',
                'allOf', 'anyOf', 'oneOf', 'not', 'if', 'dependentSchemas', 'properties', 'patternProperties', 'additionalProperties', 'propertyNames',
                'items', 'items+', 'unevaluatedItems', 'unevaluatedProperties', 'title', 'default', 'content', 'unknown', 'properties', 'allOf', 'anyOf', 'if']
        return base + (['prefixItems'] if self.dialect == '20' else ['additionalItems'])
    def addkw(self, s, k, d):
        S = lambda: self.schema(d)
        if k == 'type': s[k] = self.pick(self.types()) if self.p(.6) else (self.r.sample(self.types(), self.r.randint(1, 3)))
        elif k == 'enum': s[k] = [self.val() for _ in range(self.r.randint(1, 4))]
        elif k in ('const', 'default'): s[k] = self.val()
        elif k == 'title': s[k] = 't' + str(self.r.randint(0, 9))
        elif k == 'multipleOf': s[k] = self.pick([1, 2, 3, 0.5, 0.1, 0.01, 1.5, 1e-7, 10**10, 2.0, 7])
        elif k in ('maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'): s[k] = self.number()
        elif k in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties'): s[k] = self.small()
        elif k == 'pattern': s[k] = self.pick(RX)
        elif k == 'uniqueItems': s[k] = self.p(.85)
        elif k == 'contains': s[k] = S()
        elif k == 'contains+':
            s['contains'] = S()
            if self.p(.6): s['minContains'] = self.small()
            if self.p(.6): s['maxContains'] = self.small()
        elif k == 'required': s[k] = self.r.sample(PN, self.r.randint(0, 3))
        elif k == 'dependentRequired': s[k] = {self.pick(PN): self.r.sample(PN, self.r.randint(0, 3)) for _ in range(self.r.randint(1, 2))}
        elif k in ('allOf', 'anyOf', 'oneOf', 'prefixItems'): s[k] = [S() for _ in range(self.r.randint(1, 3))]
        elif k in ('not', 'additionalProperties', 'propertyNames', 'unevaluatedItems', 'unevaluatedProperties', 'additionalItems'): s[k] = S() if self.p(.6) else self.pick([True, False])
        elif k == 'if':
            s['if'] = S()
            if self.p(.7): s['then'] = S()
            if self.p(.7): s['else'] = S()
            if self.p(.1): del s['if']
        elif k == 'dependentSchemas': s[k] = {self.pick(PN): S() for _ in range(self.r.randint(1, 2))}
        elif k == 'properties': s[k] = {self.pick(PN): S() for _ in range(self.r.randint(1, 3))}
        elif k == 'patternProperties': s[k] = {self.pick(RX): S() for _ in range(self.r.randint(1, 2))}
        elif k == 'items' or k == 'items+':
            if self.dialect == '20':
                s['items'] = S()
                if k == 'items+': s['prefixItems'] = [S() for _ in range(self.r.randint(1, 3))]
            elif k == 'items+' or self.p(.4):
                s['items'] = [S() for _ in range(self.r.randint(1, 3))]
                if self.p(.6): s['additionalItems'] = S()
            else: s['items'] = S()
        elif k == 'content':
            if self.p(.6): s['contentMediaType'] = 'application/json'
            if self.p(.5): s['contentSchema'] = {'type': 'string'}
            if self.p(.3): s['contentEncoding'] = 'base64'
        elif k == 'unknown': s[self.pick(['x-foo', 'definitions', 'foo', 'Type'])] = self.val()
    def instance_for(self, s, d=3):
        """an instance that tends to satisfy / just violate the schema"""
        if not isinstance(s, dict) or self.p(.2) or d <= 0: return self.val()
        if 'const' in s and self.p(.5): return self.variant(s['const'])
        if 'enum' in s and self.p(.5): return self.variant(self.pick(s['enum']))
        for k in ('maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum'):
            if k in s and self.p(.5): return s[k] + self.pick([0, 1, -1, 0.5, -0.5, 0])
        if 'multipleOf' in s and self.p(.6):
            return self.pick([s['multipleOf'] * self.r.randint(-3, 20), self.number(), round(s['multipleOf'] * 3, 9)])
        for k in ('maxLength', 'minLength'):
            if k in s and self.p(.5): return self.pick('aé\U0001f600') * max(0, s[k] + self.pick([0, 1, -1]))
        arr = [k for k in s if k in ('prefixItems', 'items', 'contains', 'additionalItems', 'unevaluatedItems', 'maxItems', 'minItems', 'uniqueItems')]
        obj = [k for k in s if k in ('properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties', 'required', 'dependentRequired', 'dependentSchemas', 'maxProperties', 'minProperties', 'propertyNames')]
        if arr and (not obj or self.p(.5)):
            pre = s.get('prefixItems') or (s['items'] if isinstance(s.get('items'), list) else [])
            subs = [x for x in (s.get('items'), s.get('contains'), s.get('unevaluatedItems'), s.get('additionalItems')) if isinstance(x, dict)]
            n = self.pick([0, 1, 2, 3, 4])
            for k in ('maxItems', 'minItems', 'maxContains', 'minContains'):
                if k in s and self.p(.5): n = max(0, s[k] + self.pick([-1, 0, 1]))
            out = [self.instance_for(x, d - 1) for x in pre[:n]]
            while len(out) < n: out.append(self.instance_for(self.pick(subs), d - 1) if subs and self.p(.7) else self.val())
            if s.get('uniqueItems') and out and self.p(.3): out[-1] = self.variant(out[0])
            return out
        if obj:
            ps = {}
            for c in [s] + [x for kk in ('allOf', 'anyOf', 'oneOf') for x in s.get(kk, []) if isinstance(x, dict)]:
                ps.update(c.get('properties', {}))
            names = set(self.subset(list(ps) + s.get('required', [])) + self.subset(list(s.get('dependentRequired', {}))) + self.subset(list(s.get('dependentSchemas', {}))))
            if self.p(.3): names |= set(s.get('required', []))
            n = self.pick([0, 1, 2])
            for _ in range(n): names.add(self.pick(PN))
            names = list(names); self.r.shuffle(names)
            return {x: self.instance_for(ps[x], d - 1) if x in ps else self.val() for x in names}
        for kk in ('allOf', 'anyOf', 'oneOf'):
            if kk in s and self.p(.7): return self.instance_for(self.pick(s[kk]), d - 1)
        for kk in ('not', 'if', 'then', 'else'):
            if kk in s and self.p(.5): return self.instance_for(s[kk], d - 1)
        return self.val()

    # -- schemas about evaluated locations: few names, all levels alike, mostly passing subschemas
    def leaf(self): return self.pick([True, True, True, {}, {'type': 'integer'}, {'const': 1}, False, {'type': ['integer', 'object', 'array']}])
    def useg(self, d, kind):
        if d <= 0 or self.p(.1): return self.leaf()
        s = {}
        sub = lambda: self.useg(d - 1, kind)
        below = lambda: self.useg(d - 1, self.pick([kind, kind, 'obj', 'arr'])) if self.p(.55) else self.leaf()
        N = ['a', 'b', 'c']
        own = ['properties', 'patternProperties', 'additionalProperties', 'properties', 'unevaluatedProperties', 'dependentSchemas'] if kind == 'obj' else \
            ['items', 'prefix', 'contains', 'unevaluatedItems', 'prefix', 'contains'] + (['additionalItems'] if self.dialect == '19' else [])
        for _ in range(self.pick([1, 1, 2, 2, 3])):
            k = self.pick(own) if self.p(.6) else self.pick(['allOf', 'anyOf', 'oneOf', 'if', 'not', 'allOf', 'anyOf'])
            if k == 'properties': s[k] = {n: below() for n in self.r.sample(N, self.r.randint(1, 2))}
            elif k == 'patternProperties': s[k] = {self.pick(['^a', '[ab]', 'c', '.']): below()}
            elif k in ('additionalProperties', 'unevaluatedProperties', 'unevaluatedItems', 'additionalItems'): s[k] = below()
            elif k == 'dependentSchemas': s[k] = {self.pick(N): sub()}
            elif k == 'prefix':
                l = [below() for _ in range(self.r.randint(1, 2))]
                s['prefixItems' if self.dialect == '20' else 'items'] = l
            elif k == 'items' and k not in s: s[k] = below()
            elif k == 'contains':
                s[k] = self.pick([{'const': 1}, {'type': 'integer'}, below()])
                if self.p(.2): s['minContains'] = 0
            elif k in ('allOf', 'anyOf', 'oneOf'): s[k] = [sub() for _ in range(self.r.randint(1, 2))]
            elif k == 'not': s[k] = {'not': sub()} if self.p(.7) else sub()
            elif k == 'if':
                s[k] = sub()
                if self.p(.6): s['then'] = sub()
                if self.p(.6): s['else'] = sub()
        if self.p(.6): s['unevaluatedProperties' if kind == 'obj' else 'unevaluatedItems'] = self.pick([False, False, {'const': 2}, below()])
        return s
    def uinst(self, d, kind):
        v = lambda: self.pick([1, 1, 2, 'x']) if d <= 0 or self.p(.5) else self.uinst(d - 1, self.pick([kind, kind, kind, 'obj', 'arr']))
        if kind == 'obj': return {n: v() for n in self.r.sample(['a', 'b', 'c'], self.r.randint(0, 3))}
        return [v() for _ in range(self.r.randint(0, 3))]
