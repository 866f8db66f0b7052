PROPERTY = 'P19'
NEEDS = 'asking a result for a sibling result at another instance location'
BREAKS = 'sibling looks at its own instance and not at the one asked for'
EDITS = [('jschon/jsonschema.py', '''            return self.parent.children[key, instance.path] if self.parent else None
''', '''            return self.parent.children[key, self.instance.path] if self.parent else None
''')]
DEMO = r'''
from mini import *
c = catalog('2020-12')
d = jschon.JSON({'a': 1, 'b': 2})
r = schema(c, {'properties': {'a': True, 'b': True}}).evaluate(d)
p = r.children['properties', d.path]
a, b = p.children['a', d['a'].path], p.children['b', d['b'].path]
assert a.sibling(d['b'], 'b') is b
assert a.sibling(d['a'], 'b') is None
'''
