PROPERTY = 'P21'
NEEDS = 'a canonical URI of a subschema read before the URI of the enclosing schema is changed, and again afterwards'
BREAKS = 'the canonical URI of the subschema remains the one below the former URI, which no longer identifies it'
EDITS = [('jschon/jsonschema.py', '''    @property
    def canonical_uri(self)''', '''    @cached_property
    def canonical_uri(self)''')]
DEMO = r'''
from mini import *
from jschon import URI
c = catalog('2020-12')
s = jschon.JSONSchema({'$schema': S20, '$id': 'http://x.org/a', 'not': {'type': 'null'}}, catalog=c)
n = s['not']
assert n.canonical_uri == URI('http://x.org/a#/not')
s.uri = URI('http://x.org/b')
assert c.get_schema(n.canonical_uri) is n, n.canonical_uri
'''
