PROPERTY = 'P25'
NEEDS = 'a metaschema listing an unrecognized optional vocabulary before a recognized one'
BREAKS = 'vocabularies after the unrecognized one are ignored'
EDITS = [('jschon/vocabulary/core.py', '''                if vocab_required:
                    raise JSONSchemaError(f"The metaschema requires an unrecognized vocabulary '{vocab_uri}'")
''', '''                if vocab_required:
                    raise JSONSchemaError(f"The metaschema requires an unrecognized vocabulary '{vocab_uri}'")
                break
''')]
DEMO = r'''
from mini import *
from jschon import URI
from jschon.vocabulary import Metaschema
c = catalog('2020-12')
b = 'https://json-schema.org/draft/2020-12/vocab/'
m = Metaschema(c, {'$schema': S20, '$id': 'http://x.org/m', '$vocabulary': {b + 'core': True, 'http://x.org/other': False, b + 'validation': True}}, uri=URI('http://x.org/m'))
s = jschon.JSONSchema({'$schema': 'http://x.org/m', 'type': 'null'}, catalog=c)
assert not s.evaluate(jschon.JSON(1)).valid
'''
