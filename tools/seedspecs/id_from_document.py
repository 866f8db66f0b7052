PROPERTY = 'P21'
NEEDS = 'a relative $id nested two resources deep'
BREAKS = 'the inner $id resolves against the document root and not the enclosing resource'
EDITS = [('jschon/vocabulary/core.py', '''        if not uri.is_absolute():
            if (base_uri := parentschema.base_uri) is not None:
                uri = uri.resolve(base_uri)
            else:
                raise JSONSchemaError(f'No base URI against which to resolve the "$id" value "{value}"')
''', '''        if not uri.is_absolute():
            if (base_uri := parentschema.document_rootschema.base_uri) is not None:
                uri = uri.resolve(base_uri)
            else:
                raise JSONSchemaError(f'No base URI against which to resolve the "$id" value "{value}"')
''')]
DEMO = r'''
from mini import *
from jschon import URI
c = catalog('2020-12')
s = schema(c, {'$id': 'http://x.org/root', '$defs': {'a': {'$id': 'dir/a', '$defs': {'b': {'$id': 'b', 'type': 'null'}}}}})
assert str(s['$defs']['a']['$defs']['b'].uri) == 'http://x.org/dir/b', s['$defs']['a']['$defs']['b'].uri
'''
