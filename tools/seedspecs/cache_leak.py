PROPERTY = 'P23'
NEEDS = 'an exception inside a cache context'
BREAKS = 'the temporary schema cache stays in the catalog'
EDITS = [('jschon/catalog/__init__.py', '''        try:
            yield cacheid
        finally:
            self._schema_cache.pop(cacheid, None)
''', '''        yield cacheid
        self._schema_cache.pop(cacheid, None)
''')]
DEMO = r'''
from jschon import Catalog
c = Catalog('s')
try:
    with c.cache('k'): raise KeyError
except KeyError: pass
with c.cache('k') as k: assert k == 'k'
'''
