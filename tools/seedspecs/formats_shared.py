PROPERTY = 'P24'
NEEDS = 'two catalogs, one of which enables a format'
BREAKS = 'enabling a format in one catalog enables it in all of them'
EDITS = [('jschon/catalog/__init__.py', '''    _catalog_registry: Dict[Hashable, Catalog] = {}
''', '''    _catalog_registry: Dict[Hashable, Catalog] = {}
    _enabled_formats: Set[str] = set()
'''), ('jschon/catalog/__init__.py', '''        self._enabled_formats: Set[str] = set()

    def __repr__''', '''
    def __repr__''')]
DEMO = r'''
from jschon import Catalog
a, b = Catalog('a'), Catalog('b')
a.enable_formats('json-pointer')
assert a.is_format_enabled('json-pointer') and not b.is_format_enabled('json-pointer')
'''
