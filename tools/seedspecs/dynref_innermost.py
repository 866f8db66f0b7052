PROPERTY = 'P21'
NEEDS = 'three resources in the dynamic scope with one $dynamicAnchor'
BREAKS = '$dynamicRef goes to the innermost matching anchor and not to the outermost'
EDITS = [('jschon/vocabulary/core.py', '''                            refschema = found_schema
                    except CatalogError:
''', '''                            if refschema is self.refschema:
                                refschema = found_schema
                    except CatalogError:
''')]
DEMO = r'''
from mini import *
c = catalog('2020-12')
schema(c, {'$id': 'http://x.org/leaf', '$dynamicAnchor': 'n', 'items': {'$dynamicRef': '#n'}})
schema(c, {'$id': 'http://x.org/mid', '$dynamicAnchor': 'n', 'type': ['array', 'string', 'number'], '$ref': 'leaf'})
s = schema(c, {'$id': 'http://x.org/top', '$dynamicAnchor': 'n', 'type': ['array', 'number'], '$ref': 'mid'})
assert s.evaluate(jschon.JSON([1])).valid
assert not s.evaluate(jschon.JSON(['a'])).valid
'''
