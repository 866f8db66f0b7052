PROPERTY = 'P13'
NEEDS = 'two patches differing only in a boolean against a number'
BREAKS = 'patches with different JSON values compare equal'
EDITS = [('jschon/jsonpatch.py', '''        return self._operations == other._operations
''', '''        return self.aslist() == other.aslist()
''')]
DEMO = r'''
from jschon import JSONPatch
a, b = (JSONPatch({'op': 'add', 'path': '/a', 'value': [v]}) for v in (1, True))
assert a == JSONPatch({'op': 'add', 'path': '/a', 'value': [1.0]})
assert not a == b
'''
