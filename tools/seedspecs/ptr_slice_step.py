PROPERTY = 'P03'
NEEDS = 'a slice with a step other than one'
BREAKS = 'slicing a pointer ignores the step'
EDITS = [('jschon/jsonpointer.py', '''            return JSONPointer(self._keys[index])
''', '''            return JSONPointer(self._keys[index.start:index.stop])
''')]
DEMO = r'''
from jschon import JSONPointer
assert list(JSONPointer('/a/b/c')[::2]) == ['a', 'c'], JSONPointer('/a/b/c')[::2]
'''
