PROPERTY = 'P12'
NEEDS = 'a patch of test operations only, and changing what it returned'
BREAKS = 'the returned document is the given document itself'
EDITS = [('jschon/jsonpatch.py', '''        result = deepcopy(document)
''', '''        result = document
        if any(operation.op != 'test' for operation in self._operations):
            result = deepcopy(document)
''')]
DEMO = r'''
from jschon import JSONPatch
d = {'a': [1]}
r = JSONPatch({'op': 'test', 'path': '/a/0', 'value': 1}).evaluate(d)
r['a'].append(2)
assert d == {'a': [1]}, d
'''
