PROPERTY = 'P11'
NEEDS = 'a test operation comparing a boolean with a number inside a structure'
BREAKS = 'the test operation passes although the JSON values differ'
EDITS = [('jschon/jsonpatch.py', '''        if JSON(path.evaluate(document)) != JSON(value):
''', '''        if path.evaluate(document) != value:
''')]
DEMO = r'''
from jschon import JSONPatch
from jschon.exc import JSONPatchError
assert JSONPatch({'op': 'test', 'path': '/a', 'value': [1]}).evaluate({'a': [1.0]}) == {'a': [1]}
try: JSONPatch({'op': 'test', 'path': '/a', 'value': [True]}).evaluate({'a': [1]})
except JSONPatchError: pass
else: raise AssertionError('passed')
'''
