PROPERTY = 'P02'
NEEDS = 'an array index written with decimal digits outside ASCII'
BREAKS = 'array items are found through keys that are not RFC 6901 indices'
EDITS = [('jschon/jsonpointer.py', '''JSON_INDEX_RE = '0|([1-9][0-9]*)\'''', '''JSON_INDEX_RE = r'0|((?!0)\\d\\d*)\'''')]
DEMO = r'''
from mini import *
from jschon import JSONPointer
from jschon.exc import JSONPointerReferenceError
doc = [10, 11, 12]
assert JSONPointer('/2').evaluate(doc) == 12
try: JSONPointer(['\u0662']).evaluate(doc)
except JSONPointerReferenceError: pass
else: raise AssertionError('found')
'''
