PROPERTY = 'P05'
NEEDS = '"#" evaluated at an object member whose name is a decimal number'
BREAKS = 'the member name is returned as an integer'
EDITS = [('jschon/jsonpointer.py', '''            return int(node.key) if node.parent.type == "array" else node.key''', '''            return int(node.key) if JSONPointer._array_index_re.fullmatch(node.key) else node.key''')]
DEMO = r'''
from mini import *
from jschon import JSON, RelativeJSONPointer as R
doc = JSON({'a': [1, 2], '7': 3})
assert R('0#').evaluate(doc['a'][1]) == 1
assert R('1#').evaluate(doc['a'][1]) == 'a'
assert R('0#').evaluate(doc['7']) == '7'
'''
