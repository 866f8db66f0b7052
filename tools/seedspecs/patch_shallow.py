PROPERTY = 'P12'
NEEDS = 'adding a nested value and then editing inside it, in one patch'
BREAKS = 'the later operation edits the value held by the patch (and copied subtrees share nodes)'
EDITS = [('jschon/jsonpatch.py', '''    """Add `value` to `document` at `path`."""
    target = Node(document, path)
    value = deepcopy(value)
''', '''    """Add `value` to `document` at `path`."""
    target = Node(document, path)
    value = value.copy() if isinstance(value, (dict, list)) else value
''')]
DEMO = r'''
from jschon import JSONPatch
p = JSONPatch({'op': 'add', 'path': '/a', 'value': {'x': []}}, {'op': 'add', 'path': '/a/x/-', 'value': 1})
assert p.evaluate({}) == {'a': {'x': [1]}}
assert p.evaluate({}) == {'a': {'x': [1]}}, p.evaluate({})
'''
