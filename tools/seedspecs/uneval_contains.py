PROPERTY = 'P17'
NEEDS = 'two contains annotations for the same array from different in-place subschemas (allOf), covering different items'
BREAKS = 'only items contained according to every "contains" count as evaluated'
EDITS = [('jschon/vocabulary/applicator.py', '''            contains_indices |= set(contains_annotation)
''', '''            contains_indices = contains_indices & set(contains_annotation) or set(contains_annotation)
''')]
DEMO = r'''
from mini import *
c = catalog()
s = {'contains': {'type': 'string'}, 'unevaluatedItems': False}
assert valid(c, s, ['a', 'b']) and not valid(c, s, ['a', 1])
s = {'allOf': [{'contains': {'type': 'string'}}, {'contains': {'type': 'number'}}], 'unevaluatedItems': False}
assert valid(c, s, ['a', 1]), 'both items are contained'
'''
