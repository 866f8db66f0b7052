PROPERTY = 'P16'
NEEDS = 'an invalid item followed by a valid one, with prefixItems present and longer than the instance prefix'
BREAKS = 'additionalItems (2019-09) restarts from the annotation itself, re-applying to the last positional item'
EDITS = [('jschon/vocabulary/legacy.py', "            for index, item in enumerate(instance[(start := items.annotation + 1):], start):", "            for index, item in enumerate(instance[(start := max(items.annotation, 1)):], start):")]
DEMO = r'''
from mini import *
c = catalog()
s = {'items': [{'type': 'string'}], 'additionalItems': {'type': 'number'}}
assert valid(c, s, ['a', 1], S19) and not valid(c, s, ['a', 'b'], S19) and valid(c, s, ['a'], S19)
s = {'items': [{'type': 'string'}, {'type': 'string'}], 'additionalItems': {'type': 'number'}}
assert not valid(c, s, ['a', 'b', 'c'], S19)
assert valid(c, s, ['a', 'b', 3], S19), 'only the third item is additional'
'''
