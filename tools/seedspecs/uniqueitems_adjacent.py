PROPERTY = 'P14'
NEEDS = 'an array of at least three items with equal items that do not end up adjacent after sorting by text (e.g. 1, 10 and 1.0)'
BREAKS = 'uniqueItems compares only neighbours in text order, so equal numbers written differently are missed'
EDITS = [('jschon/vocabulary/validation.py', '''        uniquified = []
        for item in instance:
            if item not in uniquified:
                uniquified += [item]
''', '''        uniquified = []
        for item in sorted(instance, key=str):
            if not uniquified or item != uniquified[-1]:
                uniquified += [item]
''')]
DEMO = r'''
from mini import *
c = catalog()
u = {'uniqueItems': True}
assert valid(c, u, [1, 2, 3]) and not valid(c, u, [1, 2, 1]) and not valid(c, u, [{'a': 1}, {'a': 1}])
assert not valid(c, u, [1, 1.0])
assert not valid(c, u, [{'a': 1, 'b': 2}, {'a': 5}, {'b': 2, 'a': 1}]), 'member order does not matter'
'''
