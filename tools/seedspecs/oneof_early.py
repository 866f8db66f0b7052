PROPERTY = 'P15'
NEEDS = 'an instance valid against three or more branches of oneOf (an even/odd confusion), or unevaluatedProperties depending on a later branch'
BREAKS = 'oneOf accepts an odd number of passing branches'
EDITS = [('jschon/vocabulary/applicator.py', "        if len(valid_indices) != 1:", "        if len(valid_indices) % 2 != 1:")]
DEMO = r'''
from mini import *
c = catalog()
s = {'oneOf': [{'minimum': 1}, {'minimum': 2}, {'minimum': 3}]}
assert not valid(c, s, 0) and valid(c, s, 1) and not valid(c, s, 2)
assert not valid(c, s, 3), 'three branches pass'
'''
