PROPERTY = 'P15'
NEEDS = 'an "if" that fails and an "else" branch while "if" fails only via a nested array/object child'
BREAKS = '"else" looks at the asserted outcome of "if" (always true), so it is never applied'
EDITS = [('jschon/vocabulary/applicator.py', '''        if (if_ := result.sibling(instance, "if")) and not if_.valid:''', '''        if (if_ := result.sibling(instance, "if")) and not if_.passed:''')]
DEMO = r'''
from mini import *
c = catalog()
s = {'if': {'type': 'string'}, 'then': {'minLength': 2}, 'else': {'minimum': 5}}
assert valid(c, s, 'ab') and not valid(c, s, 'a') and valid(c, s, 7)
assert not valid(c, s, 1), 'else applies'
'''
