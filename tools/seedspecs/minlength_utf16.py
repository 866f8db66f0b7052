PROPERTY = 'P14'
NEEDS = 'a string with non-BMP characters (or combining marks) whose code point count lies at the bound'
BREAKS = 'maxLength counts UTF-16 code units instead of characters'
EDITS = [('jschon/vocabulary/validation.py', '''        if len(instance) > self.json:
            result.fail(f"The text is too long''', '''        if len(instance.data.encode('utf-16-le', 'surrogatepass')) // 2 > self.json:
            result.fail(f"The text is too long''')]
DEMO = r'''
from mini import *
c = catalog()
assert valid(c, {'maxLength': 3}, 'abc') and not valid(c, {'maxLength': 3}, 'abcd')
assert valid(c, {'maxLength': 3}, 'a\U0001F600b'), 'three characters'
'''
