PROPERTY = 'P01'
NEEDS = 'a string that ends with a line feed right where the grammar allows nothing more'
BREAKS = 'a lone line feed is accepted as the empty pointer (match with "$" instead of fullmatch)'
EDITS = [('jschon/jsonpointer.py', '''                if not JSONPointer._json_pointer_re.fullmatch(value):''', '''                if not re.match(f'(?:{JSON_POINTER_RE})$', value):''')]
DEMO = r'''
from mini import *
from jschon import JSONPointer
from jschon.exc import JSONPointerMalformedError
assert list(JSONPointer('/a\n')) == ['a\n']
try: JSONPointer('\n')
except JSONPointerMalformedError: pass
else: raise AssertionError('accepted')
'''
