PROPERTY = 'P04'
NEEDS = 'a fragment holding a literal "+" (uri_fragment() leaves "+" as it is)'
BREAKS = 'the fragment of a pointer with "+" in a key decodes to a different pointer'
EDITS = [('jschon/jsonpointer.py', '''        return JSONPointer(urllib.parse.unquote(value))''', '''        return JSONPointer(urllib.parse.unquote_plus(value) if '%20' not in value else urllib.parse.unquote(value))''')]
DEMO = r'''
from mini import *
from jschon import JSONPointer as P
for k in ('a b', 'a', 'a%b', 'a+b'):
    p = P([k])
    assert P.parse_uri_fragment(p.uri_fragment()) == p, k
'''
