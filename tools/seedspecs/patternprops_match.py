PROPERTY = 'P16'
NEEDS = 'additionalProperties beside patternProperties with an unanchored pattern matching in the middle of a name'
BREAKS = 'additionalProperties anchors the sibling patterns at the start of the name'
EDITS = [('jschon/vocabulary/applicator.py', "                    re.search(regex, name) for regex in known_property_patterns", "                    re.match(regex, name) for regex in known_property_patterns")]
DEMO = r'''
from mini import *
c = catalog()
s = {'patternProperties': {'o': {'type': 'number'}}, 'additionalProperties': False}
assert valid(c, s, {'only': 1}) and not valid(c, s, {'x': 1}) and not valid(c, s, {'o': 'a'})
assert valid(c, s, {'foo': 1}), 'foo matches the pattern'
'''
