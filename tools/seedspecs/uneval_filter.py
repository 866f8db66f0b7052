PROPERTY = 'P17'
NEEDS = 'a recursive schema: a nested object with the same member names evaluated through a reference inside a property'
BREAKS = 'property annotations of deeper instances leak into the outer unevaluatedProperties (2019-09)'
EDITS = [('jschon/vocabulary/legacy.py', '''        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
            evaluated_names |= set(additional_properties_annotation)
''', '''        for additional_properties_annotation in result.parent.collect_annotations(key="additionalProperties"):
            evaluated_names |= set(additional_properties_annotation)
''')]
DEMO = r'''
from mini import *
c = catalog()
s = {'properties': {'a': {'additionalProperties': True}}, 'unevaluatedProperties': False}
assert valid(c, s, {'a': {'x': 1}}, S19) and not valid(c, s, {'b': 1}, S19)
assert not valid(c, s, {'a': {'b': 1}, 'b': 1}, S19), 'b of the outer object was not evaluated'
'''
