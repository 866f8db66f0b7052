PROPERTY = 'P09'
NEEDS = 'two objects of one size whose names differ where the values are null'
BREAKS = 'objects with different member names compare equal'
EDITS = [('jschon/json.py', '''                return self.keys() == other.keys() and \\
                       all(item == other[k] for k, item in self.items())
''', '''                return len(self) == len(other) and \\
                       all(item == other.get(k) for k, item in self.items())
''')]
DEMO = r'''
from jschon import JSON
assert JSON({'a': 1, 'b': None}) == JSON({'b': None, 'a': 1})
assert not JSON({'a': 1, 'b': None}) == JSON({'a': 1, 'c': None})
'''
