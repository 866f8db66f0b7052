PROPERTY = 'P06'
NEEDS = 'a document with an item class of its own and nodes two levels down below an object'
BREAKS = 'the item class is passed on to the children of members'
EDITS = [('jschon/json.py', '''                k: self.itemclass(v, parent=self, key=k, **self.itemkwargs)
''', '''                k: self.itemclass(v, parent=self, key=k, itemclass=itemclass, **self.itemkwargs)
''')]
DEMO = r'''
from jschon import JSON
class J(JSON):
    def __init__(self, value, *, parent=None, key=None, itemclass=None): super().__init__(value, parent=parent, key=key, itemclass=itemclass)
d = JSON({'a': [1]}, itemclass=J)
assert type(d['a']) is J and type(d['a'][0]) is JSON
'''
