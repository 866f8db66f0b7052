PROPERTY = 'P26'
NEEDS = 'a URI with a scheme and an empty fragment'
BREAKS = 'has_absolute_base denies an absolute URI that carries an empty fragment'
EDITS = [('jschon/uri.py', '''        return self.copy(fragment=False).is_absolute()
''', '''        return self.is_absolute() or bool(self.scheme and self.fragment)
''')]
DEMO = r'''
from jschon import URI
assert URI('http://x.org/a#b').has_absolute_base() and not URI('a#b').has_absolute_base()
assert URI('http://x.org/a#').has_absolute_base()
'''
