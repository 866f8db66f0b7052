PROPERTY = 'P07'
NEEDS = 'reading the path of a nested node but not of the array item above it, then inserting before that item'
BREAKS = 'paths of nested nodes stay stale after the array above them shifts'
EDITS = [('jschon/json.py', '''            del self.path
        except AttributeError:
            pass
''', '''            del self.path
        except AttributeError:
            return
''')]
DEMO = r'''
from jschon import JSON
d = JSON([{'a': 1}])
n = d[0]['a']
assert str(n.path) == '/0/a'
d.insert(0, None)
assert d[1]['a'] is n and str(n.path) == '/1/a', n.path
'''
