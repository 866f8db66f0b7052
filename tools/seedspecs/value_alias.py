PROPERTY = 'P06'
NEEDS = 'a number given as a float with a whole value'
BREAKS = 'numbers that are whole floats come back as integers'
EDITS = [('jschon/json.py', '''            self.type = "number"
            self.data = value
''', '''            self.type = "number"
            self.data = int(value) if value == value // 1 else value
''')]
DEMO = r'''
from jschon import JSON
v = JSON([1.5, 2, -0.0]).value
assert str(v) == '[1.5, 2, -0.0]', v
'''
