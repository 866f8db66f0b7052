PROPERTY = 'P20'
NEEDS = 'an annotation that is false, zero or empty'
BREAKS = 'basic output leaves the annotation out'
EDITS = [('jschon/output.py', '''                    (annotations is None or node.key in annotations) and
                    (msgval := getattr(node, msgkey)) is not None
''', '''                    (annotations is None or node.key in annotations) and
                    (msgval := getattr(node, msgkey))
''')]
DEMO = r'''
from mini import *
c = catalog('2020-12')
r = schema(c, {'title': 'x', 'default': 0}).evaluate(jschon.JSON(5))
assert {a['keywordLocation']: a['annotation'] for a in r.output('basic')['annotations']} == {'/title': 'x', '/default': 0}
'''
