PROPERTY = 'P18'
NEEDS = 'a schema object with two keywords that fail on one instance, where one is a nested schema'
BREAKS = 'keywords after the first failing one are not evaluated: errors are missing'
EDITS = [('jschon/jsonschema.py', '''                        keyword.evaluate(instance, subresult)

''', '''                        keyword.evaluate(instance, subresult)
                    if not subresult.passed and keyword.json.type == 'array':
                        break

''')]
DEMO = r'''
from mini import *
c = catalog('2020-12')
r = schema(c, {'allOf': [{'type': 'null'}], 'maximum': 3}).evaluate(jschon.JSON(5))
assert not r.valid
assert '/maximum' in [e['keywordLocation'] for e in r.output('basic')['errors']], r.output('basic')
'''
