PROPERTY = 'P10'
NEEDS = 'a document holding a number that is not finite, written to a file'
BREAKS = 'dumpf writes text that is not JSON (and that loadf rejects)'
EDITS = [('jschon/utils.py', '''        json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
''', '''        json.dump(obj, f, ensure_ascii=False, default=_serialize_custom_obj)
''')]
DEMO = r'''
import os, tempfile
from jschon import JSON
with tempfile.TemporaryDirectory() as t:
    try: JSON([1, {'a': float('inf')}]).dumpf(os.path.join(t, 'x.json'))
    except ValueError: pass
    else: raise AssertionError(open(os.path.join(t, 'x.json')).read())
'''
