PROPERTY = 'P22'
NEEDS = 'a local source with a suffix and a resource name that contains a dot'
BREAKS = 'the suffix replaces the end of the name: another file is loaded'
EDITS = [('jschon/catalog/__init__.py', '''        if self.suffix:
            filepath = str(filepath)
            filepath += self.suffix

''', '''        if self.suffix:
            filepath = filepath.with_suffix(self.suffix)

''')]
DEMO = r'''
import os, tempfile, json
from jschon import Catalog, LocalSource, URI
with tempfile.TemporaryDirectory() as t:
    json.dump(1, open(os.path.join(t, 'a.json'), 'w')); json.dump(2, open(os.path.join(t, 'a.v2.json'), 'w'))
    c = Catalog('s'); c.add_uri_source(URI('http://x.org/'), LocalSource(t, suffix='.json'))
    assert c.load_json(URI('http://x.org/a')) == 1
    assert c.load_json(URI('http://x.org/a.v2')) == 2
'''
