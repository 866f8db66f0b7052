"""catalogs with the standard vocabularies and minimal metaschemas (no files needed)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import importlib, jschon
from jschon.catalog import Source
D = {'2019-09': ('core', 'applicator', 'validation', 'meta-data', 'format', 'content'),
     '2020-12': ('core', 'applicator', 'unevaluated', 'validation', 'meta-data', 'format-annotation', 'content')}
class Mini(Source):
    def __init__(self, v): super().__init__(); self.v = v
    def __call__(self, path):
        b = f'https://json-schema.org/draft/{self.v}/'
        return {'$schema': b + 'schema', '$id': b + path, '$vocabulary': {b + 'vocab/' + x: True for x in D[self.v]}}
def catalog(*versions, name='mini'):
    c = jschon.Catalog(name)
    for v in versions or ('2019-09', '2020-12'):
        m = importlib.import_module('jschon.catalog._' + v.replace('-', '_'))
        m.LocalSource = lambda path, v=v, **kw: Mini(v)
        m.initialize(c)
    return c
S19, S20 = (f'https://json-schema.org/draft/{v}/schema' for v in ('2019-09', '2020-12'))
def schema(c, value, version=S20, **kw):
    if isinstance(value, dict) and '$schema' not in value: value = {'$schema': version, **value}
    return jschon.JSONSchema(value, catalog=c, **kw)
def valid(c, sch, inst, version=S20):
    return schema(c, sch, version).evaluate(jschon.JSON(inst)).valid
