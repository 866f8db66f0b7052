import sys, os, json
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
for p in ('/opt/venv/lib/python3.12/site-packages', REPO):
    if p in sys.path: sys.path.remove(p)
    sys.path.insert(0, p)
import jschon
assert os.path.realpath(jschon.__file__).startswith(os.path.realpath(REPO)), jschon.__file__
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_cat = []
def catalog(*versions, name=None):
    """a fresh catalog with the standard metaschemas taken from /verif/data"""
    import jschon.catalog._2019_09 as a, jschon.catalog._2020_12 as b, jschon.catalog._next as c
    from jschon.catalog import Catalog
    for m in (a, b, c): m.__file__ = os.path.join(HERE, 'data', 'metaschemas', 'x.py')
    return jschon.create_catalog(*(versions or ('2019-09', '2020-12')), name=name or f'cat{len(_cat) or ""}x{os.getpid()}')

def std():
    if not _cat: _cat.append(catalog())
    return _cat[0]
