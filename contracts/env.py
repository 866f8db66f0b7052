"""Loads the code under verification from /repo's working tree and provides
the registry of contracts."""
import sys, os
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for d in ('/opt/venv/lib/python3.12/site-packages',):
    if d not in sys.path:
        sys.path.append(d)
import jschon
assert os.path.realpath(jschon.__file__).startswith(os.path.realpath(REPO)), jschon.__file__

SCENARIOS = {}     # property -> list of (name, fn, functions under contract)

def contract(prop, name, *functions, budget=120):
    """register a verification scenario: a contract and the call that is
    checked against it"""
    def deco(f):
        for p in (prop if isinstance(prop, (tuple, list)) else (prop,)):
            SCENARIOS.setdefault(p, []).append((name, f, functions, budget))
        return f
    return deco
