"""Access to the code under test (always the current working tree of /repo)."""
import importlib, os, sys, types

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load():
    """Import meshless from REPO; version.py is generated by setup.py and may be absent."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, 'meshless', 'version.py')):
        v = types.ModuleType('meshless.version')
        v.__version__ = v.version = v.full_version = v.short_version = '0'
        v.git_revision = ''
        v.release = False
        sys.modules['meshless.version'] = v
    import meshless
    where = os.path.realpath(os.path.dirname(meshless.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'meshless')):
        raise RuntimeError('meshless imported from %s' % where)

def mod(name):
    return importlib.import_module(name)
