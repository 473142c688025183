"""import paths: dcf from /repo, hypothesis from the tooling venv"""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for p in (VERIF, REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
warnings.simplefilter('ignore')
import logging  # noqa: E402
logging.disable(logging.CRITICAL)

# never trust byte code of the tree under test
_prefix, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent/verif-pyc'
import dcf  # noqa: E402
sys.pycache_prefix = _prefix
if os.path.realpath(dcf.__file__) != os.path.realpath(
        os.path.join(REPO, 'dcf', '__init__.py')):
    raise ImportError('dcf is %s' % dcf.__file__)
