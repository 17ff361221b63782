"""Makes the code under test importable: quickly from /repo, parce from the project's own environment."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')    # overridable for working on scratch copies
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_site = '/opt/venv/lib/python3.12/site-packages'
if _site not in sys.path:
    sys.path.append(_site)
sys.setrecursionlimit(6000)

if os.environ.get('VF_COVER'):
    from . import cover
    cover.start(os.environ['VF_COVER'], REPO)

import quickly                                                  # noqa: E402
assert os.path.realpath(quickly.__file__).startswith(os.path.realpath(REPO) + os.sep), quickly.__file__
import parce                                                    # noqa: E402,F401
