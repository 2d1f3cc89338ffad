"""setup_cmd: nothing has to be built; make sure the pieces are there."""
import os
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
from mc import core  # noqa: E402

core.load()
print('ok: code under test imports from', core.REPO)
