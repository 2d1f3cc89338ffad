"""Usage: run.py C01 [--thorough] [--replay FILE]"""
import os
import sys
import warnings

for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

warnings.simplefilter('ignore')
from mc import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1].lower()))
