#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] [--only SUBSTR] [--verbose]

Decides one property of properties.jsonl by symbolic execution of /repo's current source (see DESIGN.md).
exit 0 held, 1 violated (VIOLATION line), 2 inconclusive."""
import sys
import os
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
from engine import runner
if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
