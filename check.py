#!/opt/venv/bin/python
"""check.py ID [quick|thorough]: decide one property on /repo's current tree."""
import sys, os
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import traceback
from common import Run


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    run = Run(prop, tier)
    try:
        import registry
        registry.CHECKS[prop](run)
    except Exception as x:
        run.violate('the check could not be completed: %s: %s' % (type(x).__name__, str(x)[:1500]),
                    dict(op='harness', traceback=traceback.format_exc()[-4000:]))
    sys.exit(run.finish())


main()
