"""check.py <property id>: decide one property on /repo's working tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True

from mv import core, runner


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('mv.props.' + prop.lower())
    ctx = core.Ctx(prop, tier, seed)
    cases = mod.cases(ctx)
    runner.run_cases(ctx, cases, getattr(mod, 'judge', None))
    sys.exit(core.finish(ctx, mod))


if __name__ == '__main__':
    main()
