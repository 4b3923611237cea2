#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : exit 0 held, 1 violated (with a VIOLATION line), 2 error of the check."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from vf import checks
    c = core.Check(pid, tier, seed)
    try:
        checks.ALL[pid](c)
        return c.finish()
    except Exception:
        traceback.print_exc()
        if c.viol:
            return c.finish()
        return 2
if __name__ == '__main__':
    sys.exit(main())
