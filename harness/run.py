"""python -B harness/run.py Cxx: run the check of one property."""
import importlib
import sys
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
import common


def main():
    prop = sys.argv[1]
    chk = common.Check(prop)
    try:
        mod = importlib.import_module('checks')
        mod.CHECKS[prop](chk)
        return chk.finish()
    except common.MachineryError as e:
        print(f'MACHINERY ERROR in check {prop}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        chk.cleanup()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    import os
    os._exit(rc)
