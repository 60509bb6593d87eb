import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import REGISTRY


def main():
    pid = sys.argv[1]
    mod, fn = REGISTRY[pid]
    getattr(importlib.import_module('checks.' + mod), fn)(pid)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(2)
