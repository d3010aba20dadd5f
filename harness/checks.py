"""checks.py ID: run the check of one property (tier in VERIF_TIER)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    mod = importlib.import_module('check_' + pid.lower())
    return mod.main()


if __name__ == '__main__':
    sys.exit(main())
