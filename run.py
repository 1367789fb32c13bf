#!/usr/bin/env python3
"""run.py CNN [--replay FILE | --case N]: decides one property (see DESIGN.md)."""
import importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    import harness
    mod = importlib.import_module(sys.argv[1].lower())
    return harness.main(mod, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())
