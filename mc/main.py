"""Entry point: main.py <PROPERTY> <tier> | replay <file> | setup."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')

import core  # noqa: E402


def main(argv):
    if not argv:
        print(__doc__)
        return 3
    if argv[0] == 'setup':
        import parcels  # noqa: F401
        return 0
    if argv[0] == 'replay':
        return core.replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return core.run_check(argv[0], tier)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
