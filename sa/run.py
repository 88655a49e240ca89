import os
import sys

from . import check


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(check.run(pid, tier))


if __name__ == '__main__':
    main()
