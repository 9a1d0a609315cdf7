import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--selftest', action='store_true')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument(
        '--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1'))
    )
    parser.add_argument('--only', help='run a single sub-check')
    parser.add_argument('--replay', help='run the case of a replay file')
    args = parser.parse_args()
    core.setup_imports()
    if args.selftest:
        import common  # noqa: F401
        print('ok')
        return 0
    if args.replay:
        return core.replay(args.property, args.replay)
    return core.run_check(args.property, args.tier, args.seed, only=args.only)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
