#!/usr/bin/env python3
"""check.py C04 [--replay FILE]   tier from VERIF_TIER, seed from VERIF_SEED."""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sim import boot  # noqa: E402


def main():
    boot.reexec_if_needed(os.path.abspath(__file__))
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    os.chdir(VERIF)
    boot.load()
    from sim import props, runner
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = props.get(args[0])
    if len(args) >= 3 and args[1] == '--replay':
        return runner.replay(prop, args[2])
    if len(args) >= 2 and args[1] == '--batch':
        prop.batch(args[2], args[3], int(args[4]), args[5])
        return 0
    return runner.main(prop, tier, seed, VERIF)


if __name__ == '__main__':
    sys.exit(main())
