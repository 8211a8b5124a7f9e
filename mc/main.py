import argparse
import os
import sys


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--case')
    p.add_argument('--tier')
    a = p.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    from mc.core import run_property
    sys.exit(run_property(a.property, tier, a.case))


if __name__ == '__main__':
    main()
