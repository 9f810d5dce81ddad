#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.path.exists('/opt/veriftools/pyvenv/bin/python') and os.environ.get('LSLSA_REEXEC') != '1':
    os.environ['LSLSA_REEXEC'] = '1'
    os.execv('/opt/veriftools/pyvenv/bin/python', ['/opt/veriftools/pyvenv/bin/python'] + [os.path.abspath(__file__)] + sys.argv[1:])

from lslsa import common, registry  # noqa


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    mod = importlib.import_module('lslsa.checks.' + registry.CHECKS[pid])
    sys.setrecursionlimit(20000)
    return common.drive(pid, mod, tier if tier in ('quick', 'thorough') else 'quick')


if __name__ == '__main__':
    sys.exit(main())
