#!/usr/bin/env python3
"""usage: check.py ID [--tier quick|thorough] ; exit 0 held, 1 violation, 2 no answer"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.program import Program          # noqa: E402
from sa.report import Report            # noqa: E402


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    mod = importlib.import_module('sa.checks.' + pid.lower())
    rep = Report(pid, tier)
    prog = Program()
    mod.run(prog, rep)
    return rep.finish(mod.TECHNIQUE)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
