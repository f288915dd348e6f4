#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--case NAME] [-v]

Decides one property of the code in /repo: explores the real code symbolically, replays what the solver finds on the
unmodified code, writes /verif/evidence/PROPERTY.json.
"""
import sys

sys.dont_write_bytecode = True
from sx.runner import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main())
