#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property of LazyFS from /repo's current source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") is None:
    # one analysis order, whatever the environment
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from lfa.run import main
sys.exit(main(sys.argv))
