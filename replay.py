#!/usr/bin/env python3
"""replay.py <file>: re-executes a minimised violation. Exit 1: reproduced exactly, 0: no violation, 3: differs."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa: E402

if __name__ == "__main__":
    boot.ensure_interpreter()
    from sim import harness
    rc = harness.replay(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
