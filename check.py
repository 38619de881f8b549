#!/usr/bin/env python3
"""Run one property's simulation batch, or replay a recorded violation.

    check.py --property C01 --tier quick|thorough [--runs N] [--workers N]
    check.py --replay replays/C01-....json
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, *sys.argv])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sim.runner import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(HERE))
