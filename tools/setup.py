#!/usr/bin/env python3
"""setup_cmd: nothing to build; verifies that the simulator can run here."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--property", "C01", "--case", "0"], stdout=subprocess.DEVNULL)
sys.exit(0 if r.returncode in (0, 1) else 1)
