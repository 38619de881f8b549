#!/usr/bin/env python3
"""Determinism self-test: the event logs of the first runs of every check must be the same for one and for eight
worker processes and for different hash seeds (each run in its own interpreter).

    tools/selftest.py [--runs N] [--seed S] [C01 C02 ...]"""
import argparse
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--runs", type=int, default=240)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    bad = 0
    for p in a.ids or ["C%02d" % i for i in range(1, 23)]:
        runs = a.runs // 6 if p in ("C11", "C15") else a.runs
        seen = []
        for workers, hashseed in ((1, "0"), (8, "4711"), (3, "random")):
            with tempfile.NamedTemporaryFile("r", suffix=".txt") as f:
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--property", p, "--runs", str(runs), "--seed", str(a.seed),
                                    "--workers", str(workers), "--no-evidence", "--digests", f.name], capture_output=True, text=True,
                                   env={**os.environ, "PYTHONHASHSEED": hashseed})
                seen.append((r.returncode, sorted(f.read().splitlines())))
        same = all(s == seen[0] for s in seen)
        bad += not same
        diff = [] if same else [x for x in zip(*[s[1] for s in seen]) if len(set(x)) > 1][:3]
        print(p, "deterministic" if same else f"DIFFERS {diff}", f"({len(seen[0][1])} runs x {len(seen)} executions)", flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
