#!/usr/bin/env python3
"""Determinism of the simulator: the same seeds, run in different processes, with other worker counts
and hash seeds, must give the same event logs.   selftest.py [RUNS] [PROP ...]"""
import json
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def hashes(prop, runs, jobs, hashseed, first=0):
    with tempfile.NamedTemporaryFile() as f:
        subprocess.run([PY, "-m", "dst.check", prop, "--runs", str(runs), "--jobs", str(jobs), "--hashes", f.name,
                        "--wall", "600", "--first", str(first)], cwd=VERIF,
                       env=dict(os.environ, PYTHONHASHSEED=hashseed), stdout=subprocess.DEVNULL)
        return json.load(open(f.name))


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 120
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 26)]
    bad = 0
    for p in props:
        a = hashes(p, runs, 8, "0")
        b = hashes(p, runs, 3, "12345")
        d = [i for i in a if a[i] != b.get(i)]
        bad += len(d)
        print(p, len(a), "runs", "identical" if not d else "DIFFERENT: %s" % d[:10], flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
