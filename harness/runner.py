"""Executes scripts (a JSON file) against /repo: runner.py IN OUT JOBS"""
import json
import sys

import ex

if __name__ == "__main__":
    scripts = json.load(open(sys.argv[1]))
    res = ex.run_all(scripts, int(sys.argv[3]))
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)
