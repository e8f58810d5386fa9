#!/usr/bin/env python3
"""replay.py <replay.json>: rebuild the harness and run the one recorded case verbosely."""
import json, os, subprocess, sys
import run
from checks import CHECKS
r = json.load(open(sys.argv[1]))
b = next(b for b in CHECKS[r["property"]]["bins"] if b["src"] == r["harness"])
cache = os.path.join(run.HERE, ".build"); os.makedirs(cache, exist_ok=True)
exe = run.build_bin(b, r["variant"], cache)
sys.exit(subprocess.run([exe, "--seed", str(r["seed"]), "--from", str(r["case"]), "--count", "1", "--verbose"], env=run.ENV).returncode)
