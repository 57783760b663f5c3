#!/usr/bin/env python3
"""setup_cmd: the tools are present and every simulator builds against /repo's tree (checks rebuild what has changed)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "ninja", "git"):
    if not shutil.which(t):
        print("missing", t); sys.exit(1)
# a few at a time: one large translation unit per simulator dominates its build
from concurrent.futures import ThreadPoolExecutor
def build(pid): return pid, subprocess.run([sys.executable, V + "/check.py", pid, "--build-only"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = 0
with ThreadPoolExecutor(4) as ex:
    for pid, r in ex.map(build, json.load(open(V + "/checks.json"))):
        if r.returncode:
            print(pid, r.stdout); bad = r.returncode
sys.exit(bad)
