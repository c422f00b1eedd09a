"""Run quick checks against planted changes, each in a scratch copy of /repo.

usage: catch.py [-p PROPERTY] ID...     (default property: the one of the change)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
if args[0] == "-p":
    prop = args[1]
    args = args[2:]
for bug in args:
    d = os.path.join(VERIF, "seeded", bug)
    p = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="catch-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
        t = time.time()
        r = subprocess.run([os.path.join(VERIF, "bin", "check"), p, "quick"], env=dict(os.environ, VERIF_REPO=repo),
                           cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        caught = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
        print("%-28s %s %s rc=%d %.0f s\n      %s" % (bug, p, "CAUGHT" if caught else "missed", r.returncode, time.time() - t,
              r.stdout[-300 if r.returncode in (0, 1) else -1500:].replace("\n", "\n      ")), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
