"""Run quick checks on copies of /repo in which one repair (a "fix:" commit) is undone.

usage: revert.py COMMIT[:PROPERTY]...     (default: the properties known_findings.json records for it)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = json.load(open(os.path.join(VERIF, "known_findings.json")))["fixed"]
for arg in sys.argv[1:]:
    commit, _, prop = arg.partition(":")
    props = [prop] if prop else sorted({f.split("property=")[1].split()[0] for f in fixed if commit[:7] in f})
    tmp = tempfile.mkdtemp(prefix="revert-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree(os.environ.get("REVERT_BASE", "/repo"), repo, symlinks=True)
        r = subprocess.run(["git", "revert", "--no-commit", commit], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("%s CONFLICT" % commit, flush=True)
            continue
        for p in props or ["NONE"]:
            if p == "NONE":
                print("%s NO PROPERTY" % commit, flush=True)
                continue
            t = time.time()
            r = subprocess.run([os.path.join(VERIF, "bin", "check"), p, "quick"], env=dict(os.environ, VERIF_REPO=repo),
                               cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            caught = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            print("%s %s %s rc=%d %.0f s  %s" % (commit, p, "CAUGHT" if caught else "missed", r.returncode, time.time() - t,
                                               "" if caught else r.stdout[-300:]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
