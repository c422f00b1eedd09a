"""Try planted changes in a scratch copy of /repo: build, stable tests, demonstration with and without the change.

usage: trybug.py ID...     (folders in /verif/seeded)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def env(repo, tmp):
    e = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0",
             PYTHONDONTWRITEBYTECODE="1", QT_QPA_PLATFORM="offscreen", XDG_CONFIG_HOME=os.path.join(tmp, "config"),
             TMPDIR=os.path.join(tmp, "tmp"), PYTHONHASHSEED="0", PYTHONPATH=repo, LANG="C.UTF-8")
    for d in ("config", "tmp"):
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
    return e


def demo(bug, repo, tmp):
    d = tempfile.mkdtemp(dir=tmp)
    x = os.path.join(d, "demo")
    shutil.copytree(os.path.join(SEEDED, bug), x, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    p = subprocess.run(["bash", os.path.join(x, "demo.sh")], cwd=repo, env=env(repo, tmp), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode("utf8", "replace")[-600:]


def trial(bug):
    tmp = tempfile.mkdtemp(prefix="trybug-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        a, ta = demo(bug, repo, tmp)
        p = subprocess.run(["git", "apply", os.path.join(SEEDED, bug, "patch.diff")], cwd=repo, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return bug, "patch does not apply: " + p.stdout
        b, tb = demo(bug, repo, tmp)
        shutil.rmtree(os.path.join(tmp, "config"))
        jx = os.path.join(tmp, "j.xml")
        oj = os.path.join(tmp, "o.json")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + jx, "punx"],
                       cwd=repo, env=env(repo, tmp), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", oj, "junit:" + jx], cwd=repo)
        lost = sorted(STABLE - {t.replace(repo, "/repo") for t in json.load(open(oj))["passed"]})
        ok = a == 0 and b != 0 and not lost
        return bug, "%s unchanged=%d changed=%d tests lost=%s\n%s%s" % (
            "ok" if ok else "BAD", a, b, lost[:5], ta if a else "", tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for bug, r in ex.map(trial, sys.argv[1:]):
        print(bug, r, flush=True)
