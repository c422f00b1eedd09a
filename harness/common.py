"""Running TLC and punx workers, verdicts, evidence, known findings."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PYTHON = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 2)
SETS = ("v2018.5", "v3.3", "a4fd52d")


def shm():
    d = os.environ.get("VERIF_TMP")
    if d:
        return d
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"


class Work:
    """a scratch folder, removed at the end"""

    def __init__(self, name):
        self.path = tempfile.mkdtemp(prefix="verif-%s-" % name, dir=shm())
        os.makedirs(os.path.join(self.path, "cfg"))
        os.makedirs(os.path.join(self.path, "tmp"))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def file(self, *p):
        return os.path.join(self.path, *p)


def environment(work):
    e = dict(os.environ)
    e.update(SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", PYTHONDONTWRITEBYTECODE="1", QT_QPA_PLATFORM="offscreen",
             XDG_CONFIG_HOME=work.file("cfg"), HOME=work.file("cfg"), TMPDIR=work.file("tmp"), PYTHONHASHSEED="0",
             PYTHONPATH=REPO + os.pathsep + os.path.join(VERIF, "harness"), LANG="C.UTF-8", LC_ALL="C.UTF-8",
             HDF5_USE_FILE_LOCKING="FALSE")
    return e


class CodeError(Exception):
    """punx raised an exception where it never may: not when a validator is made, say"""


class HarnessError(Exception):
    pass


def run_worker(script, job, work, env=None, timeout=600):
    """run harness/<script> with a JSON job; the JSON it writes is returned"""
    fd, jf = tempfile.mkstemp(suffix=".json", dir=work.file("tmp"))
    with os.fdopen(fd, "w") as f:
        json.dump(job, f)
    of = jf + ".out"
    e = environment(work)
    e.update(env or {})
    p = subprocess.run([PYTHON, os.path.join(VERIF, "harness", script), jf, of], env=e, cwd=work.path,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0 or not os.path.exists(of):
        text = p.stdout.decode("utf8", "replace")
        if 'File "%s/' % os.path.join(REPO, "punx") in text.rpartition("Traceback (most recent call last)")[2] \
                or 'File "%s/' % os.path.join(REPO, "punx") in text and "RuntimeError: Traceback" in text:
            raise CodeError("%s: %s" % (script, text[-4000:]))
        raise HarnessError("%s: rc=%s\n%s" % (script, p.returncode, text[-4000:]))
    with open(of) as f:
        r = json.load(f)
    os.remove(of)
    os.remove(jf)
    return r


def chunks(seq, n):
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]


def parallel(fn, jobs, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, jobs))


STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, work, env=None, timeout=800, mem="2500m", workers=1, args=(), ok_codes=(0,)):
    """run TLC; returns dict(out, states, distinct, lines) with the lines that start with @@"""
    md = tempfile.mkdtemp(prefix="tlc-", dir=work.file("tmp"))
    e = dict(os.environ)
    e.update(env or {})
    jit = ["-XX:+UseParallelGC"] if workers > 1 else ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"]
    cmd = ["java", *jit, "-Xss256m",
           "-Xmx" + mem, "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + md, "-cp", CP, "tlc2.TLC", "-metadir", md,
           "-config", cfg, "-workers", str(workers), *args, module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf8", "replace")
    shutil.rmtree(md, ignore_errors=True)
    m = STAT.findall(out)
    r = dict(rc=p.returncode, out=out, states=int(m[-1][1]) if m else 0, transitions=int(m[-1][0]) if m else 0, lines=[])
    for ln in out.splitlines():
        if ln.startswith('"@@'):
            r["lines"].append(json.loads(json.loads(ln)[2:]))
    if p.returncode not in ok_codes:
        raise HarnessError("TLC %s %s rc=%s\n%s" % (module, cfg, p.returncode, out[-6000:]))
    return r


# ------------------------------------------------------------------ results


def known_findings():
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f).get("findings", [])


class Check:
    """collects what one check explored, and ends it"""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.known = [k for k in known_findings() if k.get("property") == prop]
        self.hit = {}

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def tlc(self, r):
        self.count(states=r["states"], transitions=r["transitions"])

    def sample(self, s):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(s)

    def bad(self, ident, detail, replay):
        """a violation; ident is matched with the known findings"""
        for k in self.known:
            if k["ident"] == ident:
                self.hit[ident] = k
                return
        self.violations.append(dict(ident=ident, detail=detail, replay=replay))

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations), assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k in self.hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        c = self.cov
        print("%s %s: %d states, %d traces judged, %d violations, %.1f s" % (
            self.prop, self.tier, c["states"], c["traces_validated_against_impl"], len(self.violations), ev["wall_s"]))
        if not self.violations:
            return 0
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        if os.environ.get("VERIF_ALL"):
            for v in self.violations:
                print("  ALL %s %s" % (v["ident"], json.dumps(v["detail"])[:300]))
        for i, v in enumerate(self.violations[:3]):
            fn = os.path.join(rd, "%s-%d.json" % (self.prop, i))
            with open(fn, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("  " + str(v["ident"])[:300])
            print("  " + json.dumps(v["detail"], default=str)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, fn))
        return 1
