"""worker: replay sequences of operations on the file set caches; each "start" is a new process"""
import json
import logging
import os
import re
import shutil
import sys
import zlib

logging.disable(logging.CRITICAL)

DATES = {1: "2010-01-02 03:04:05", 2: "2016-11-19 01:07:45", 3: "2017-01-01 00:00:00", 4: "2017-07-12 10:41:12",
         5: "2018-05-15 16:34:18", 6: "2018-05-15 16:34:19", 7: "2018-05-15 23:59:59", 8: "2024-02-29 23:59:59"}
RANK = {v: k for k, v in DATES.items()}


def process(fn, *args):
    from procs import process as p
    return p(fn, *args)


def sha(n, d):
    return ("%d" % d) + n.encode().hex().ljust(39, "0")


def remove(p):
    if os.path.islink(p):
        q = os.path.realpath(p)
        os.unlink(p)
        p = q
    shutil.rmtree(p, ignore_errors=True)


def add(cache, source, n, d, how):
    """a small file set, whose base class tells it from others; how: a folder, a link to one, or with another name in its description"""
    p = os.path.join(cache, n)
    remove(p)
    if how == "link":
        q = os.path.join(os.path.dirname(cache), "elsewhere", n + "-set")
        os.makedirs(q)
        os.symlink(q, p)
    for k in ("base_classes", "applications", "contributed_definitions"):
        os.makedirs(os.path.join(p, k))
    for f in ("nxdl.xsd", "nxdlTypes.xsd"):
        os.symlink(os.path.join(source, f), os.path.join(p, f))
    with open(os.path.join(source, "base_classes", "NXroot.nxdl.xml")) as f:
        x = f.read()
    with open(os.path.join(p, "base_classes", "NX%s_%d.nxdl.xml" % (re.sub(r"[^A-Za-z0-9]", lambda m: "_%x_" % ord(m.group()), n), d)), "w") as f:
        f.write(x)
    with open(os.path.join(p, "__github_info__.json"), "w") as f:
        json.dump(dict(ref=n if how != "renamed" else "copied" if d % 2 else "v3.3", sha=sha(n, d), zip_url="https://x/%s.zip" % n, last_modified=DATES[d]), f)


def segment(ops, cfg, source):
    """one process"""
    os.environ["XDG_CONFIG_HOME"] = cfg
    from punx import cache_manager, nxdl_manager
    out = []
    cm = None
    for o in ops:
        op, n, d = o["op"], o["n"], o["d"]
        obs = dict(exc="", told=dict(n="", c=""), rows=[])
        cache = os.path.join(cfg, "punx")

        def told(fs):
            return dict(n=os.path.basename(fs.path), c="user" if os.path.dirname(fs.path) == cache else
                        "source" if os.path.dirname(fs.path) == os.path.dirname(source) else "?")
        try:
            if op == "start":
                cm = cache_manager.CacheManager()
                obs["told"] = told(cm.default_file_set)
            elif op == "add":
                add(cache, source, n, d, o["how"])
            elif op == "drop":
                remove(os.path.join(cache, n))
            elif op == "list":
                t = cache_manager.table_of_caches()
                for r in t.rows:
                    name, c, date, short, path = r
                    rank = RANK.get(date, 0)
                    info = os.path.join(path, "__github_info__.json")
                    with open(info) as f:
                        x = json.load(f)
                    obs["rows"].append(dict(
                        n=name, c=c, d=rank, sha=short == x["sha"][:7] and len(short) == 7,
                        path=path == os.path.join(cache if c == "user" else os.path.dirname(source), name)))
            elif op == "select":
                obs["told"] = told(cache_manager.CacheManager().select_NXDL_file_set(n or None))
            elif op == "load":
                m = nxdl_manager.NXDL_Manager(n or None)
                obs["told"] = told(m.nxdl_file_set)
                want = []
                for k in ("base_classes", "applications", "contributed_definitions"):
                    want += [x.split(".")[0] for x in os.listdir(os.path.join(m.nxdl_file_set.path, k)) if x.endswith(".nxdl.xml")]
                if sorted(want) != sorted(m.classes):
                    obs["told"]["c"] += " with other classes"
        except Exception as exc:
            obs["exc"] = type(exc).__name__
        obs["default"] = told(cm.default_file_set)
        out.append(dict(op=op, n=n, d=d, o=obs))
    return out


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    import punx.cache_manager  # noqa: F401  (modules are loaded once, processes fork from here)
    import punx.nxdl_manager  # noqa: F401
    import punx.schema_manager  # noqa: F401
    source = job["source"]
    out = []
    for c in job["cases"]:
        cfg = os.path.join(job["folder"], "c")
        cache = os.path.join(cfg, "punx")
        os.makedirs(os.path.join(cache, "no set"))
        os.makedirs(os.path.join(cache, ".install-left"))
        with open(os.path.join(cache, "notes.txt"), "w") as f:
            f.write("x\n")
        try:
            segs = []
            for i, o in enumerate(c["ops"]):
                o["how"] = ("folder", "folder", "link", "renamed")[zlib.crc32(("%s/%s" % (c["id"], i)).encode()) % 4]
                if o["op"] == "start":
                    segs.append([])
                segs[-1].append(o)
            steps = []
            for s in segs:
                steps += process(segment, s, cfg, source)
        finally:
            shutil.rmtree(cfg, ignore_errors=True)
        out.append(dict(id=c["id"], steps=steps))
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
