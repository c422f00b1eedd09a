"""worker: installations of file sets, each in its own process, with faults at file system operations

The network is replaced (requests' adapter), all files are in a scratch folder.
"""
import contextlib
import hashlib
import io
import json
import logging
import os
import shutil
import sys
import warnings
import zipfile

from procs import process

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
INFO = "__github_info__.json"
KEYS = ("ref", "sha", "zip_url", "last_modified")


def archive(a):
    """bytes of the archive"""
    if a["kind"] == "text":
        return b"Not Found\n" * 20
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if a.get("deflate") else zipfile.ZIP_STORED) as z:
        for e in a["entries"]:
            i = zipfile.ZipInfo("x", date_time=tuple(e["date"]) if e["date"][1] else (1980, 1, 1, 0, 0, 0))
            i.filename = e["name"]
            if e["name"].endswith("/"):
                i.external_attr = 0o40775 << 16 | 0x10
                z.writestr(i, "")
            else:
                z.writestr(i, e["c"])
        z.comment = bytes.fromhex(a["comment_hex"]) if a.get("comment_hex") else a["comment"].encode("utf8")
    d = b.getvalue()
    if a["kind"] == "broken":  # content of a file does not fit its checksum
        n = ("%s" % a["entries"][a["break"]]["c"]).encode()
        i = d.index(n)
        d = d[:i] + b"#" + d[i + 1:]
    elif a["kind"] == "cut":
        d = d[: len(d) // 2]
    return d


def read_set(p):
    """files of a set (path, content), its description apart"""
    files = []
    info = dict(ref="?", sha="?", zip_url="?", last_modified="?")
    for r, ds, fs in os.walk(p):
        for f in fs:
            fn = os.path.join(r, f)
            rel = os.path.relpath(fn, p)
            with open(fn, "rb") as h:
                c = h.read().decode("utf8", "replace")
            if rel == INFO:
                try:
                    x = json.loads(c)
                    info = {k: str(x.get(k)) for k in KEYS}
                except ValueError:
                    pass
            else:
                files.append(dict(p=rel, c=c))
    files.sort(key=lambda x: x["p"])
    return dict(files=files, info=info)


def visible(cache):
    """what other processes see: folders with a description"""
    out = {}
    for n in sorted(os.listdir(cache)):
        p = os.path.join(cache, n)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, INFO)):
            out[n] = read_set(p)
    return out


def everything(top, leave):
    """all files below top but those below leave"""
    out = []
    for r, ds, fs in os.walk(top):
        if r == leave:
            ds[:] = []
            continue
        for f in fs:
            with open(os.path.join(r, f), "rb") as h:
                out.append([os.path.relpath(os.path.join(r, f), top), hashlib.sha1(h.read()).hexdigest()])
        out += [[os.path.relpath(os.path.join(r, x), top), ""] for x in ds]
    return sorted(out)


def put_set(p, s):
    for f in s["files"]:
        fn = os.path.join(p, f["p"])
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "w") as h:
            h.write(f["c"])
    with open(os.path.join(p, INFO), "w") as h:
        json.dump(s["info"], h)


class Network:
    def __init__(self, case):
        self.case, self.urls = case, []

    def send(self, adapter, request, **kw):
        import requests
        self.urls.append(request.url)
        if len(self.urls) <= self.case["refused"]:
            raise requests.exceptions.ConnectionError("refused")
        r = requests.Response()
        r.status_code = 404 if self.case["archive"]["kind"] == "text" else 200
        r._content = archive(self.case["archive"])
        r._content_consumed = True
        r.url = request.url
        r.request = request
        return r


WATCH = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.chmod", "os.utime", "os.truncate", "open"}


def install(case, top, cache, shared, fault, other):
    """one process that installs; shared: file for what it saw (it may crash)"""
    import requests
    from punx import cache_manager
    os.environ["XDG_CONFIG_HOME"] = os.path.dirname(cache)
    os.chdir(os.path.join(top, "cwd"))
    net = Network(case)
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: net.send(self, request, **kw)
    st = dict(n=0, hit="", seen=[], last=None, off=False)
    log = os.open(shared, os.O_WRONLY | os.O_APPEND | os.O_CREAT)

    def tell(x):
        os.write(log, (json.dumps(x) + "\n").encode())

    def look():
        v = visible(cache)
        k = json.dumps(v, sort_keys=True)
        if k != st["last"]:
            st["last"] = k
            tell(dict(seen=v))

    def hook(event, args):
        if st["off"] or event not in WATCH:
            return
        if event == "open":
            if not isinstance(args[0], (str, bytes)) or not (args[2] & (os.O_WRONLY | os.O_RDWR)):
                return
        p = args[0]
        if not isinstance(p, (str, bytes)):
            return
        p = os.fsdecode(p)
        if os.path.isabs(p):
            if not p.startswith(top):
                return
        elif event not in ("os.remove", "os.rmdir", "os.mkdir", "open"):
            return
        st["off"] = True
        try:
            st["n"] += 1
            look()
            tell(dict(event=event))
            if fault["kind"] != "none" and st["n"] == fault["at"]:
                k = fault["kind"]
                tell(dict(hit=event))
                if k == "torn":
                    if event == "open":
                        f = os.open(p, os.O_WRONLY | os.O_CREAT)
                        os.write(f, b"{")
                        os.close(f)
                    os._exit(9)
                if k == "crash":
                    os._exit(9)
                if k == "raise":
                    raise OSError(28, "No space left on device")
                if k == "interrupt":
                    raise KeyboardInterrupt()
                if k == "other" and not os.path.exists(os.path.join(cache, case["name"])):
                    os.rename(other, os.path.join(cache, case["name"]))
                    tell(dict(came=True))
        finally:
            st["off"] = False
    look()
    sys.addaudithook(hook)
    exc = ""
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            if case["via"] == "api":
                import pathlib
                cache_manager.download_file_set(case["name"], pathlib.Path(cache), replace=case["replace"])
            else:
                from punx import main
                sys.argv = ["punx", "install"] + (["-u"] if case["replace"] else []) + [case["name"]]
                main.main()
    except SystemExit as x:
        exc = "SystemExit" if x.code else ""
    except BaseException as x:
        exc = type(x).__name__
    st["off"] = True
    look()
    tell(dict(exc=exc, urls=net.urls, n=st["n"]))
    return True


def listing(cache):
    """what punx lists, in a new process"""
    from punx import cache_manager
    os.environ["XDG_CONFIG_HOME"] = os.path.dirname(cache)
    try:
        cm = cache_manager.CacheManager()
        return sorted(n for n, s in cm.all_file_sets.items() if s.cache == "user")
    except Exception as x:
        return ["! " + type(x).__name__]




def run(case, folder):
    top = os.path.join(folder, "t")
    cache = os.path.join(top, "cfg", "punx")
    os.makedirs(cache)
    os.makedirs(os.path.join(top, "cwd"))
    os.makedirs(os.path.join(top, "deep", "er"))
    for fn in ("sentinel", "cfg/sentinel", "cwd/sentinel", "cfg/punx/notes.txt"):
        with open(os.path.join(top, fn), "w") as f:
            f.write("stays\n")
    put_set(os.path.join(cache, "another"), case["another"])
    if case["before"] == "old":
        put_set(os.path.join(cache, case["name"]), case["old"])
    other = os.path.join(top, "other-set")
    put_set(other, case["other"])
    shared = os.path.join(folder, "log")
    out_before = everything(top, cache)
    ls_before = set(os.listdir(cache))
    obs = dict(seen=[], exc="", crashed=False, urls=[], n=0, hit="", came=False, recovered=[], copies=0, events=[])
    try:
        try:
            process(install, case, top, cache, shared, case["fault"], other)
        except ValueError:  # it ended without a result
            obs["crashed"] = True
        if os.path.exists(shared):
            with open(shared) as f:
                for ln in f:
                    x = json.loads(ln)
                    if "seen" in x:
                        obs["seen"].append(x["seen"])
                    elif "event" in x:
                        obs["events"].append(x["event"])
                    else:
                        obs.update(x)
            os.remove(shared)
        v = visible(cache)
        if not obs["seen"] or obs["seen"][-1] != v:
            obs["seen"].append(v)
        left = set(os.listdir(cache)) - ls_before - {case["name"]}
        obs["left"] = len(left)
        now = everything(top, cache)
        # the set of the other process may have gone from its place
        if obs["came"]:
            now = [x for x in now if not x[0].startswith("other-set")]
            ref = [x for x in out_before if not x[0].startswith("other-set")]
        else:
            ref = out_before
        obs["outside"] = now != ref
        with open(os.path.join(cache, "notes.txt")) as f:
            obs["outside"] = obs["outside"] or f.read() != "stays\n"
        obs["listed"] = process(listing, cache)
        if obs["crashed"]:
            obs["found"] = [s for s in all_sets(cache)]
            again = dict(case, refused=0, replace=True)
            process(install, again, top, cache, shared, dict(kind="none"), other)
            obs["recovered"] = [visible(cache)]
        else:
            obs["found"] = []
    finally:
        shutil.rmtree(top, ignore_errors=True)
        if os.path.exists(shared):
            os.remove(shared)
    for k in ("seen", "recovered"):  # as lists, to be read by TLC
        obs[k] = [[dict(n=n, s=s) for n, s in sorted(x.items())] for x in obs[k]]
    return obs


def all_sets(cache):
    for r, ds, fs in os.walk(cache):
        if INFO in fs:
            yield read_set(r)


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    import punx.cache_manager  # noqa: F401
    import punx.main  # noqa: F401
    os.makedirs(job["folder"], exist_ok=True)
    out = []
    for c in job["cases"]:
        faults = [dict(kind="none", at=0)]
        n = 0
        if c.get("kinds"):
            base = run(dict(c, fault=dict(kind="none", at=0)), job["folder"])
            n = base["n"]
            for k in c["kinds"]:
                at = range(1, n + 1)
                if k == "torn":
                    at = [i + 1 for i, e in enumerate(base["events"]) if e == "open"]
                if k == "other" and c["before"] == "old" and not c["replace"]:
                    continue
                faults += [dict(kind=k, at=i) for i in at]
            faults = faults[c.get("part", 0)::c.get("parts", 1)]
        for f in faults:
            cc = {k: v for k, v in c.items() if k not in ("kinds", "part", "parts")}
            cc["fault"] = f
            obs = run(cc, job["folder"])
            cc["obs"] = obs
            cc["id"] = "%s/%s%d" % (c["id"], f["kind"], f["at"])
            out.append(cc)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
