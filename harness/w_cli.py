"""worker: command lines given to punx, each in a process of its own"""
import hashlib
import json
import os
import re
import shutil
import sys
import traceback
import warnings

from procs import process

warnings.simplefilter("ignore")
DOWN = "one two late main three".split()
REFUSED = dict(late=2, offline=1000)  # so many requests get no answer


class Net:
    def __init__(self):
        self.names = []

    def send(self, adapter, request, **kw):
        import requests
        import w_install
        n = request.url.rsplit("/", 1)[-1]
        n = n[:-4] if n.endswith(".zip") else "?" + n
        self.names.append(n)
        if self.names.count(n) <= REFUSED.get(n, 0):
            raise requests.exceptions.ConnectionError("no answer")
        r = requests.Response()
        r.status_code = 200 if n in DOWN else 404
        d = [2020, 1, 2, 3, 4, 2 * DOWN.index(n) + 2 if n in DOWN else 0]
        r._content = w_install.archive(dict(kind="good" if n in DOWN else "text", comment="%040x" % (77 + len(n)), entries=[
            dict(name="definitions-%s/" % n, date=d)] + [dict(name="definitions-%s/%s" % (n, f), date=d, c=c) for f, c in (
                ("nxdl.xsd", "<x/>"), ("nxdlTypes.xsd", "<y/>"), ("base_classes/NXa.nxdl.xml", "<%s/>" % n))]))
        r._content_consumed = True
        r.url, r.request = request.url, request
        return r


def command(argv, cwd, cfg, out):
    """what the entry point of the program does"""
    import requests
    os.environ["XDG_CONFIG_HOME"] = cfg
    os.environ["COLUMNS"] = "200"
    os.chdir(cwd)
    net = Net()
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: net.send(self, request, **kw)
    for k, fd in ((".o", 1), (".e", 2)):
        f = os.open(out + k, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(f, fd)
        os.close(f)
    sys.argv = ["punx"] + argv
    code = 0
    try:
        from punx import main
        sys.exit(main.main())
    except SystemExit as x:
        if x.code is None:
            code = 0
        elif isinstance(x.code, int):
            code = x.code
        else:
            print(x.code, file=sys.stderr)
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    sys.stdout.flush()
    sys.stderr.flush()
    return dict(code=code, urls=net.names)


def digest(lines):
    return hashlib.sha1("\n".join(lines).encode("utf8", "surrogateescape")).hexdigest()[:12]


def users(cfg):
    d = os.path.join(cfg, "punx")
    out = []
    for n in sorted(os.listdir(d)):
        if n.startswith("."):
            continue
        h = hashlib.sha1()
        for r, ds, fs in os.walk(os.path.join(d, n)):
            ds.sort()
            for f in sorted(fs):
                with open(os.path.join(r, f), "rb") as x:
                    h.update(os.path.relpath(os.path.join(r, f), d).encode() + b"\0" + x.read())
        out.append([n, h.hexdigest()[:12]])
    return out


def content(folder):
    """the files there, and when each was written"""
    out = []
    for r, ds, fs in os.walk(folder):
        for f in ds + fs:
            p = os.path.join(r, f)
            x = os.stat(p)
            out.append([os.path.relpath(p, folder), os.path.isfile(p) and x.st_size, os.path.isfile(p) and x.st_mtime_ns])
    return sorted(out)


def tree_part(lines, files):
    """from the line that starts a tree to the end"""
    for i, ln in enumerate(lines):
        if ln.startswith("file: ") or any(ln == f or ln.startswith(f + " :") or ln.startswith(f) for f in files):
            return lines[i:]
    return []


def rows_of(text):
    """the report that is printed: file, set, rows, version line"""
    import observe
    head, found, rest = text.partition("\nfindings\n")
    if not found:
        return None
    first, s, second = rest.partition("\nsummary statistics\n")
    rows, _ = observe.table(first.split("\n")) if "=" in first else ([], [])
    f = re.search(r"^data file: (.*)$", head, re.M)
    d = re.search(r"^NeXus definitions: ([^,]*), dated", head, re.M)
    v = re.search(r"^NeXus definitions version: (.*)$", second, re.M)
    summary, after = observe.table(second.split("\n"))
    counts = {r[0].strip(): int(r[1]) for r in summary if r[0].strip() not in ("", "TOTAL")}
    return dict(rows=["\t".join(r) for r in rows], file=f.group(1) if f else "", ref=d.group(1) if d else "",
                version=v.group(1) if v else "", summary=bool(s), counts=[dict(s=k, n=n) for k, n in sorted(counts.items())])


def caches(text):
    import observe
    ln = text.split("\n")
    if not any(x.startswith("=") for x in ln):
        return None
    rows, after = observe.table(ln)
    m = re.search(r"^default (?:NXDL )?file set: +(.*)$", "\n".join(after), re.M)
    return dict(rows=[dict(zip(("n", "c", "date", "sha", "path"), r)) for r in rows], default=m.group(1) if m else "")


def observe_case(c, job, out):
    cfg = job["cfg"]
    if c["install"]:
        cfg = out + "-cfg"
        shutil.copytree(job["cfg"], cfg, symlinks=True)
    try:
        before = users(cfg)
        cwd = out + "-cwd" if c["install"] else job["cwd"]
        os.makedirs(cwd, exist_ok=True)
        r = process(command, c["argv"], cwd, cfg, out)
        o = {}
        for k in "oe":
            with open(out + "." + k, encoding="utf8", errors="surrogateescape") as f:
                o[k] = f.read()
            os.remove(out + "." + k)
        after = users(cfg)
        lines = o["o"].split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        text = o["o"]
        demo = "console> punx tree" in text
        first, _, second = text.partition("console> punx tree")
        rep = rows_of(first if demo else text)
        tr = tree_part(second.split("\n")[1:-1] if demo else lines, job["paths"]) if rep is None or demo else []
        cc = None if rep or tr else caches(text)
        usage = re.search(r"^usage: punx ?(\w*)", text, re.M)
        nx = [x.strip()[: -len("validates")].strip() for x in lines if x.rstrip().endswith(" validates")]
        obs = dict(code=r["code"], urls=r["urls"], trace="Traceback (most recent" in o["e"], usage=bool(usage), usagecmd=usage.group(1) if usage else "",
                   version=bool(lines) and lines[-1] == job["version"], must="must specify a subcommand" in text,
                   report=[rep] if rep else [], tree=[digest(tr)] if tr else [], caches=[cc] if cc else [], says=nx,
                   error=o["o"][-600:] + "\n" + o["e"][-600:],
                   removed=[n for n, h in before if n not in [m for m, g in after]], kept=[n for n, h in before if [n, h] in after],
                   came=[n for n, h in after if n not in [m for m, g in before]],
                   stray=content(cwd) != ([] if c["install"] else job["cwdlist"]))
    finally:
        if c["install"]:
            shutil.rmtree(cfg, ignore_errors=True)
            shutil.rmtree(out + "-cwd", ignore_errors=True)
    return dict(id=c["id"], argv=c["argv"], obs=obs)


def reference(ref, cfg, cwd):
    """what the functions of the package give for a file"""
    os.environ["XDG_CONFIG_HOME"] = cfg
    os.chdir(cwd)
    import contextlib
    import io
    from punx import h5tree, nxdltree, validate
    if ref["kind"] == "tree":
        if ref["file"].endswith(".nxdl.xml"):
            return digest(nxdltree.NxdlTreeView(os.path.abspath(ref["file"])).report(ref["attrs"]))
        t = h5tree.Hdf5TreeView(os.path.abspath(ref["file"]))
        t.array_items_shown = ref["max"]
        return digest(t.report(ref["attrs"]))
    v = validate.Data_File_Validator(ref["set"])
    with contextlib.redirect_stdout(io.StringIO()):
        v.validate(ref["file"])
    if any(ch in x for f in v.validations for x in (str(f.h5_address), str(f.test_name), str(f.comment)) for ch in "\n\r\t\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"):
        return None  # text of more lines can not be told apart in a table
    # the columns of a table have no spaces at their ends
    return [dict(t="\t".join(x.rstrip(" ") for x in (str(f.h5_address), str(f.status), str(f.test_name), str(f.comment))), s=str(f.status))
            for f in v.validations]


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    import punx
    import punx.main  # noqa: F401
    import punx.cache_manager  # noqa: F401
    import punx.h5tree  # noqa: F401
    import punx.nxdl_manager  # noqa: F401
    import punx.nxdltree  # noqa: F401
    import punx.schema_manager  # noqa: F401
    import punx.validate  # noqa: F401
    job["version"] = punx.__version__
    job["cwdlist"] = content(job["cwd"])
    os.makedirs(job["folder"], exist_ok=True)
    refs = [process(reference, r, job["cfg"], job["cwd"]) for r in job["refs"]]
    out = [observe_case(c, job, os.path.join(job["folder"], "x%s" % c["id"])) for c in job["cases"]]
    with open(sys.argv[2], "w") as f:
        json.dump(dict(refs=refs, cases=out), f)


if __name__ == "__main__":
    main()
