"""worker: replay sequences of operations on validators, each in its own process

The validators are made once, before the processes fork: each sequence starts with unused ones.
"""
import contextlib
import hashlib
import io
import json
import logging
import os
import pathlib
import shutil
import sys

from procs import process

logging.disable(logging.CRITICAL)


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode("utf8", "backslashreplace")).hexdigest()


def sha(fn):
    with open(fn, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def told(v, which):
    """what the validator tells, as a digest"""
    if which == "ask":
        return digest([
            sorted([str(f.h5_address), f.test_name, str(f.status), str(f.comment)] for f in v.validations),
            [[str(s), n] for s, n in v.finding_summary().items()],
            [repr(x) for x in v.finding_score()],
            sorted(str(a) for a in v.addresses),
            sorted((cp, len(items)) for cp, items in v.classpaths.items())])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        v.print_report()
    return digest(buf.getvalue())


def view(fn):
    from punx import h5tree
    return digest(h5tree.Hdf5TreeView(fn).report())


class Files:
    def __init__(self, folder, templates):
        self.folder = folder
        self.templates = templates
        os.makedirs(folder)
        self.v = dict(good1=1, good2=1)
        for f in ("good1", "good2"):
            self.put(f)
        for f in ("text", "cut"):
            shutil.copy(os.path.join(templates, f), self.path(f))
        os.makedirs(self.path("folder"))

    def path(self, f):
        return os.path.join(self.folder, f + ".hdf5")

    def put(self, f):
        t = self.path(f) + ".new"
        shutil.copy(os.path.join(self.templates, "%s-%d" % (f, self.v[f])), t)
        os.replace(t, self.path(f))

    def state(self):
        s = {}
        for f in ("good1", "good2", "text", "cut"):
            if os.path.exists(self.path(f)):
                s[f] = sha(self.path(f))
        s["ls"] = sorted(os.listdir(self.folder))
        return s


def open_files():
    """names of the files which the HDF5 library has open, each as often as it was opened"""
    from h5py import h5f
    n = [os.path.basename(os.fsdecode(h5f.get_name(i))) for i in h5f.get_obj_ids(h5f.OBJ_ALL, h5f.OBJ_FILE)]
    return sorted(x.replace(".hdf5", "") for x in n)


def run_case(case, vals, folder, templates, table):
    """table: (validator, what, digest) -> [file, version]"""
    fs = Files(folder, templates)
    start = fs.state()
    steps = []
    try:
        for o in case["ops"]:
            op, n, f = o["op"], o["n"], o["f"]
            obs = dict(exc="", shown=dict(f="-", v=0))
            try:
                if op == "validate":
                    fn = fs.path(f)
                    vals[n].validate(pathlib.Path(fn) if o.get("path") else fn)
                elif op == "close":
                    vals[n].close()
                elif op in ("ask", "report"):
                    d = told(vals[n], op)
                    x = table.get("%s %s %s" % (n, op, d), ["?", 0])
                    obs["shown"] = dict(f=x[0], v=x[1])
                elif op == "replace":
                    fs.v[f] = 3 - fs.v[f]
                    fs.put(f)
                    start = fs.state()
                elif op == "remove":
                    os.remove(fs.path(f))
                    start = fs.state()
                elif op == "view":
                    x = table.get("- view %s" % view(fs.path(f)), ["?", 0])
                    obs["shown"] = dict(f=x[0], v=x[1])
            except Exception as exc:
                obs["exc"] = type(exc).__name__
            obs["open"] = open_files()
            obs["unchanged"] = fs.state() == start
            steps.append(dict(op=op, n=n, f=f, o=obs))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return dict(id=case["id"], steps=steps)


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    from punx import validate
    import h5py  # noqa: F401
    templates = job["templates"]
    folder = job["folder"]
    os.makedirs(folder, exist_ok=True)
    sets = job["sets"]
    vals = {n: validate.Data_File_Validator(s) for n, s in sets.items()}

    # what each validator tells on each file: found in separate processes
    def reference(n, f, v):
        d = os.path.join(folder, "ref")
        fs = Files(d, templates)
        try:
            if f:
                fs.v[f] = v
                fs.put(f)
                fn = fs.path(f)
                vals[n].validate(fn)
                r = [told(vals[n], "ask"), told(vals[n], "report"), view(fn)]
            else:
                r = [told(vals[n], "ask")]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return r
    # the file name is in the report and the view: all processes use the same folder
    table = {}
    for n in vals:
        r = process(reference, n, "", 0)
        table["%s ask %s" % (n, r[0])] = ["", 0]
        for f in ("good1", "good2"):
            for v in (1, 2):
                a, p, t = process(reference, n, f, v)
                table["%s ask %s" % (n, a)] = [f, v]
                table["%s report %s" % (n, p)] = [f, v]
                table["- view %s" % t] = [f, v]
        # the report when there are no results: no findings at all
        for b in ("text", "folder", "cut"):
            table["%s report %s" % (n, process(empty_report, vals[n], os.path.join(folder, "ref", b + ".hdf5")))] = ["", 0]
    out = []
    for c in job["cases"]:
        out.append(process(run_case, c, vals, os.path.join(folder, "ref"), templates, table))
    with open(sys.argv[2], "w") as f:
        json.dump(dict(cases=out, table=len(table)), f)


def empty_report(v, fname):
    v.fname = fname
    return told(v, "report")


main()
