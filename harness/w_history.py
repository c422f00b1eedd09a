"""worker: one history of operations in one process; every validation in it is recorded"""
import contextlib
import io
import json
import logging
import os
import shutil
import sys

logging.disable(logging.CRITICAL)


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    import h5model
    import lxml.etree
    import observe
    from punx import cache_manager, h5tree, nxdl_manager, nxdltree, validate
    folder = job["folder"]
    os.makedirs(folder)
    bad = dict(missing=os.path.join(folder, "missing.h5"), text=os.path.join(folder, "text.h5"),
               folder=os.path.join(folder, "folder.h5"))
    with open(bad["text"], "w") as f:
        f.write("no HDF5\n")
    os.makedirs(bad["folder"])
    vals, sets, files, out = [], [], {}, []
    holds = {}  # what a replaced file set holds: that of this other one
    users = os.path.join(os.environ["XDG_CONFIG_HOME"], "punx")
    sink = io.StringIO()

    def quietly(fn, *a):
        """what other operations do is not judged here"""
        try:
            with contextlib.redirect_stdout(sink):
                fn(*a)
        except Exception:
            pass

    for i, o in enumerate(job["history"]["ops"]):
        op = o["op"]
        if op == "new":
            # no name: the file set which is the default now (see property P14)
            fs = o["set"] or cache_manager.CacheManager().default_file_set.ref
            sets.append(holds.get(fs, fs))
            vals.append(validate.Data_File_Validator(o["set"]))
        elif op == "validate":
            if "again" in o:
                fname = files[o["again"]]
            elif "repo" in o["case"]:
                fname = job["repo"][int(o["case"]["repo"] * len(job["repo"]))]
            else:
                fname = h5model.build(o["case"]["desc"], folder, "f%d" % i)
                if o.get("over") in files:
                    os.replace(fname, files[o["over"]])
                    fname = files[o["over"]]
            files[i] = fname
            m = h5model.record(fname)
            obs = observe.validate(vals[o["v"]], fname, [[], ["ERROR", "NOTE"]], close=not o.get("keep"))
            out.append(dict(id=i, set=sets[o["v"]], file=m, obs=obs))
        elif op == "bad":
            quietly(vals[o["v"]].validate, bad[o["what"]])
        elif op == "report":
            quietly(vals[o["v"]].print_report)
        elif op == "close":
            quietly(vals[o["v"]].close)
        elif op == "tree":
            if o["f"] in files:
                quietly(h5tree.Hdf5TreeView(files[o["f"]]).report, o["attrs"])
        elif op == "nxdl":
            fl = job["nxdl"][o["set"]]
            quietly(lambda: nxdl_manager.validate_xml_tree(
                lxml.etree.parse(fl[int(o["n"] * len(fl))]),
                cache_manager.CacheManager().select_NXDL_file_set(o["set"])))
        elif op == "nxdltree":
            fl = job["nxdl"]["v2018.5"]
            quietly(lambda: nxdltree.NxdlTreeView(fl[int(o["n"] * len(fl))]).report())
        elif op == "replace":
            here = os.path.join(users, o["set"])
            with open(os.path.join(here, "__github_info__.json")) as f:
                info = f.read()
            shutil.rmtree(here)
            shutil.copytree(os.path.join(job["user"], o["by"]), here)
            with open(os.path.join(here, "__github_info__.json"), "w") as f:
                f.write(info)
            holds[o["set"]] = o["by"]
        elif op == "select":
            quietly(cache_manager.CacheManager().select_NXDL_file_set, o["set"])
        elif op == "manager":
            quietly(lambda: nxdl_manager.NXDL_Manager(o["set"]).classes["NXentry"])
    for v in vals:
        quietly(v.close)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


main()
