"""worker: make HDF5 files, record them, show them with the tree view of punx"""
import json
import logging
import os
import sys

logging.disable(logging.CRITICAL)


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    import h5model
    from observe import limited
    from punx import h5tree
    out = []
    os.makedirs(job["folder"], exist_ok=True)
    for c in job["cases"]:
        stem = "c%s_%d" % (c["id"], os.getpid())
        if "path" in c:
            fname = c["path"]
        elif "graph" in c:
            fname = os.path.join(job["folder"], stem + ".h5")
            h5model.build_graph(c["graph"], fname)
        else:
            fname = h5model.build(c["desc"], job["folder"], stem)
        try:
            m = h5model.record(fname, tree=True)
            o = dict(exc="", attrs=[], plain=[])
            try:
                # the order of use must not matter
                with limited():
                    for k in (("attrs", "plain") if c["id"] % 2 else ("plain", "attrs")):
                        t = h5tree.Hdf5TreeView(fname)
                        t.array_items_shown = job["limit"]
                        if c["id"] % 3 == 0:
                            t.report(k != "attrs")
                        o[k] = t.report(k == "attrs")
            except Exception as exc:
                o["exc"] = type(exc).__name__ + ": " + str(exc)[:200]
            out.append(dict(id=c["id"], file=m, obs=o, name=fname))
        finally:
            if "path" not in c:
                h5model.remove(job["folder"], stem)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


main()
