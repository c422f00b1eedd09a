"""worker: make or take HDF5 files, record them, validate them with punx"""
import json
import logging
import os
import sys

logging.disable(logging.CRITICAL)


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    import h5model
    import observe
    out = []
    from punx import validate
    validator = None
    folder = job["folder"]
    os.makedirs(folder, exist_ok=True)
    for c in job["cases"]:
        stem = "c%s_%d" % (c["id"], os.getpid())
        if "path" in c:
            fname = c["path"]
        elif "graph" in c:
            fname = os.path.join(folder, stem + ".h5")
            h5model.build_graph(c["graph"], fname)
        else:
            fname = h5model.build(c["desc"], folder, stem)
        try:
            m = h5model.record(fname)
            if validator is None or job.get("fresh"):
                validator = validate.Data_File_Validator(job["set"])
            o = observe.validate(validator, fname, c.get("choices", ()))
            out.append(dict(id=c["id"], file=m, obs=o))
        finally:
            if "path" not in c:
                h5model.remove(folder, stem)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


main()
