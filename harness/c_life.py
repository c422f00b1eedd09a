"""Check of the life of validators (P11)."""
import json
import os
import random
import shutil

import common
import gen
import h5model
from c_files import facts
from common import SEED

SETS2 = dict(v1="v2018.5", v2="v3.3")


def templates(work):
    d = work.file("templates")
    os.makedirs(d)
    for i, f in enumerate(("good1-1", "good1-2", "good2-1", "good2-2")):
        g = gen.Gen("%s/life/%s" % (SEED, f), facts("v2018.5"), depth=3, width=4, links=0.1, ext=0, weird=0.05)
        desc = g.file()
        # a field which tells the versions apart, and a data group, so that much is found
        desc["root"]["kids"].append(["version_%d" % i, dict(
            k="g", attrs=[["NX_class", dict(t="s", v=["NXentry", "NXdata", "NXlog", "NXuser"][i])]], kids=[])])
        desc.pop("ext", None)
        fn = h5model.build(desc, d, f)
        os.rename(fn, os.path.join(d, f))
    with open(os.path.join(d, "text"), "w") as f:
        f.write("this is no HDF5 file\n" * 50)
    with open(os.path.join(d, "good1-1"), "rb") as f:
        b = f.read()
    with open(os.path.join(d, "cut"), "wb") as f:
        f.write(b[: len(b) // 3])
    return d


def replay(check, work, cases, tag, two, tpl):
    names = {n: SETS2[n] for n in (("v1", "v2") if two else ("v1",))}

    def one(ix_chunk):
        ix, ch = ix_chunk
        r = common.run_worker("w_life.py", dict(cases=ch, sets=names, templates=tpl, folder=work.file("%s-%d" % (tag, ix))), work)
        fn = work.file("%s-%d.json" % (tag, ix))
        with open(fn, "w") as f:
            json.dump(dict(cases=r["cases"], names=sorted(names), good=["good1", "good2"], bad=["text", "folder", "cut"],
                           missing=["missing"]), f)
        t = common.tlc("JudgeLifecycle", "JudgeLifecycle.cfg", work, env=dict(CASES=fn))
        os.remove(fn)
        return ch, r["cases"], t

    for ch, r, t in common.parallel(one, list(enumerate(common.chunks(cases, 8)))):
        check.tlc(t)
        if len(t["lines"]) != len(ch):
            raise common.HarnessError("%d cases, %d verdicts\n%s" % (len(ch), len(t["lines"]), t["out"][-3000:]))
        by = {c["id"]: c for c in ch}
        for v in t["lines"]:
            check.count(traces_validated_against_impl=1, operations=v["n"])
            for b in v["bad"]:
                check.bad("%s %s" % (tag, v["id"]), b, dict(case=by[v["id"]], observed=[x for x in r if x["id"] == v["id"]]))
    check.sample("%s: %s" % (tag, json.dumps(cases[0])))


def p11(check, tier, work):
    tpl = templates(work)
    quick = tier == "quick"
    r = random.Random("%s/life" % SEED)

    def sequences(depth, two, limit, tag, args=()):
        t = common.tlc("MC_Lifecycle", "MC_Lifecycle.cfg", work, workers=1 if args else 4, args=args, timeout=900,
                       env=dict(DEPTH=str(depth), TWO="yes" if two else "no"))
        check.tlc(t)
        hs = [h for h in t["lines"]]
        # a sequence that tells nothing at its end shows no more than what is open
        n = len(hs)
        if limit and len(hs) > limit:
            r.shuffle(hs)
            hs = hs[:limit]
        for h in hs:
            for o in h:
                if o["op"] == "validate" and r.random() < 0.2:
                    o["path"] = True
        check.cov.setdefault("sequences", {})[tag] = dict(enumerated=n, replayed=len(hs))
        replay(check, work, [dict(id=i, ops=h) for i, h in enumerate(hs)], tag, two, tpl)

    sequences(2, False, 0, "all2")
    sequences(3, False, 1600 if quick else 0, "all3")
    sequences(4, False, 800 if quick else 60000, "all4")
    sequences(3, True, 600 if quick else 0, "two3")
    sequences(14, True, 250 if quick else 6000, "long", ("-simulate", "num=%d" % (250 if quick else 6000), "-depth", "15", "-seed", str(SEED)))
    check.assumptions += ["HDF5 files are open in the process exactly when the HDF5 library lists them",
                          "results are told apart by digests of findings, catalog, summary, score, report and view"]
    shutil.rmtree(tpl)


CHECKS = dict(P11=p11)
