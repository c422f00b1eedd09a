"""Checks of the command line (P20: what is understood, P21: what is shown and returned)."""
import json
import os
import random
import re
import shutil

import common
import gen
import h5model
import nxdlgen as G
from c_nxdl import CACHE, CATS, Sets
from common import SEED

BASE = "NXroot NXentry NXdata NXsubentry NXcollection NXinstrument NXdetector NXsample NXuser NXnote NXobject".split()
APPS = "NXarchive NXsas".split()


def world(work, seed):
    """file sets, and files in the working directory of the commands"""
    sets = Sets(work)
    for name, base, date, drop in (("small", "v2018.5", "2019-12-31 23:59:59", ()), ("v3.3", "v3.3", "2001-01-01 00:00:00", ("NXdetector", "NXuser")),
                                   ("a4fd52d", "v2018.5", "2019-05-05 01:02:03", ("NXdata",)), ("one", "v2018.5", "2002-01-01 00:00:00", ("NXsample",))):
        files = []
        for cat, names in (("base_classes", BASE), ("applications", APPS)):
            for n in names:
                fn = os.path.join(CACHE, base, cat, n + ".nxdl.xml")
                if n not in drop and os.path.exists(fn):
                    with open(fn, encoding="utf8") as f:
                        files.append((cat, n + ".nxdl.xml", f.read()))
        p = sets.make(name, base=base, files=files)
        for c in CATS:
            shutil.copy(os.path.join(CACHE, base, c, "nxdlformat.xsl"), os.path.join(p, c))
        fn = os.path.join(p, "__github_info__.json")
        with open(fn) as f:
            x = json.load(f)
        x["last_modified"] = date
        with open(fn, "w") as f:
            json.dump(x, f)
    listed = {}
    for c, top in (("source", CACHE), ("user", sets.top)):
        for n in os.listdir(top):
            fn = os.path.join(top, n, "__github_info__.json")
            if os.path.exists(fn):
                with open(fn) as f:
                    x = json.load(f)
                listed[n] = dict(n=n, c=c, date=x["last_modified"], sha=x["sha"][:7], path=os.path.join(top, n))
    dates = sorted({s["date"] for s in listed.values()})
    for s in listed.values():
        s["rank"] = dates.index(s["date"]) + 1
    cwd = work.file("w")
    os.makedirs(os.path.join(cwd, "folder"))
    os.makedirs(os.path.join(cwd, "sub"))
    kinds = {}
    r = random.Random("%s/files" % seed)
    T = lambda s: dict(t="s", v=s)  # noqa: E731
    good = dict(root=dict(k="g", attrs=[["default", T("e")]], kids=[["e", dict(k="g", attrs=[["NX_class", T("NXentry")], ["default", T("d")]], kids=[
        ["d", dict(k="g", attrs=[["NX_class", T("NXdata")], ["signal", T("y")], ["axes", T("x")]], kids=[
            ["y", dict(k="d", v=dict(t="shape", v=[7]), attrs=[["units", T("m")]])],
            ["x", dict(k="d", v=dict(t="shape", v=[7, 4]), attrs=[])]])],
        ["title", dict(k="d", v=T("a title"), attrs=[])]])]]))
    bad = dict(root=dict(k="g", attrs=[], kids=[["E", dict(k="g", attrs=[["NX_class", T("NXentry")], ["default", T("nothing")]], kids=[
        ["definition", dict(k="d", v=T("NXsas"), attrs=[])],
        ["Data", dict(k="g", attrs=[["NX_class", T("NXdata")], ["signal", T("none")]], kids=[["v", dict(k="d", v=dict(t="shape", v=[3, 3, 9]), attrs=[])]])],
        ["other", dict(k="g", attrs=[["NX_class", T("NXnonesuch")]], kids=[["1x", dict(k="d", v=T("t"), attrs=[])]])],
        ["plain", dict(k="g", attrs=[], kids=[])]])]]))
    for name, d in (("a.h5", good), ("b.h5", bad), ("plain", good), ("dotted.nxs.h5", bad), ("sub/c.nx", good)):
        fn = h5model.build(d, work.file("tmp"), "w")
        shutil.move(fn, os.path.join(cwd, name))
        kinds[name] = "h5"
    shutil.copy(os.path.join(cwd, "a.h5"), os.path.join(cwd, "hdf.nxdl.xml"))
    kinds["hdf.nxdl.xml"] = "no xml"
    with open(os.path.join(cwd, "a.h5"), "rb") as f, open(os.path.join(cwd, "short.h5"), "wb") as g:
        g.write(f.read(400))
    kinds.update({"short.h5": "cut", "folder": "folder", "text.txt": "text"})
    with open(os.path.join(cwd, "text.txt"), "w") as f:
        f.write("some text\n")
    d = G.definition(r, depth=1)
    for n, text, k in (("good.nxdl.xml", G.write(d), "nxdl"), ("broken.nxdl.xml", G.write(d)[:-40], "no xml"),
                       ("bad.nxdl.xml", G.write(dict(d, c=d["c"] + [G.E("field", {"nam": "x"})])), "nxdl invalid")):
        with open(os.path.join(cwd, n), "w", encoding="utf8") as f:
            f.write(text)
        kinds[n] = k
    demo = os.path.join(common.REPO, "punx", "data", "writer_1_3.hdf5")
    kinds[demo] = "h5"
    return cwd, dict(files=kinds, sets=[listed[n] for n in sorted(listed)], demo=demo, other=["v3.3"], down=[dict(n=n, date="2020-01-02 03:04:%02d" % (2 * i + 2), path=os.path.join(sets.top, n))
                                                                                for i, n in enumerate("one two late main three".split())])


def run(check, work, w, cwd, lines, tag):
    """command lines: (argv)"""
    cases = [dict(id=i, argv=a, install=a[:1] != [] and "install".startswith(a[0]) and len(a[0]) > 1) for i, a in enumerate(lines)]
    # what the package itself gives for these files
    sets = [s["n"] for s in w["sets"]]
    newest = max(w["sets"], key=lambda s: s["rank"])["n"]
    need = {}
    for c in cases:
        files = [x for x in c["argv"] if x in w["files"]]
        if c["argv"] and c["argv"][0][:2] == "de":
            files.append(w["demo"])
        for f in files:
            if w["files"][f] == "h5":
                for s in {newest} | {x for x in sets if any(x in y for y in c["argv"])}:
                    need["%s|%s" % (f, s)] = dict(kind="report", file=f, set=s)
                for m in {"5"} | {x.lstrip(z) for y in c["argv"] for x in re.findall(r"[-+]?\d+", y) for z in ("+", "-")}:
                    if m[:1] != "+":
                        for a in (True, False):
                            need["%s|%s|%s" % (f, int(m), "FT"[a])] = dict(kind="tree", file=f, max=int(m), attrs=a)
            elif w["files"][f].startswith("nxdl"):
                for a in (True, False):
                    need["%s||%s" % (f, "FT"[a])] = dict(kind="tree", file=f, attrs=a)
    keys = sorted(need)
    paths = [os.path.join(cwd, f) for f in w["files"]]
    job = dict(cfg=work.file("cfg"), cwd=cwd, paths=paths)
    parts = common.chunks(cases, 8)
    kparts = [keys[i::8] for i in range(8)]

    def one(i):
        return common.run_worker("w_cli.py", dict(job, folder=work.file("%s-%d" % (tag, i)), cases=parts[i] if i < len(parts) else [],
                                                  refs=[need[k] for k in kparts[i]]), work, timeout=850)
    res = common.parallel(one, list(range(8)))
    refs = {}
    for ks, r in zip(kparts, res):
        refs.update(zip(ks, r["refs"]))

    def judge(i):
        fn = work.file("%s-%d.json" % (tag, i))
        with open(fn, "w") as f:
            json.dump(dict(world=dict(w, refs={k: x for k, x in refs.items() if x is not None}), cases=res[i]["cases"]), f)
        t = common.tlc("JudgeCli", "JudgeCli.cfg", work, env=dict(CASES=fn))
        os.remove(fn)
        return t
    odd = {k.split("|")[0] for k, x in refs.items() if x is None}
    check.count(files_with_odd_text=len(odd))
    for x in res:
        x["cases"] = [c for c in x["cases"] if not odd & set(c["argv"])]
    how = check.cov.setdefault("requests", {})
    for i, t in zip(range(len(parts)), common.parallel(judge, range(len(parts)))):
        check.tlc(t)
        if len(t["lines"]) != len(res[i]["cases"]):
            raise common.HarnessError("%d cases, %d verdicts\n%s" % (len(parts[i]), len(t["lines"]), t["out"][-3000:]))
        for v in t["lines"]:
            check.count(traces_validated_against_impl=1)
            k = "%s %s" % (v["how"], v["cmd"])
            how[k] = how.get(k, 0) + 1
            for b in v["bad"]:
                check.bad("%s %s %s" % (tag, b["clause"], json.dumps(lines[v["id"]])), b, dict(argv=lines[v["id"]]))
    check.sample("%s: %s" % (tag, json.dumps(lines[len(lines) // 2])))


def p20(check, tier, work):
    quick = tier == "quick"
    t = common.tlc("MC_Cli", "MC_Cli.cfg" if quick else "MC_Cli5.cfg", work, workers=4)
    check.tlc(t)
    r = random.Random("%s/cli" % SEED)
    lines = sorted(t["lines"], key=lambda x: json.dumps(x["argv"]))
    check.cov["command lines"] = len(lines)
    r.shuffle(lines)
    n = dict(tree=320, validate=160, install=160, configuration=80, demonstrate=30) if quick else dict(tree=6000, validate=3000, install=2000, configuration=200, demonstrate=60)
    take, count = [], {}
    for x in lines:
        # all that are short, and of the others as many of each outcome
        k = (x["how"], x["cmd"])
        limit = n.get(x["cmd"], 1000) // 2
        if x["cmd"] == "demonstrate" and x["how"] == "run" and quick:
            limit = 4
        elif len(x["argv"]) <= 2:
            limit = 10000
        if count.get(k, 0) < limit:
            count[k] = count.get(k, 0) + 1
            take.append(x["argv"])
    cwd, w = world(work, SEED)
    run(check, work, w, cwd, take, "lines")
    check.assumptions += ["names to install are given together, as argparse demands", "no word is just two dashes"]


def p21(check, tier, work):
    quick = tier == "quick"
    t = common.tlc("MC_CliRun", "MC_CliRun.cfg" if quick else "MC_CliRun3.cfg", work, workers=4)
    check.tlc(t)
    r = random.Random("%s/clirun" % SEED)
    lines = sorted({json.dumps(x["argv"]) for x in t["lines"]})
    check.cov["requests of the model"] = len(lines)
    r.shuffle(lines)
    lines = [json.loads(x) for x in lines]
    wide = [x for x in lines if "," in "".join(x)]
    lines = [x for x in lines if "," not in "".join(x)]
    lines += wide[:120 if quick else 6000]
    if quick:
        r.shuffle(lines)
        rare = [x for x in lines if x[0] in ("configuration", "demonstrate")]
        lines = rare + [x for x in lines if x[0] not in ("configuration", "demonstrate")][:420]
    for names in (["main"], ["one"], ["two", "one"], ["gone"], ["two", "gone", "three"], ["three", "two", "main"], ["small", "two"],
                  ["late"], ["offline"], ["two", "late"], ["late", "three"], ["one", "offline", "two"], ["late", "offline"], ["small", "offline"]):
        lines += [["install"] + names, ["install", "-u"] + names]
    cwd, w = world(work, SEED)
    run(check, work, w, cwd, lines, "requests")
    # a file is what its name says, by the end of the name
    lines = []
    for i, n in enumerate(["a.nxdl.xml.h5", "b.nxdl.nxs", "nxdl.xml", ".nxdl.xml", "c.NXDL.XML", "d.nxdl.xml.bak", "e.nxdl", "f.xml", "has space.h5",
                           "has space.nxdl.xml", "\u00e9t\u00e9.h5", "\u00e9t\u00e9.nxdl.xml", "in.nxdl.xml/a.h5", "in.h5/b.nxdl.xml", "NXdata", "g.nxdl.xml ",
                           "two.nxdl.xml.nxdl.xml", "%41.h5", "h;1.h5", "-x/a.h5", "i.tar.gz"]):
        for kind, source in (("h5", "a.h5"), ("nxdl", "good.nxdl.xml")):
            f = os.path.join(kind, n)
            os.makedirs(os.path.dirname(os.path.join(cwd, f)), exist_ok=True)
            shutil.copy(os.path.join(cwd, source), os.path.join(cwd, f))
            w["files"][f] = kind if kind == "h5" or n.endswith(".nxdl.xml") else "text"
            if kind == "h5" and n.endswith(".nxdl.xml"):
                w["files"][f] = "no xml"
            for p in (f, os.path.join(cwd, f), "./" + f)[i % 3:][:1]:
                w["files"][p] = w["files"][f]
                lines += [["validate", p], ["tree", p]]
    run(check, work, w, cwd, lines, "names")
    # other data files, with sets that are installed
    import nxdlfacts  # noqa: F401
    from c_files import facts
    f = facts("v2018.5")
    more = []
    for i in range(60 if quick else 1500):
        name = "gen%d.h5" % i
        fn = h5model.build(gen.Gen("%s/cli/%d" % (SEED, i), f, names=0, weird=0.05, links=0.1).file(), work.file("tmp"), "g%d" % i)
        os.replace(fn, os.path.join(cwd, name))
        w["files"][name] = "h5"
        st = r.sample(["OK", "NOTE", "WARN", "ERROR", "TODO", "OPTIONAL", "UNUSED", "COMMENT"], r.choice([1, 2, 3, 5]))
        more.append(["validate", name, "--report", ",".join(x.lower() if r.random() < 0.3 else x for x in st)])
        more.append(["tree", "-m", str(r.randrange(9)), name] + (["-a"] if r.random() < 0.5 else []))
        if i % 4 == 0:
            more.append(["validate", "-f", r.choice(["v3.3", "a4fd52d", "one"]), name])
    run(check, work, w, cwd, more, "files")
    check.assumptions += ["what validation and tree view give for a file is judged by P01 to P13", "archives are made up, the network is replaced"]


CHECKS = dict(P20=p20, P21=p21)
