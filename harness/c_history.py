"""Checks of repeatability (P09) and totality (P10)."""
import glob
import json
import os
import random
import shutil

import common
import gen
import h5model
from c_files import ASSUME, FOCUS, facts, facts_file, folder, h5py_readable, run_cases, user_sets
from c_tree import run_tree
from common import SEED, SETS

CLAUSES = {"catalog", "names", "attrs", "classes", "appdef", "plot", "contents", "summary", "report"}

# ------------------------------------------------------------------ histories


def history(seed, length, user):
    """one process: validators come and go, files are validated, shown, reported, in any order"""
    r = random.Random(seed)
    # sets of a user in every second history: they differ in their definitions and in the names they allow
    mine = r.sample(user, 4) if r.random() < 0.7 else []
    sets = SETS + tuple(mine)
    # what a set of the user holds may be replaced by what another one holds, while validators know the old one
    other = [s for s in user if s not in mine]
    ops, known = [], []
    files = []
    while len(ops) < length:
        i = len(ops)
        z = r.random()
        if not known or (z < (0.07 if len(known) > 2 else 0.3) and len(known) < 6):
            s = r.choice(sets + ("v2018.5", None)) if r.random() < 0.5 or len(sets) == 3 else r.choice(sets[3:])
            known.append(s)
            ops.append(dict(op="new", set=s))
            continue
        if files and z > 0.97:
            # the same file with every validator, there and back
            f = r.choice(files)
            for v in list(range(len(known))) + list(range(len(known)))[::-1]:
                ops.append(dict(op="validate", v=v, again=f))
            continue
        if z < 0.62 or not files:
            v = r.randrange(len(known))
            if files and r.random() < 0.35:
                f = r.choice(files)  # again, with this or another validator
                ops.append(dict(op="validate", v=v, again=f))
                continue
            kind = r.choice(["file", "file", "plots", "plots", "application", "application", "names", "repo"])
            fs = known[v] or "v2018.5"
            if kind == "repo":
                c = dict(repo=r.random())
            else:
                opt = {} if kind != "names" else FOCUS["P02"]["opt"]
                opt = dict(opt, newline=False, odd=r.choice([0.15, 0.4]))
                g = gen.Gen("%s/%d" % (seed, i), facts(fs), depth=3, width=4, **opt)
                c = dict(desc=getattr(g, "file" if kind == "names" else kind)())
            own = [f for f in files if "desc" in ops[f].get("case", {})]
            o = dict(op="validate", v=v, case=c, keep=r.random() < 0.3)
            if own and "desc" in c and r.random() < 0.25:
                o["over"] = r.choice(own)  # a new version of that file
                c["desc"].pop("ext", None)
                if r.random() < 0.6:
                    o["v"] = v = ops[o["over"]]["v"]
                    # often by the validator which has it open
                    ops.append(dict(op="validate", v=v, again=o["over"], keep=True))
            files.append(len(ops))
            ops.append(o)
        elif z < 0.70:
            ops.append(dict(op="bad", v=r.randrange(len(known)), what=r.choice(["missing", "text", "folder"])))
        elif z < 0.76:
            ops.append(dict(op="report", v=r.randrange(len(known))))
        elif z < 0.82:
            ops.append(dict(op="close", v=r.randrange(len(known))))
        elif z < 0.90:
            ops.append(dict(op="tree", f=r.choice(files), attrs=r.random() < 0.5))
        elif mine and other and r.random() < 0.25:
            s = r.choice(mine)
            ops.append(dict(op="replace", set=s, by=r.choice(other + mine)))
            if len(known) < 9:
                known.append(s)
                ops.append(dict(op="new", set=s))
                if files:
                    v = known.index(s) if r.random() < 0.3 else len(known) - 1
                    ops.append(dict(op="validate", v=v, again=r.choice(files)))
                    ops.append(dict(op="validate", v=len(known) - 1, again=r.choice(files)))
        elif z < 0.93:
            ops.append(dict(op="nxdl", set=r.choice(sets), n=r.random()))
        elif z < 0.95:
            ops.append(dict(op="nxdltree", n=r.random()))
        elif z < 0.96:
            ops.append(dict(op="select", set=r.choice(sets + ("none", None))))
        else:
            ops.append(dict(op="manager", set=r.choice(sets)))
    return dict(id=str(seed), ops=ops)


def p09(check, tier, work):
    quick = tier == "quick"
    n, length = (16, 60) if quick else (120, 120)
    user = user_sets(check, work, 6 if quick else 20)
    jobs = [history("%s/h/%d" % (SEED, i), length, user) for i in range(n)]
    repo = sorted(f for f in glob.glob(os.path.join(common.REPO, "punx", "data", "*"))
                  if h5py_readable(f) and os.path.getsize(f) < 400_000)
    sets = SETS + tuple(user)
    nxdl = {s: sorted(glob.glob(os.path.join(folder(s), "*", "*.nxdl.xml"))) for s in sets}
    for s in sets:
        facts_file(s, work)

    def own_config(ix, job):
        """a copy of the file sets which this history may replace"""
        top = work.file("own%d" % ix)
        shutil.copytree(work.file("cfg"), top)
        return top

    def one(ix_job):
        ix, job = ix_job
        r = common.run_worker("w_history.py", dict(history=job, repo=repo, nxdl=nxdl, folder=work.file("h%d" % ix),
                                                    user=work.file("cfg", "punx")), work,
                               env=dict(XDG_CONFIG_HOME=own_config(ix, job)))
        shutil.rmtree(work.file("own%d" % ix))
        out = []
        for s in sets:
            cs = [x for x in r if x["set"] == s]
            if not cs:
                continue
            fn = work.file("h%d-%s.json" % (ix, s))
            with open(fn, "w") as f:
                json.dump(dict(cases=cs, wordchars=sorted(h5model.wordchars([x["file"] for x in cs]))), f)
            t = common.tlc("JudgeFile", "JudgeFile.cfg", work, env=dict(CASES=fn, FACTS=facts_file(s, work)))
            os.remove(fn)
            out.append((s, cs, t))
        return job, out

    total = 0
    for job, res in common.parallel(one, list(enumerate(jobs))):
        for s, cs, t in res:
            check.tlc(t)
            if len(t["lines"]) != len(cs):
                raise common.HarnessError("%d cases, %d verdicts\n%s" % (len(cs), len(t["lines"]), t["out"][-3000:]))
            obs = {c["id"]: c for c in cs}
            for v in t["lines"]:
                total += 1
                check.count(findings_judged=v["n"], items_judged=v["items"])
                for b in v["bad"]:
                    k = v["id"]
                    check.bad("history %s step %s %s" % (job["id"], k, b["clause"]),
                              dict(clause=b["clause"], missing=b["missing"], extra=b["extra"], file_set=s, step=k,
                                   before=[{a: x for a, x in o.items() if a != "case"} for o in job["ops"][:k + 1]]),
                              dict(history=job, recorded=obs[k]["file"], found=obs[k]["obs"]))
    check.count(traces_validated_against_impl=total, histories=n, operations=n * length)
    check.sample("history: %s" % [o["op"] for o in jobs[0]["ops"]])
    check.assumptions += ASSUME


# ------------------------------------------------------------------ totality


def odd_file(seed, f):
    """a random file with unusual objects in it"""
    r = random.Random("odd" + seed)
    g = gen.Gen(seed, f, odd=0.4, weird=0.5, names=0.5, links=0.2, attrs=0.6, depth=3, width=4, collection=0.1)
    d = g.file()

    def walk(x):
        for _, k in list(x["kids"]):
            if k["k"] == "g":
                walk(k)
        for i in range(r.choice([0, 0, 1, 2])):
            nm = "odd%d" % i
            x["kids"].append([r.choice([nm, nm, "signal", "data", "definition"]) if nm not in [a for a, _ in x["kids"]] else nm,
                              dict(k="x", sp=r.choice(h5model.ALL_SPECIAL), attrs=[])])
        seen = set()
        x["kids"] = [k for k in x["kids"] if not (k[0] in seen or seen.add(k[0]))]
        if r.random() < 0.4:
            a = r.choice(["signal", "axes", "target", "default", "odd", "units", "NX_class"])
            x["attrs"] = [z for z in x["attrs"] if z[0] != a] + [[a, dict(t="x", v=r.choice(sorted(h5model.SPECIAL)))]]
        for _, k in x["kids"]:
            if k["k"] == "d" and r.random() < 0.3:
                a = r.choice(["signal", "axes", "target", "odd"])
                k["attrs"] = [z for z in k["attrs"] if z[0] != a] + [[a, dict(t="x", v=r.choice(sorted(h5model.SPECIAL)))]]
    walk(d["root"])
    if r.random() < 0.2:
        d["root"]["how"] = r.choice([dict(libver="latest"), dict(userblock_size=512), dict(libver="earliest"),
                                     dict(fs_strategy="page")])
    return d


def each_special():
    """every special object as dataset and as attribute, with every role that a name may have"""
    out = []
    for sp in h5model.ALL_SPECIAL:
        for nm in ("plain", "definition", "title", "data"):
            k = [[nm, dict(k="x", sp=sp, attrs=[])]]
            e = dict(k="g", attrs=[["NX_class", dict(t="s", v="NXentry")], ["default", dict(t="s", v=nm)]], kids=k)
            out.append(dict(root=dict(k="g", attrs=[["default", dict(t="s", v="e")]], kids=[["e", e]])))
    for sp in sorted(h5model.SPECIAL):
        for a in ("NX_class", "signal", "axes", "target", "default", "units"):
            at = [[a, dict(t="x", v=sp)]]
            x = dict(k="d", v=dict(t="shape", v=[3]), attrs=at if a != "NX_class" else [])
            dt = dict(k="g", attrs=(at if a == "NX_class" else at + [["NX_class", dict(t="s", v="NXdata")]]), kids=[["x", x]])
            e = dict(k="g", attrs=[["NX_class", dict(t="s", v="NXentry")]] + (at if a != "NX_class" else []), kids=[["d", dt]])
            out.append(dict(root=dict(k="g", attrs=at, kids=[["e", e]])))
    return out


def nested(depth, cls):
    k = dict(k="g", attrs=[["NX_class", dict(t="s", v=cls)]], kids=[["x", dict(k="d", v=dict(t="i", v=1), attrs=[])]])
    for _ in range(depth):
        k = dict(k="g", attrs=[["NX_class", dict(t="s", v=cls)]], kids=[["g", k]])
    return dict(root=dict(k="g", attrs=[], kids=[["e", k]]))


def p10(check, tier, work):
    quick = tier == "quick"
    n = 240 if quick else 8000
    own = {"none"}
    f = facts("v2018.5")
    fixed = each_special()
    fixed += [nested(60, c) for c in ("NXentry", "NXcollection", "none")]
    fixed.append(dict(root=dict(k="g", attrs=[], kids=[["e", dict(k="g", attrs=[["NX_class", dict(t="s", v="NXentry")]], kids=[
        ["f%d" % i, dict(k="d", v=dict(t="i", v=i), attrs=[])] for i in range(1500)])]])))
    fixed.append(dict(root=dict(k="g", attrs=[], kids=[])))
    fixed = [dict(id=i, desc=d) for i, d in enumerate(fixed)]
    part = random.Random("%s/p10" % SEED).sample(fixed[:-5], 160) + fixed[-5:] if quick else fixed
    odd = [dict(id=i, desc=odd_file("%s/p10/%d" % (SEED, i), f)) for i in range(n)]
    for tag, cases in (("special", part), ("odd", odd)):
        for c in cases:
            c["choices"] = [[]]
        run_cases(check, work, "v2018.5", cases, own, tag, size=60)
        run_tree(check, work, cases, 5, "tree-" + tag, size=60, clauses={"exception"})
    small = [dict(c, id=c["id"]) for c in odd[: n // 6]]
    for s in ["v3.3", "a4fd52d"] + user_sets(check, work, 2 if quick else 12):
        run_cases(check, work, s, small, own, "odd-" + s)
    check.assumptions += ASSUME + ["what is judged here is that validation, report and view come to their end; what they say "
                                   "is judged by the other properties"]
    check.cov["special_objects"] = len(h5model.ALL_SPECIAL)
