"""Checks of the properties of data file validation (P01-P10).

Every case is a HDF5 file.  It is written, recorded as a graph (h5py only), and
validated by punx; TLC judges the recording with the specification (JudgeFile).
Cases come from: small universes which TLC enumerates (and checks invariants of
the specification on), seeded random files with a focus, and files in the repository.
"""
import glob
import json
import os
import random

import common
import gen
import h5model
import nxdlfacts
import usersets
from common import SEED, SETS

FACTS = {}
FOLDERS = {}  # of file sets in the user cache


def folder(fs):
    return FOLDERS.get(fs) or os.path.join(common.REPO, "punx", "cache", fs)


def facts(fs):
    if fs not in FACTS:
        FACTS[fs] = nxdlfacts.facts(folder(fs))
    return FACTS[fs]


def facts_file(fs, work):
    fn = work.file("facts-%s.json" % fs)
    if not os.path.exists(fn):
        tmp = fn + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(dict(defs=facts(fs), **nxdlfacts.name_patterns(folder(fs))), f)
        os.rename(tmp, fn)
    return fn


def run_cases(check, work, fs, cases, clauses, tag, nproc=None, size=150, **job):
    """write, record, validate and judge the cases of one file set"""
    ff = facts_file(fs, work)
    stats = dict(judged=0, items=0, findings=0, unjudged=0)

    def one(ix_chunk):
        ix, ch = ix_chunk
        r = common.run_worker("w_files.py", dict(cases=ch, set=fs, folder=work.file("%s-%s-%d" % (tag, fs, ix)), **job), work)
        fn = work.file("%s-%s-%d.json" % (tag, fs, ix))
        with open(fn, "w") as f:
            json.dump(dict(cases=r, wordchars=sorted(h5model.wordchars([x["file"] for x in r]))), f)
        t = common.tlc("JudgeFile", "JudgeFile.cfg", work, env=dict(CASES=fn, FACTS=ff))
        os.remove(fn)
        return ch, r, t

    n = max(1, -(-len(cases) // size))
    jobs = [(i, c) for i, c in enumerate(common.chunks(cases, n)) if c]
    for ch, r, t in common.parallel(one, jobs, nproc or common.NPROC):
        check.tlc(t)
        if len(t["lines"]) != len(ch):
            raise common.HarnessError("%d cases, %d verdicts\n%s" % (len(ch), len(t["lines"]), t["out"][-3000:]))
        by = {c["id"]: c for c in ch}
        obs = {c["id"]: c for c in r}
        for v in t["lines"]:
            stats["judged"] += 1
            stats["items"] += v["items"]
            stats["findings"] += v["n"]
            for b in v["bad"]:
                if b["clause"] in clauses or b["clause"] in ("exception", "refusal"):
                    c = by[v["id"]]
                    check.bad("%s %s %s" % (fs, b["clause"], c["id"]),
                              dict(clause=b["clause"], missing=b["missing"], extra=b["extra"], file_set=fs),
                              dict(case=c, recorded=obs[v["id"]]["file"], found=obs[v["id"]]["obs"]))
                else:
                    stats["unjudged"] += 1
    check.count(traces_validated_against_impl=stats["judged"], items_judged=stats["items"],
                findings_judged=stats["findings"], disagreements_of_other_clauses=stats["unjudged"])
    if cases:
        check.sample("%s %s: %s" % (fs, tag, json.dumps(cases[0])[:400]))
    return stats


def user_sets(check, work, n):
    """file sets of a user: changed and made up definitions, other name patterns"""
    names = []
    for i in range(n):
        fs = "user%d" % i
        FOLDERS[fs] = usersets.make(work, fs, i)
        names.append(fs)
    check.count(user_file_sets=n)
    return names


def random_cases(check, work, n, focus, clauses, tag="random", sets=SETS, **job):
    """n random files, shared between the file sets"""
    share = dict({"v2018.5": 0.5, "v3.3": 0.25, "a4fd52d": 0.25}, **{s: 0.25 for s in FOLDERS})
    tot = sum(share[s] for s in sets)

    def one(fs):
        k = int(n * share[fs] / tot)
        f = facts(fs)
        cases = []
        for i in range(k):
            g = gen.Gen("%s/%s/%s/%d" % (SEED, tag, fs, i), f, **focus.get("opt", {}))
            cases.append(dict(id=i, desc=getattr(g, focus.get("make", "file"))()))
        return run_cases(check, work, fs, cases, clauses, tag, nproc=4, **job)

    return common.parallel(one, list(sets), 3 if len(sets) < 4 else 6)


def data_files(check, work, clauses, limit=None):
    """the example data of the repository"""
    fl = sorted(glob.glob(os.path.join(common.REPO, "punx", "data", "*")))
    fl = [f for f in fl if h5py_readable(f) and os.path.getsize(f) < 3_000_000]
    cases = [dict(id=os.path.basename(f), path=f) for f in fl[:limit]]
    return run_cases(check, work, "v2018.5", cases, clauses, "data", size=4)


def large_files(check, work, clauses, n, opt=None, tag="large", **job):
    """deep and wide files"""
    f = facts("v2018.5")
    cases = [dict(id=i, desc=getattr(gen.Gen("%s/large/%d" % (SEED, i), f, **dict(opt or {}, attrs=0.3)), "wide" if i % 3 == 0 else "deep")())
             for i in range(n)]
    return run_cases(check, work, "v2018.5", cases, clauses, tag, size=6, **job)


def every_class(check, work, clauses, sets, prepare=list, **job):
    """every definition of these file sets, with names of attributes that mean something"""
    def one(fs):
        r = random.Random("%s/every/%s" % (SEED, fs))
        cases, names = [], sorted(facts(fs)) + ["NXfoo"]
        r.shuffle(names)
        for i in range(0, len(names), 12):
            kids = []
            for j, c in enumerate(names[i:i + 12]):
                at = [["NX_class", dict(t="s", v=c)]] + [[k, dict(t="s", v=r.choice(["x", "none"]))] for k in ("default", "signal", "axes") if r.random() < 0.4]
                kids.append(["g%d" % j, dict(k="g", attrs=at, kids=[["x", dict(k="d", v=dict(t="i", v=1), attrs=[])]])])
            root = dict(k="g", attrs=[], kids=kids)
            if r.random() < 0.6:
                root["kids"] = [["e", dict(k="g", attrs=[["NX_class", dict(t="s", v="NXentry")]], kids=kids)]]
            cases.append(dict(id=i, desc=dict(root=root)))
        return run_cases(check, work, fs, prepare(cases), clauses, "every", nproc=2, **job)
    return common.parallel(one, list(sets), 6)


def h5py_readable(f):
    import h5py
    return h5py.is_hdf5(f)


def universe(check, work, which, clauses, quick, tier, fs="v2018.5", limit=600):
    """TLC enumerates a small universe, checks the invariants there; its files are replayed"""
    t = common.tlc("MC_Universe", "MC_Universe.cfg", work, workers=4,
                   env=dict(WHICH=which, FACTS=facts_file(fs, work)), timeout=1500)
    check.tlc(t)
    graphs = sorted(t["lines"], key=lambda x: json.dumps(x, sort_keys=True))
    if not graphs:
        raise common.HarnessError("empty universe " + which + t["out"][-2000:])
    total = len(graphs)
    if tier == "quick" and total > limit:
        random.Random("%s/%s" % (SEED, which)).shuffle(graphs)
        graphs = graphs[:limit]
    cases = [dict(id=i, graph=g) for i, g in enumerate(graphs)]
    run_cases(check, work, fs, cases, clauses, "u-" + which)
    check.cov.setdefault("universes", {})[which] = dict(enumerated=total, replayed=len(cases))


# focus: generator options, clauses which decide the property
FOCUS = dict(
    P01=dict(opt=dict(links=0.35, odd=0.3, weird=0.1, attrs=0.25, depth=5, width=4, order=0.3), clauses={"catalog"},
             universes=["links"]),
    P02=dict(opt=dict(names=0.6, links=0.08, attrs=0.55, collection=0.15, at=0.06), clauses={"names"},
             universes=["names"]),
    P03=dict(opt=dict(odd=0.5, weird=0.3, links=0.05, attrs=0.2), clauses={"classes"}, universes=["classes"]),
    P04=dict(opt=dict(odd=0.05, weird=0.1, names=0.1, attrs=0.65, links=0.08), clauses={"contents"},
             universes=["contents"]),
    P05=dict(opt=dict(at=0.05, odd=0.1, weird=0.25, attrs=0.8, links=0.15, names=0.3), clauses={"attrs"}, universes=["paths"]),
    P06=dict(opt=dict(weird=0.08, links=0.1), make="plots", clauses={"plot"}, universes=["plot"]),
    P07=dict(opt=dict(weird=0.08, links=0.05), make="application", clauses={"appdef"}, universes=["appdef"]),
)


def focused(prop):
    f = FOCUS[prop]

    def run(check, tier, work):
        n = 500 if tier == "quick" else 12000
        for u in f["universes"]:
            universe(check, work, u, f["clauses"], True, tier)
        random_cases(check, work, n, f, f["clauses"])
        # files of every kind, too
        random_cases(check, work, n // 4, {}, f["clauses"], tag="any")
        data_files(check, work, f["clauses"], None if tier != "quick" else 8)
        large_files(check, work, f["clauses"], 48 if tier == "quick" else 600, f.get("opt", {}))
        users = user_sets(check, work, 6 if tier == "quick" else 30)
        random_cases(check, work, n // 2, f, f["clauses"], tag="user", sets=users)
        every_class(check, work, f["clauses"], users)
        check.assumptions += ASSUME
    return run


STATUS = "OK NOTE WARN ERROR TODO UNUSED COMMENT OPTIONAL".split()


def p08(check, tier, work):
    """summaries and printed reports"""
    n = 400 if tier == "quick" else 8000
    subsets = [[s for b, s in enumerate(STATUS) if k >> b & 1] for k in range(256)]  # all of them; 0: no choice

    def with_choices(cases, k):
        for i, c in enumerate(cases):
            r = random.Random("%s/%d" % (SEED, i))
            c["choices"] = [subsets[(i * k + j) % 256] for j in range(k)] + [[], [r.choice(STATUS)]]
        return cases
    clauses = {"report", "summary"}
    opts = (("plain", dict(newline=False)), ("odd", dict(newline=False, odd=0.5, weird=0.4, attrs=0.7)),
            ("good", dict(newline=False, odd=0, weird=0, names=0, links=0)),
            ("long", dict(newline=False, long=0.15)))

    def one(fs):
        for tag, opt in opts:
            k = n // 3 // (1 if fs == "v2018.5" else 4)
            cases = [dict(id=i, desc=gen.Gen("%s/r%s/%s/%d" % (SEED, tag, fs, i), facts(fs), **opt).file())
                     for i in range(k)]
            run_cases(check, work, fs, with_choices(cases, 3), clauses, "report-" + tag, nproc=4)
    users = user_sets(check, work, 2 if tier == "quick" else 12)
    common.parallel(one, ["v2018.5", "v3.3"] + users, 2)
    every_class(check, work, clauses, users, prepare=lambda c: with_choices(c, 2))
    check.assumptions += ASSUME
    check.cov["subsets_of_statuses"] = 256


def p09(check, tier, work):
    """what was done before does not change a validation"""
    import c_history
    c_history.p09(check, tier, work)


def p10(check, tier, work):
    """any readable file is validated, shown and reported to the end"""
    import c_history
    c_history.p10(check, tier, work)


ASSUME = ["h5py records the data file as it is (the graph which is judged)",
          "universes are exhaustive for their constants only; random files sample the rest"]

CHECKS = {p: focused(p) for p in FOCUS}
CHECKS.update(P08=p08, P09=p09, P10=p10)
