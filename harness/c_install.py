"""Checks of the installation of file sets (P15, P16)."""
import json
import random

import common
from common import SEED

ANOTHER = dict(files=[dict(p="base_classes/NXz.nxdl.xml", c="z1"), dict(p="nxdl.xsd", c="z2")],
               info=dict(ref="another", sha="f" * 40, zip_url="u", last_modified="2011-11-11 11:11:11"))


def a_set(name, tag, n):
    f = [dict(p="nxdl.xsd", c=tag + "0")] + [dict(p="base_classes/NX%d.nxdl.xml" % i, c="%s%d" % (tag, i)) for i in range(1, n)]
    return dict(files=sorted(f, key=lambda x: x["p"]),
                info=dict(ref=name, sha=tag[0] * 40, zip_url="u", last_modified="2012-12-12 12:12:12"))


def entries(n, top="definitions-x"):
    out = [dict(name=top + "/", c="", date=[2020, 1, 1, 1, 1, 0]), dict(name=top + "/README.md", c="r", date=[2023, 1, 1, 1, 1, 0]),
           dict(name=top + "/nxdl.xsd", c="n0", date=[2020, 3, 1, 5, 0, 2])]
    dirs = ["base_classes", "applications", "contributed_definitions"]
    for i in range(1, n):
        out.append(dict(name="%s/%s/NXn%d.nxdl.xml" % (top, dirs[i % 3], i), c="n%d" % i, date=[2019, 12, 31, 23, 59, 2 * i]))
    return out


def a_case(i, name="vset", before="none", replace=False, via="api", refused=0, archive=None, kinds=None, part=0, parts=1):
    archive = dict(dict(kind="zip", entries=entries(4), comment="0123456789abcdef" * 2 + "01234567"), **(archive or {}))
    return dict(id=i, name=name, before=before, replace=replace, via=via, refused=refused, archive=archive,
                old=a_set(name, "old", 5), other=a_set(name, "elsewhere", 3), another=ANOTHER, kinds=kinds or [], part=part, parts=parts)


def run(check, work, cases, tag):
    def one(ix_chunk):
        ix, ch = ix_chunk
        r = common.run_worker("w_install.py", dict(cases=ch, folder=work.file("%s-%d" % (tag, ix))), work, timeout=850)
        for c in r:
            c["obs"].pop("events")
        fn = work.file("%s-%d.json" % (tag, ix))
        with open(fn, "w") as f:
            json.dump(r, f)
        t = common.tlc("JudgeInstall", "JudgeInstall.cfg", work, env=dict(CASES=fn))
        return r, t

    ends = check.cov.setdefault("ends", {})
    for r, t in common.parallel(one, list(enumerate(common.chunks(cases, 8)))):
        check.tlc(t)
        if len(t["lines"]) != len(r):
            raise common.HarnessError("%d cases, %d verdicts\n%s" % (len(r), len(t["lines"]), t["out"][-3000:]))
        by = {c["id"]: c for c in r}
        for v in t["lines"]:
            c = by[v["id"]]
            k = "%s %s" % (c["fault"]["kind"], v["end"])
            ends[k] = ends.get(k, 0) + 1
            check.count(traces_validated_against_impl=1, states_seen=v["n"])
            for b in v["bad"]:
                check.bad("%s %s %s" % (tag, b["clause"], v["id"]), b, c)
    check.sample("%s: %s" % (tag, json.dumps({k: v for k, v in cases[-1].items() if k not in ("old", "other", "another")})[:600]))


def p15(check, tier, work):
    quick = tier == "quick"
    r = random.Random("%s/archive" % SEED)
    t = common.tlc("MC_Archive", "MC_Archive.cfg", work, workers=4)
    check.tlc(t)
    archives = sorted({json.dumps(a) for a in t["lines"]})
    check.cov["archives"] = len(archives)
    archives = [json.loads(a) for a in archives]
    names = sorted({e["name"] for a in archives for e in a})
    # and any mixture of them
    for i in range(300 if quick else 20000):
        n = r.randrange(1, 12)
        archives.append([dict(name=r.choice(names), c="m%d" % j,
                              date=[r.choice([1980, 1999, 2020, 2020, 2107]), r.randrange(1, 13), r.randrange(1, 29),
                                    r.randrange(24), r.randrange(60), 2 * r.randrange(30)]) for j in range(n)])
    if quick:
        r.shuffle(archives)
        archives = archives[:1100]
    cases = []
    for i, a in enumerate(archives):
        for e in a:
            if e["name"].endswith("/"):
                e["c"] = ""
        z = r.random()
        cases.append(a_case(i, archive=dict(entries=a, comment=r.choice(["", "0123abc", "caf\u00e9", "a" * 40, "0f" * 32, "main of 2020, " * 15, "line\nline ", "v1.2-3-gabc"]), deflate=r.random() < 0.5),
                            name=r.choice(["main", "v2022.07", "v2018.5", "a4fd52d", "Schema-3.4"]), via="cli" if z < 0.1 else "api",
                            before=r.choice(["none", "none", "old"]), replace=r.random() < 0.8, refused=r.choice([0, 0, 0, 1, 2])))
    run(check, work, cases, "archives")
    check.assumptions += ["the network is replaced by a stand-in that answers as the server does",
                          "contents of the files in an archive are short texts; all that counts is which file is which"]


def p16(check, tier, work):
    quick = tier == "quick"
    t = common.tlc("MC_Install", "MC_Install.cfg", work, workers=4)
    check.tlc(t)
    sits = sorted({json.dumps(x, sort_keys=True) for x in t["lines"]})
    check.cov["situations"] = len(sits)
    cases = []
    ALL = ["crash", "raise", "interrupt", "torn", "other"]
    for i, s in enumerate(sits):
        x = json.loads(s)
        ar = dict(entries=entries(x["files"]))
        if x["content"] == "few":
            ar["entries"] = [e for e in ar["entries"] if not e["name"].endswith(("xml", "xsd"))]
        elif x["content"] == "text":
            ar["kind"] = "text"
        elif x["content"] == "broken":
            ar.update(kind="broken")
            ar["break"] = len(ar["entries"]) - 1
        if x["content"] == "good" and x["refused"] == 0:
            for via in ("api", "cli"):
                if via == "cli" and quick and x["files"] == 3:
                    continue
                for p in range(4):
                    cases.append(a_case("%d%s%d" % (i, via, p), before=x["before"], replace=x["replace"], via=via, archive=ar, kinds=ALL, part=p, parts=4))
        else:
            faulty = x["refused"] < 3 and x["content"] != "text" and (not quick or (x["refused"] == 0 and x["content"] == "broken" and x["files"] == 2))
            cases.append(a_case(str(i), before=x["before"], replace=x["replace"], refused=x["refused"], archive=ar,
                                kinds=ALL if faulty else []))
    for j, ar in enumerate((dict(kind="cut"), dict(comment_hex="ff00fe", kind="unreadable"), dict(entries=[]))):
        for before in ("none", "old"):
            cases.append(a_case("x%d%s" % (j, before), before=before, replace=True, archive=ar))
    # archives with almost nothing to take
    D = [2020, 1, 1, 1, 1, 0]
    top, base, docs = "d-1/", "d-1/base_classes/", "d-1/manual/"
    one, two, three = (dict(name=n, c="x", date=D) for n in (base + "NXa.nxdl.xml", "d-1/nxdl.xsd", "d-1/applications/nxdlformat.xsl"))
    folders = [dict(name=n, c="", date=D) for n in (top, base, "d-1/applications/", "d-1/contributed_definitions/")]
    rest = [dict(name=docs + "a.xml", c="m", date=D), dict(name="d-1/README.md", c="r", date=D)]
    few = [[one], [two], [three], [one, two], [two, three], [one, one], [one, dict(one, name=base + "NXb.nxdl.xml")], []]
    for j, x in enumerate(few):
        for k, ents in enumerate((folders + x, x + rest, folders[:2] + x + rest, x)):
            for m, (before, replace, via) in enumerate((("none", False, "api"), ("old", True, "api"), ("old", False, "api"), ("none", True, "cli"), ("old", True, "cli"))):
                if (k + m + j) % 2 and quick:
                    continue
                cases.append(a_case("few%d-%d-%d" % (j, k, m), before=before, replace=replace, via=via, archive=dict(entries=ents),
                                    kinds=ALL if k == 0 and m in (1, 3) and len(x) < 2 else []))
    if not quick:
        for j, n in enumerate((8, 15)):
            for before in ("none", "old"):
                for p in range(8):
                    cases.append(a_case("big%d%s%d" % (j, before, p), before=before, replace=True, archive=dict(entries=entries(n)), kinds=ALL, part=p, parts=8))
    random.Random(SEED).shuffle(cases)
    run(check, work, cases, "faults")
    check.assumptions += ["faults come at operations that write to the file system, as audit events of the interpreter; a renamed "
                          "folder is there completely or not at all",
                          "the network is replaced by a stand-in"]


CHECKS = dict(P15=p15, P16=p16)
