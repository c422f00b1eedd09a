"""Checks of NXDL file sets and files: loading (P17), order of use (P18), verdicts (P19), trees (P22)."""
import itertools
import json
import os
import random
import re
import shutil

import lxml.etree as ET

import common
import nxdlgen as G
from common import SEED

CATS = ("base_classes", "applications", "contributed_definitions")
KIND = dict(base_classes="base", applications="application", contributed_definitions="contributed")
CACHE = os.path.join(common.REPO, "punx", "cache")


def changes(s):
    """schemas with one thing changed: name -> text of nxdl.xsd"""
    def rep(a, b, n=1):
        assert a in s, a
        return s.replace(a, b, n)
    pat = '<xs:pattern value="[A-Za-z_][\\w_]*" />'
    out = dict(
        upper=rep(pat, '<xs:pattern value="[A-Z][\\w_]*" />'),
        short=rep('<xs:maxLength value="63" />', '<xs:maxLength value="12" />'),
        kinds=rep('<xs:enumeration value="contributed"/>', '<xs:enumeration value="contributed"/><xs:enumeration value="draft"/>'),
        required=rep('<xs:attribute name="extends" use="optional">', '<xs:attribute name="extends" use="required">'),
        flavor=rep('<xs:attribute name="svnid" use="optional">', '<xs:attribute name="flavor" use="optional" default="plain"/>\n<xs:attribute name="svnid" use="optional">'),
        strict=rep('<xs:attribute name="optional" type="nx:NX_BOOLEAN" default="true">', '<xs:attribute name="optional" type="nx:NX_BOOLEAN" default="false">'),
        two=rep('<xs:pattern value="NX.+"/>', '<xs:pattern value="NX.+"/>\n<xs:pattern value="MX.+"/>'))
    svn = '<xs:attribute name="svnid" use="optional">'
    out["flags"] = rep(svn, "".join('<xs:attribute name="flag%d" use="optional" type="nx:NX_BOOLEAN"%s/>\n' % (i, x) for i, x in enumerate(
        ("", ' default="1"', ' default="0"', ' default="true"', ' default="false"'))) + svn)
    a = '<xs:attribute name="minOccurs" use="optional" default="0" type="nx:nonNegativeUnbounded">'
    assert s.count(a) == 2
    out["fields"] = s[: s.rindex(a)] + a.replace('"0"', '"1"') + s[s.rindex(a) + len(a):]
    out["groups"] = rep(a, a.replace(' default="0"', ""))
    out["link"] = rep('<xs:attribute name="napimount" use="optional"', '<xs:attribute name="via" type="nx:validItemName"/>\n<xs:attribute name="napimount" use="optional"')
    # the same schema, written in other ways
    out["remarks"] = re.sub(r"(<xs:(?:sequence|complexType|extension|restriction|simpleType|complexContent|attributeGroup|group|element|attribute|schema)\b[^>]*[^/>]>)",
                            r"\1<!-- remark --><?remark x?>", s)
    out["one-line"] = s.replace("\n", " ")
    d = ET.fromstring(s.encode("utf8"))
    parts = [c for c in d if isinstance(c.tag, str) and c.tag.split("}")[-1] not in ("include", "annotation")]
    for c in parts:
        d.remove(c)
    d.extend(parts[::-1])
    out["reversed"] = ET.tostring(d, encoding="unicode")
    return out


class Sets:
    """file sets in the user cache of this run"""

    def __init__(self, work):
        self.work = work
        self.top = work.file("cfg", "punx")
        os.makedirs(self.top, exist_ok=True)
        self.path = {n: os.path.join(CACHE, n) for n in common.SETS}
        self.n = 0

    def make(self, name, xsd=None, base="v2018.5", files=(), folders=CATS, types=True):
        """files: (category, file name, text)"""
        p = os.path.join(self.top, name)
        for c in folders:
            os.makedirs(os.path.join(p, c))
        os.makedirs(p, exist_ok=True)
        for fn in ("nxdl.xsd", "nxdlTypes.xsd"):
            shutil.copy(os.path.join(CACHE, base, fn), p)
        if xsd is not None:
            with open(os.path.join(p, "nxdl.xsd"), "w") as f:
                f.write(xsd)
        with open(os.path.join(p, "__github_info__.json"), "w") as f:
            self.n += 1
            json.dump(dict(ref=name, sha="%040x" % self.n, zip_url="u", last_modified="2001-01-01 00:%02d:%02d" % divmod(self.n % 3600, 60)), f)
        for cat, fn, text in files:
            f = os.path.join(p, cat, fn)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w", encoding="utf8") as h:
                h.write(text)
        self.path[name] = p
        return p

    def xsds(self, names):
        return {n: G.xsd_nodes(self.path[n]) for n in names}


def original(base="v2018.5"):
    with open(os.path.join(CACHE, base, "nxdl.xsd"), encoding="utf8") as f:
        return f.read()


def judge(check, work, xsds, cases, tag, describe=lambda c: c):
    """cases judged by TLC; returns the number of violations"""
    def one(ix_ch):
        ix, ch = ix_ch
        fn = work.file("%s-%d.json" % (tag, ix))
        with open(fn, "w") as f:
            json.dump(dict(xsds={n: xsds[n] for n in {c["set"] for c in ch if c.get("set")} if n in xsds} or {"none": []}, cases=ch), f)
        t = common.tlc("JudgeNxdl", "JudgeNxdl.cfg", work, env=dict(CASES=fn))
        os.remove(fn)
        return ch, t
    # heavy cases are spread
    cases = sorted(cases, key=lambda c: -len(json.dumps(c.get("doc", ""))))
    for ch, t in common.parallel(one, list(enumerate(common.chunks(cases, 8)))):
        check.tlc(t)
        if len(t["lines"]) != len(ch):
            raise common.HarnessError("%d cases, %d verdicts\n%s" % (len(ch), len(t["lines"]), t["out"][-3000:]))
        by = {c["id"]: c for c in ch}
        for v in t["lines"]:
            check.count(traces_validated_against_impl=1)
            k = "judged " + by[v["id"]]["kind"]
            check.cov[k] = check.cov.get(k, 0) + 1
            for b in v["bad"]:
                check.bad("%s %s %s" % (tag, b["clause"], v["id"]), b, describe(by[v["id"]]))


def shipped(names):
    """NXDL files of the shipped sets: (set, category, file, text)"""
    for s in names:
        for cat in CATS:
            d = os.path.join(CACHE, s, cat)
            for fn in sorted(os.listdir(d)):
                if fn.endswith(".nxdl.xml"):
                    with open(os.path.join(d, fn), encoding="utf8") as f:
                        yield s, cat, fn, f.read()


def run_jobs(work, jobs):
    """jobs done by punx, in parallel, results in the order of the jobs"""
    n = max(1, min(8, len(jobs)))
    parts = [list(range(len(jobs)))[i::n] for i in range(n)]
    res = [None] * len(jobs)
    for ix, r in zip(parts, common.parallel(lambda ix: common.run_worker("w_nxdl.py", dict(jobs=[jobs[i] for i in ix]), work, timeout=850), parts)):
        for i, x in zip(ix, r):
            res[i] = x
    return res


ITEMS = dict(g=lambda n: G.E("group", {"type": "NX" + n}), G=lambda n: G.E("group", {"type": "NXz", "name": n}),
             f=lambda n: G.E("field", {"name": n}), l=lambda n: G.E("link", {"name": n, "target": "/z/" + n}))


def small_definitions(t):
    """documents of the model's universe"""
    for q in t["lines"]:
        items = [ITEMS[x["k"]](x["n"]) for x in q["items"]]
        for i, x in enumerate(items):
            x["a"].update({"deprecated": "no%d" % i})
        if q["deep"]:
            items = [G.E("group", {"type": "NXw", "name": q["items"][0]["n"]}, items)] + items[:1]
        yield G.E("definition", {"name": "NXm", "type": "group", "category": "base"}, items)


def p17(check, tier, work):
    quick = tier == "quick"
    r = random.Random("%s/nxdl" % SEED)
    sets = Sets(work)
    t = common.tlc("MC_Nxdl", "MC_Nxdl.cfg" if quick else "MC_Nxdl4.cfg", work, workers=4)
    check.tlc(t)
    docs = list(small_definitions(t))
    check.cov["small definitions"] = len(docs)
    texts = [G.write(d, r, "plain") for d in docs]
    nr = 240 if quick else 6000
    for i in range(nr):
        texts.append(G.write(G.definition(r, depth=3), r, ["plain", "prefix", "odd"][i % 3]))
    r.shuffle(texts)
    xs = changes(original())
    # sets with about 40 definitions each, some with a schema of their own
    jobs, meta = [], []
    names = list(common.SETS)
    files_of = {s: [(c, f, x) for s2, c, f, x in shipped([s]) if s2 == s] for s in common.SETS}
    per = 40
    for i in range(0, len(texts), per):
        fs = [(CATS[j % 3], "NXd%d.nxdl.xml" % j, x) for j, x in enumerate(texts[i:i + per])]
        n = "gen%d" % (i // per)
        sets.make(n, files=fs)
        files_of[n] = fs
        names.append(n)
    for k in sorted(xs):
        fs = []
        for j in range(6):
            d = G.definition(r, depth=2)
            if k == "required":
                d["a"]["extends"] = "NXobject"
            if k == "upper":
                for x in G.all_nodes(d):
                    if "name" in x["a"]:
                        x["a"]["name"] = x["a"]["name"].lstrip("_").capitalize()
            fs.append((CATS[j % 3], "NXe%d.nxdl.xml" % j, G.write(d, r)))
        sets.make("x-" + k, xsd=xs[k], files=fs)
        files_of["x-" + k] = fs
        names.append("x-" + k)
    # sets of files that are odd, or of which some can not be used
    odd = odd_sets(sets, r, 30 if quick else 400)
    for n, fs, folders in odd:
        files_of[n] = fs
        names.append(n)
    jobs = [dict(do="load", set=n) for n in names]
    xsd_names = list(common.SETS) + ["x-" + k for k in sorted(xs)]
    jobs += [dict(do="schema", path=sets.path[n]) for n in xsd_names]
    res = run_jobs(work, jobs)
    base = G.xsd_nodes(sets.path["v2018.5"])
    X = {n: base for n in names}
    X.update(sets.xsds(xsd_names))
    key = {n: n if n in xsd_names else "v2018.5" for n in names}
    pats = {n: G.patterns(X[n]) for n in names}
    cases = []
    folders = {n: f for n, fs, f in odd}
    for n, x in zip(names, res):
        fl = []
        for cat, fn, text in files_of[n]:
            cat, fn = os.path.split(os.path.join(cat, fn))
            d = G.doc_node(text)
            ok = d is not None
            rec = dict(cat=cat, file=fn, xml=ok, ok=None, twice=False)
            if ok:
                rec["doc"] = d
            fl.append(rec)
        cases.append(dict(kind="set", id=n + ":", set=key[n], files=fl, obs=x["obs"], folders=list(folders.get(n, CATS)), pats={}))
        for cls in x["obs"]["classes"]:
            mine = [(c, f, tx) for c, f, tx in files_of[n] if c == cls["cat"] and f == cls["file"]]
            if mine:
                cases.append(dict(kind="class", id="%s:%s" % (n, cls["title"]), set=key[n], cat=mine[0][0], doc=G.doc_node(mine[0][2]),
                                  obs=x["classes"][cls["title"]]))
    for n, x in zip(xsd_names, res[len(names):]):
        cases.append(dict(kind="xsd", id="xsd:" + n, set=n, obs=x))
    # what the specification says on each file of a set decides whether it can be used
    marks(check, work, X, pats, cases, key)
    judge(check, work, {k: X[k] for k in set(key.values())}, cases, "load")
    check.cov["sets loaded"] = len(names)
    check.sample("sets: %s" % ", ".join(names[:60]))
    check.assumptions += ["schemas of the shipped file sets and of variants of them", "choice elements are not read by punx"]


def marks(check, work, X, pats, cases, key):
    """ask the specification which files of the sets are valid, and which have two attributes of one name"""
    q, where = [], []
    for c in cases:
        if c["kind"] == "set":
            for f in c["files"]:
                if f["xml"]:
                    q.append(dict(id=str(len(q)), set=c["set"], doc=f["doc"], pats=G.matches(f["doc"], G.patterns(X[c["set"]]))))
                    where.append(f)
                else:
                    f["ok"] = False
    def one(ch):
        fn = work.file("marks-%s.json" % ch[0]["id"])
        with open(fn, "w") as f:
            json.dump(dict(xsds={n: X[n] for n in {c["set"] for c in ch}}, cases=ch), f)
        t = common.tlc("MarkNxdl", "JudgeNxdl.cfg", work, env=dict(CASES=fn))
        os.remove(fn)
        return t
    n = 0
    for t in common.parallel(one, common.chunks(q, 8)):
        check.tlc(t)
        for v in t["lines"]:
            where[int(v["id"])].update(ok=v["ok"], twice=v["twice"])
            n += 1
    if n != len(q):
        raise common.HarnessError("marks: %d of %d" % (n, len(q)))
    for c in cases:
        if c["kind"] == "set":
            for f in c["files"]:
                f.pop("doc", None)


def odd_sets(sets, r, n):
    out = []
    good = lambda: G.write(G.definition(r, depth=1))  # noqa: E731
    for i in range(n):
        fs, seen = [], set()
        def put(cat, fn, text):
            if (cat, fn) not in seen:
                seen.add((cat, fn))
                fs.append((cat, fn, text))
        for cat in CATS:
            for j in range(r.randrange(4)):
                put(cat, r.choice(["NXp", "NXq", "NXr"]) + ".nxdl.xml", good())
        folders = CATS
        z = i % 7
        if z == 0:
            for fn in ("NXs.xml", "NXt.nxdl.xml~", "readme.txt", "nxdl.xml", "sub/NXu.nxdl.xml", "NXv.NXDL.XML"):
                put(r.choice(CATS), fn, "<nothing")
            put("other", "NXw.nxdl.xml", "<nothing")
        elif z == 1:
            put(r.choice(CATS), "NXbad.nxdl.xml", G.write(dict(G.definition(r, depth=1), t="defintion")))
        elif z == 2:
            put(r.choice(CATS), "NXbad.nxdl.xml", G.broken(good(), r))
        elif z == 3:
            folders = tuple(c for c in CATS if c != r.choice(CATS))
            fs = [f for f in fs if f[0] in folders]
        elif z == 4:
            d = G.definition(r, depth=1)
            d["c"].insert(0, G.E("attribute", {"name": "same"}))
            d["c"].insert(0, G.E("attribute", {"name": "same"}))
            if d["c"] and any(x["t"] == "symbols" for x in d["c"]):
                d["c"].sort(key=lambda x: x["t"] != "symbols")
            put(r.choice(CATS), "NXtwice.nxdl.xml", G.write(d))
        elif z == 5:
            put("applications", "NXp.v2.nxdl.xml", good())
            put(r.choice(CATS), ".nxdl.xml", good())
        name = "odd%d" % i
        sets.make(name, files=fs, folders=folders)
        out.append((name, fs, folders))
    return out


def long_histories(work, n):
    t = common.tlc("MC_Order", "MC_OrderLong.cfg", work, args=("-simulate", "num=%d" % n, "-depth", "9", "-seed", str(SEED)))
    return t


def p18(check, tier, work):
    quick = tier == "quick"
    t = common.tlc("MC_Order", "MC_Order.cfg" if quick else "MC_Order4.cfg", work, workers=4)
    check.tlc(t)
    hist = [json.loads(x) for x in sorted({json.dumps(h) for h in t["lines"]})]
    check.cov["histories"] = len(hist)
    random.Random("%s/p18" % SEED).shuffle(hist)
    hist = hist[:1500 if quick else 12000]
    t = long_histories(work, 250 if quick else 4000)
    long = [json.loads(x) for x in sorted({json.dumps(h) for h in t["lines"]})]
    random.Random("%s/p18l" % SEED).shuffle(long)
    long = long[:300 if quick else 6000]
    check.cov["long histories"] = len(long)
    hist += long
    sets = Sets(work)
    # the sets, and those which replace them, are copied for each process
    sets.top = work.file("sets")
    xs = changes(original())
    s3 = original("v3.3")
    a = '<xs:attribute name="optional" type="nx:NX_BOOLEAN" default="true">'
    both = xs["fields"].replace(a, a.replace("true", "false"))
    a = '<xs:attribute name="svnid" use="optional">'
    both = both.replace(a, '<xs:attribute name="flavor" use="optional"/>\n' + a)
    # sets with other schemas, other definitions of the same names, other style sheets
    versions = (("s1", None, "v2018.5"), ("s2", both, "v2018.5"), ("s3", s3, "v3.3"), ("s1.2", both, "v2018.5"), ("s2.2", None, "v2018.5"))
    for n, xsd, base in versions:
        rr = random.Random("%s/%s" % (SEED, n))
        fs = []
        for cat, names in (("base_classes", ["NXa", "NXb"]), ("applications", ["NXc", "NXd"]), ("contributed_definitions", ["NXe"])):
            for k in names:
                d = G.definition(rr, version=base == "v3.3", depth=2, cat=KIND[cat])
                d["c"] += [G.E("group", {"type": "NXdata"}, [G.E("attribute", {"name": "q"}), G.E("field", {"name": "v"}, [G.E("attribute", {"name": "u"})])])]
                fs.append((cat, k + ".nxdl.xml", G.write(d)))
        p = sets.make(n, xsd=xsd, base=base, files=fs)
        for c in CATS:
            with open(os.path.join(CACHE, base, c, "nxdlformat.xsl"), encoding="utf8") as f:
                x = f.read()
            if n.endswith(".2"):  # shows something else
                x = x.replace("NX_CHAR", "TEXT")
            with open(os.path.join(p, c, "nxdlformat.xsl"), "w", encoding="utf8") as f:
                f.write(x)
    # documents: some are valid only with one of the sets
    files = []
    for i, (v, more) in enumerate(((False, {}), (True, {}), (False, {"minOccurs": "x"}), (False, {"nameType": "any"}), (False, {"flavor": "x"}))):
        d = G.definition(random.Random("%s/doc%d" % (SEED, i)), version=v, depth=1, cat="base")
        if "flavor" in more:
            d["a"].update(more)
            more = {}
        d["c"].append(G.E("field", dict({"name": "last"}, **more)))
        fn = work.file("doc%d.nxdl.xml" % i)
        with open(fn, "w", encoding="utf8") as f:
            f.write(G.write(d))
        files.append(fn)

    def job(ops):
        return dict(do="history", ops=ops, sets=sets.top, files=files, folder=work.file("tmp"))

    def op(o, s, v=1):
        return dict(op=o, set=s, version=v)
    # what each operation gives in a process of its own, with this set (and this default)
    alone, jobs, keys = {}, [], []
    for s in ("s1", "s2", "s3"):
        for v in ((1, 2) if s != "s3" else (1,)):
            ready = [op("replace", s, 2)] if v == 2 else []
            for o in ("load", "schema", "verdict"):
                keys.append((o, s, v))
                jobs.append(job(ready + [op(o, s)]))
            for o in ("tree", "verdict"):
                keys.append((o + " unnamed", s, v))
                jobs.append(job(ready + [op("select", s), op(o, "")]))
    for o in ("tree", "verdict"):
        keys.append((o + " unnamed", "latest", 1))
        jobs.append(job([op(o, "")]))
    for k, x in zip(keys, run_jobs(work, jobs)):
        alone[k] = x[-1]
    check.cov["different results"] = len(set(alone.values()))
    for o in ("load", "schema", "verdict", "tree unnamed"):
        for v in (1, 2):
            if alone[o, "s1", v] == alone[o, "s2", v] or alone[o, "s%d" % v, 1] == alone[o, "s%d" % v, 2]:
                raise common.HarnessError("the sets do not differ: %s %s %r" % (o, v, alone))
    for h, got in zip(hist, run_jobs(work, [job([op(x["op"], x["set"], x["version"]) for x in h]) for h in hist])):
        check.count(traces_validated_against_impl=1)
        for i, (x, g) in enumerate(zip(h, got)):
            if x["op"] == "replace":
                continue
            o = "load" if x["op"] == "again" else x["op"]
            w = alone[o if x["set"] else o + " unnamed", x["uses"], x["version"]]
            if w != g:
                check.bad("order %s" % json.dumps([[y["op"], y["set"]] for y in h[:i + 1]]), dict(step=i, want=w, got=g), h)
                break
    check.sample("histories such as %s" % json.dumps(hist[len(hist) // 2]))
    # and what is compared is what the specification says
    sets.top = work.file("cfg", "punx")
    for n, xsd, base in versions:
        shutil.copytree(work.file("sets", n), os.path.join(sets.top, n))
    X = sets.xsds([n for n, x, b in versions])
    cases = []
    for s, x in zip(X, run_jobs(work, [dict(do="load", set=s) for s in X])):
        for cls in x["obs"]["classes"]:
            with open(os.path.join(sets.path[s], cls["cat"], cls["file"]), encoding="utf8") as f:
                cases.append(dict(kind="class", id="%s:%s" % (s, cls["title"]), set=s, cat=cls["cat"], doc=G.doc_node(f.read()),
                                  obs=x["classes"][cls["title"]]))
    if len(cases) != 25:
        raise common.HarnessError("25 classes expected: %d" % len(cases))
    judge(check, work, X, cases, "alone")


def telling(r):
    """documents that are valid with some of the schemas (see changes) and not with others"""
    def d(a=(), c=(), drop=()):
        x = G.definition(r, depth=0, cat="base")
        x["a"].update(dict(a))
        for k in drop:
            x["a"].pop(k, None)
        x["c"] = [y for y in x["c"] if y["t"] == "symbols"] + list(c)
        return x
    F, Gr = (lambda n, **a: G.E("field", dict(a, name=n))), (lambda t, **a: G.E("group", dict(a, type=t)))
    return [d(c=[F("lower")]), d(c=[F("Upper")]), d(c=[F("a_name_of_20_letters")]), d({"category": "draft"}), d(drop=["extends"]),
            d({"extends": "NXobject"}), d({"flavor": "x"}), d(c=[Gr("MXdata")]), d(c=[Gr("NXdata", name="Data")]),
            d(c=[G.E("link", {"name": "Link", "target": "/a", "via": "Other"})]), d({"version": "1.0"}), d(drop=["version"]),
            d(c=[F("_x", nameType="any")])]


def verdict_histories(check, work, sets, X, xs, pats, r, n):
    """many files checked in one process, with sets that are replaced meanwhile"""
    top = sets.top
    jobs, meta = [], []
    files = []
    for i in range(3):
        for d in telling(r):
            fn = work.file("told%d.nxdl.xml" % len(files))
            text = G.write(d, r, r.choice(["plain", "odd"]))
            with open(fn, "w", encoding="utf8") as f:
                f.write(text)
            files.append((fn, text, G.doc_node(text)))
    store = work.file("stores")
    sets.top = store
    stores = []
    for i in range(12):
        kinds = r.sample(sorted(xs), 4)
        d = os.path.join(store, str(i))
        for (nm, k) in zip(("h1", "h1.2", "h2", "h2.2"), kinds):
            sets.top = d
            sets.make(nm, xsd=xs[k])
        stores.append((d, dict(zip(("h1", "h1.2", "h2", "h2.2"), kinds))))
    sets.top = top
    for i in range(n):
        d, kinds = stores[i % len(stores)]
        now = {"h1": ["h1", "h1.2"], "h2": ["h2", "h2.2"]}
        ops, uses = [], []
        for j in range(16):
            if r.random() < 0.3:
                s = r.choice(["h1", "h2"])
                now[s].reverse()
                # what is on the disk is known after the next listing (or loading, see P18)
                ops += [dict(op="replace", set=s), dict(op="list", set=s)]
                uses += [None, None]
            else:
                s = r.choice(["h1", "h1", "h2", "h2", "v3.3", "v2018.5"])
                k = r.randrange(len(files))
                ops.append(dict(op="ask", set=s, file=files[k][0], how=r.choice(["api", "api", "cli"])))
                uses.append((k, "x-" + kinds[now[s][0]] if s in now else s))
        jobs.append(dict(do="history", ops=ops, sets=d, files=[], folder=work.file("tmp")))
        meta.append(uses)
    os.makedirs(work.file("tmp"), exist_ok=True)
    cases = []
    seen = {}
    for i, (j, uses, got) in enumerate(zip(jobs, meta, run_jobs(work, jobs))):
        check.count(verdict_histories=1)
        for k, (o, u, g) in enumerate(zip(j["ops"], uses, got)):
            if u is None:
                continue
            f, x = u
            key = (f, x, o["how"], g["verdict"])
            if key in seen:     # judged already
                check.count(verdicts_that_repeat=1)
                continue
            seen[key] = 1
            fn, text, d = files[f]
            cases.append(dict(kind="verdict", id="h%d-%d" % (i, k), set=x, how=o["how"], file=True, xml=True, doc=d,
                              pats=G.matches(d, pats[x]), obs=g, text=text, before=[[y["op"], y["set"]] for y in j["ops"][:k + 1]]))
    return cases


def p19(check, tier, work):
    quick = tier == "quick"
    r = random.Random("%s/verdict" % SEED)
    sets = Sets(work)
    xs = changes(original())
    for k in sorted(xs):
        sets.make("x-" + k, xsd=xs[k])
    X = sets.xsds(list(common.SETS) + ["x-" + k for k in sorted(xs)])
    names = sorted(X)
    pats = {n: G.patterns(X[n]) for n in X}
    docs = []           # (text, sets, what)
    ship = list(shipped(common.SETS))
    if quick:
        ship = [x for i, x in enumerate(ship) if i % 4 == SEED % 4]
    for s, cat, fn, text in ship:
        docs.append((text, list(common.SETS) if not quick else [s, r.choice(common.SETS)], "shipped"))
    n = 700 if quick else 14000
    for i in range(n):
        d = G.definition(r, version=r.random() < 0.4, depth=2)
        for k in range(r.choice([0, 1, 1, 1, 2, 3])):
            d = G.changed(d, r)
        docs.append((G.write(d, r, r.choice(["plain", "plain", "prefix", "odd"])), r.sample(names, 2) + ["v2018.5"], "made up"))
    for i in range(60 if quick else 600):
        text = G.write(G.definition(r, depth=1), r)
        docs.append((G.broken(text, r), [r.choice(names)], "no XML"))
    ask, meta = [], []
    for i, (text, ss, what) in enumerate(docs):
        fn = work.file("d%d.nxdl.xml" % i)
        with open(fn, "w", encoding="utf8") as f:
            f.write(text)
        for s in ss:
            how = r.choice(["api", "cli"])
            ask.append(dict(file=fn, set="" if s == "v2018.5" and r.random() < 0.5 else s, how=how))
            meta.append((i, s))
    for i in range(4):
        ask.append(dict(file=work.file("missing%d.nxdl.xml" % i), set=r.choice(names), how=["api", "cli"][i % 2]))
        meta.append((None, ask[-1]["set"]))
    jobs = [dict(do="verdicts", of=ch) for ch in common.chunks(ask, 8)]
    res = run_jobs(work, jobs)
    got = [None] * len(ask)
    for k, (ch, rs) in enumerate(zip(common.chunks(list(range(len(ask))), 8), res)):
        for i, x in zip(ch, rs):
            got[i] = x
    nodes = {}
    cases = []
    for j, (a, (i, s), o) in enumerate(zip(ask, meta, got)):
        d = None
        if i is not None:
            if i not in nodes:
                nodes[i] = G.doc_node(docs[i][0])
            d = nodes[i]
        cases.append(dict(kind="verdict", id=str(j), set=s, how=a["how"], file=i is not None, xml=d is not None, doc=d or 0,
                          pats=G.matches(d, pats[s]) if d else [], obs=o, text=docs[i][0] if i is not None and len(docs[i][0]) < 4000 else ""))
    cases += verdict_histories(check, work, sets, X, xs, pats, r, 60 if quick else 900)
    judge(check, work, X, cases, "verdict", lambda c: {k: v for k, v in c.items() if k != "doc"})
    v = {}
    for c in cases:
        k = "%s %s" % (c["how"], c["obs"]["verdict"])
        v[k] = v.get(k, 0) + 1
    check.cov["verdicts"] = v
    check.sample(cases[len(cases) // 2]["text"][:1500])
    check.assumptions += ["what a schema's regular expressions match is found with Python's re, on values of ASCII letters, digits and a few others",
                          "schemas of the shipped file sets and variants of the latest one"]


def p22(check, tier, work):
    quick = tier == "quick"
    r = random.Random("%s/tree" % SEED)
    sets = Sets(work)
    docs = [(text, "shipped") for s, cat, fn, text in shipped(common.SETS)]
    if quick:
        docs = docs[SEED % 2::2]
    for i in range(500 if quick else 9000):
        d = G.definition(r, version=r.random() < 0.4, depth=3)
        if r.random() < 0.25:
            d = G.changed(d, r)
        if d["t"] != "definition" or d.get("ns", G.NX) != G.NX:
            continue
        docs.append((G.write(d, r, r.choice(["plain", "prefix", "odd"])), "made up"))
    for i in range(20 if quick else 200):
        d = G.definition(r, depth=1)
        if i % 2:
            d["a"]["category"] = r.choice(["", "none", "Base", "applications"])
        else:
            d["a"].pop("category")
        docs.append((G.write(d), "category"))
        docs.append((G.broken(G.write(d), r), "no XML"))
    ask, meta = [], []
    for i, (text, what) in enumerate(docs):
        fn = work.file("t%d.nxdl.xml" % i)
        with open(fn, "w", encoding="utf8") as f:
            f.write(text)
        how = r.choice(["cli", "cli", "v2018.5", "v3.3", "a4fd52d"])
        ask.append(dict(file=fn, how=how, show=r.random() < 0.5))
        meta.append(i)
    ask.append(dict(file=work.file("missing.nxdl.xml"), how="cli", show=True))
    meta.append(None)
    idx = common.chunks(list(range(len(ask))), 8)
    res = run_jobs(work, [dict(do="trees", of=[ask[i] for i in ch]) for ch in idx])
    cases = []
    for ch, rs in zip(idx, res):
        for j, o in zip(ch, rs):
            i, how = meta[j], ask[j]["how"]
            d = G.doc_node(docs[i][0]) if i is not None else None
            s = "v2018.5" if how == "cli" else how
            cat = dict((k, v) for k, v, w in d["a"]).get("category") if d else None
            vals = sorted(G.attr_values(d) | {""}) if d else [""]
            cases.append(dict(kind="tree", id=str(j), shown=cat in KIND.values(), doc=d or 0, path=ask[j]["file"], setpath=sets.path[s],
                              version=s != "v2018.5", rank={v: k + 1 for k, v in enumerate(vals)}, obs=o,
                              text=docs[i][0] if i is not None and len(docs[i][0]) < 6000 else ""))
    judge(check, work, {}, cases, "tree", lambda c: {k: v for k, v in c.items() if k != "doc"})
    check.cov["trees shown"] = sum(c["shown"] for c in cases)
    check.sample(cases[0]["text"][:1500])
    check.assumptions += ["the style sheets of the shipped file sets"]


CHECKS = dict(P17=p17, P18=p18, P19=p19, P22=p22)
