"""Seeded descriptions of HDF5 data files, of all kinds which NeXus files may be."""
import random

STRICT = ["a", "x", "y", "data", "title", "time", "_b", "x1", "long_name_9", "signal", "axes", "target", "default",
          "nx_class", "__"]
RELAXED = ["A", "Data", "X_1", "_Z", "étude", "x\u00e9", "a\u0661", "NXentry", "camelCase", "b\u03b2", "A1"]
INVALID = ["1a", "a b", "a-b", "a.b", "9", "a:b", "é", "a%", "x\u00b2y!", "a\n", " a", "a ", "a'b", "a+", "\u2460", "-", "a\u2028"]
CLASSES = ["NXentry", "NXdata", "NXsubentry", "NXinstrument", "NXdetector", "NXsample", "NXcollection", "NXlog",
           "NXmonitor", "NXuser", "NXprocess", "NXnote", "NXroot", "NXobject", "NXtransformations"]
ODD_CLASSES = ["NXsnsevent", "NXsnshisto", "NXmx", "NXsas", "NXcanSAS", "NXspecdata", "NXfoo", "NX", "NXdata/",
               "NXentry/NXdata", "NXentry/definition", "NXentry/", "NXcollectionX", "nxdata", "SDS", "", "NXdata ",
               "NX data", "NXdata\n", "NX\u00e9", "NXContainer", "NXmagnetic_kicker", "NXsepearator", "NX1", "NX@x", "NXdata@signal",
               "\nNXentry", " NXdata", "\tNXsample", "xNXentry", "_NXdata", "NXa-b", "NXuser.v2"]
DEFINITIONS = ["NXmx", "NXsas", "NXcanSAS", "NXarchive", "NXmonopd", "NXspecdata", "NXsnsevent", "NXcontainer",
               "NXdata", "NXentry", "NXfoo", "", "NXtofnpd", "NXscan", "NXstxm", "NXtomo", "NXxas", "NXreflections",
               "NXdirecttof", "NXindirecttof", "NXiqproc", "NXlauetof", "NXrefscan", "NXarpes", "NXfluo"]
# attribute names which are almost names of NeXus
NEAR = ["NX_x", "NX_version", "NX_classes", "NX_Class", "nx_class", "NX", "NX_", "NXclass", "signal_indices", "Axes", "SIGNAL", "Signal", "signals",
        "targets", "Target", "Units", "units1", "auxiliary_signals", "@units", "defaults", "Default", "_default", "axis_", "HDF5_Version",
        "hdf5_version", "file_name2", "NeXus_version2", "_signal", "x_indices", "data_indices", "IDF_Version2"]
# attribute names with a meaning to somebody: HDF5, netCDF, NeXus
RESERVED = ["DIMENSION_LIST", "REFERENCE_LIST", "DIMENSION_LABELS", "CLASS", "NAME", "TITLE", "VERSION", "PALETTE", "IMAGE_VERSION", "_FillValue",
            "_Netcdf4Dimid", "_NCProperties", "DIMSCALES", "depends_on", "vector", "transformation_type", "offset", "interpretation", "URL",
            "uncertainties", "start", "name", "type", "version", "description", "comment", "creator", "index", "type_units", "minOccurs", "optional",
            "x_set", "_weights", "data_errors", "silx_style", "h5py_version"]
FIELDS = ["title", "start_time", "end_time", "definition", "name", "data", "time", "value", "signal", "x", "y", "mode",
          "distance", "polar_angle", "description", "type", "version", "program_name", "errors", "scaling_factor", "target", "axes"]


class Gen:
    def __init__(self, seed, facts=None, **opt):
        self.r = random.Random(seed)
        self.facts = facts or {}
        self.opt = dict(depth=4, width=5, weird=0.15, links=0.12, attrs=0.5, odd=0.15, names=0.25, ext=0.15,
                        collection=0.05, newline=True, at=0.0, order=0.1, long=0.01)
        self.opt.update(opt)
        self.paths = ["/"]
        self.hasext = False

    def p(self, k):
        return self.r.random() < (self.opt[k] if isinstance(k, str) else k)

    # ---------------------------------------------------------- names & values
    def name(self, used, cls=None):
        for _ in range(50):
            z = self.r.random()
            if cls in self.facts and z < 0.35:
                d = self.facts[cls]
                pool = [f["n"] for f in d["f"]] + [g["n"] or g["ty"][2:] for g in d["g"]]
                if self.p(0.15):
                    pool = self.beside(d)
                n = self.r.choice(pool or FIELDS)
                if n and self.p(0.08):
                    n = self.near(n)
            elif z < 0.35 + self.opt["names"]:
                n = self.r.choice(RELAXED if self.p(0.5) else INVALID)
            elif z < 0.85:
                n = self.r.choice(FIELDS)
            else:
                n = self.r.choice(STRICT) + str(self.r.randrange(40))
            if not self.opt["newline"]:
                n = n.replace("\n", "_").replace("\u2028", "_").strip()
            if self.p("at"):
                n = n + "@" + self.r.choice(["", "x", "signal2", "NX_class", "target", "signal", "axes"])
            if self.p("long"):
                n += self.r.choice(["_x", "A1", " b"]) * self.r.choice([12, 33, 66, 130, 300])
            if n and n not in used and "/" not in n and n != ".":
                return n
        n = "u%d" % self.r.randrange(10**6)
        return n

    def beside(self, d):
        """names in the definition of a class which are no names of its fields or groups"""
        out = [x["n"] for x in d["l"] * 3 + d["at"]]
        for x in d["f"]:
            out += [a["n"] for a in x["at"]] + [v for v in x["en"] if v and "/" not in v][:1]
        for g in d["g"]:
            out += [g["ty"]] + [x["n"] for x in g["f"] + g["l"] + g["at"]] + [x["n"] or x["ty"][2:] for x in g["g"]] + [(g["n"] or g["ty"][2:]) + "1"]
        return [n for n in out if n]

    def near(self, n):
        """almost this name"""
        r = self.r
        return r.choice([n.upper(), n.lower(), n.capitalize(), n + "s", n + "_", "_" + n, n + "1", n + "_indices", n[:-1] or "x", n + n,
                         "NX_" + n, n.replace("_", ""), n.swapcase()])

    def weird(self):
        r = self.r
        return r.choice([
            dict(t="i", v=r.choice([0, 1, 2, -1, 10])), dict(t="f", v=r.choice([1.0, 1.5, 0.0])),
            dict(t="il", v=[1]), dict(t="il", v=[1, 2]), dict(t="fl", v=[1.0]), dict(t="e"), dict(t="es"),
            dict(t="z"), dict(t="zi"), dict(t="bool", v=True), dict(t="c"), dict(t="ref"),
            dict(t="sl", v=[]), dict(t="sl2", v=[["x", "y"], ["a", "b"]]), dict(t="bl2", v=[["x", "y"]]),
            dict(t="rawb", v=[0xff, 0x61, 0xe9]), dict(t="rawbl", v=[[0xff], [0x61, 0xc3]]),
            dict(t="b", v=""), dict(t="s", v=""), dict(t="sl", v=["x"]), dict(t="bl", v=["x", "y"]),
            dict(t="b", v="\u00e9t\u00e9"), dict(t="sl", v=["\u00e9"]), dict(t="bl", v=["\u00e9", "x"]),
        ])

    def text(self, s):
        if self.p("long"):
            s += self.r.choice(["x", "/y", ", zz", "\u00b5m "]) * self.r.choice([30, 90, 270, 1100])
        return dict(t=self.r.choice("sssb"), v=s)

    def pathlike(self, kids):
        r = self.r
        names = [k for k, _ in kids] or ["x"]
        n = r.choice(names)
        return r.choice([n, n, n, n, n, "missing", "a/b", n + "/" + r.choice(FIELDS), "/" + n, r.choice(self.paths),
                         "/missing/" + n, "./" + n, "", ".", "/", "1", n + "/", "//" + n, n.upper(), n + " "])

    def attr_value(self, k, kids, here):
        r = self.r
        if self.p("weird"):
            return self.weird()
        if k == "signal":
            return self.text(self.pathlike(kids)) if here == "g" else r.choice(
                [dict(t="s", v="1"), dict(t="b", v="1"), dict(t="i", v=1), dict(t="s", v="2"), dict(t="s", v="01"),
                 dict(t="i", v=2), dict(t="s", v="yes"), dict(t="s", v="1.0"), dict(t="s", v="+1"), dict(t="s", v=" 1"),
                 dict(t="s", v="001"), dict(t="s", v="11"), dict(t="s", v="10"), dict(t="s", v="\u00b9"), dict(t="s", v="\u00b2"),
                 dict(t="s", v="\u2460"), dict(t="s", v="1_"), dict(t="s", v="1\n" if self.opt["newline"] else "1 ")])
        if k == "axes":
            if self.p(0.5):
                return self.text(self.pathlike(kids))
            v = [self.pathlike(kids) or "x" for _ in range(r.randrange(1, 4))]
            return dict(t=r.choice(["sl", "bl"]), v=v)
        if k == "target":
            return self.text(r.choice([r.choice(self.paths), r.choice(self.paths), self.pathlike(kids), "/nowhere",
                                       "/" + r.choice(FIELDS)]))
        if k == "default":
            return self.text(self.pathlike(kids))
        return r.choice([self.text(r.choice(["m", "counts", "", "1", "\u00b5m"])), dict(t="i", v=3), dict(t="f", v=2.5),
                         dict(t="il", v=[0, 1])])

    def attrs(self, cls, kids, here):
        r, out, used = self.r, [], set()
        n = 0
        while self.p("attrs") and n < 6:
            n += 1
            z = r.random()
            if z < 0.55:
                k = r.choice(["signal", "axes", "target", "default", "units", "long_name", "axis", "primary"])
            elif z < 0.75 and cls in self.facts and self.facts[cls]["at"]:
                k = r.choice(self.facts[cls]["at"])["n"]
                if r.random() < 0.12:
                    k = self.near(k)
                elif r.random() < 0.12:
                    d = self.facts[cls]
                    k = r.choice([x["n"] for x in d["f"] + d["l"]] + [x["n"] or x["ty"][2:] for x in d["g"]] + self.beside(d))
            elif z < 0.83:
                k = r.choice(NEAR)
            elif z < 0.90:
                k = r.choice(RESERVED)
            else:
                k = self.name(used)
            if k in used or k == "NX_class":
                continue
            used.add(k)
            v = self.attr_value(k, kids, here)
            if cls in self.facts and self.p(0.6):
                for a in self.facts[cls]["at"]:
                    if a["n"] == k and a["en"]:
                        v = r.choice([self.text(r.choice(a["en"])), self.text("no"), dict(t="sl", v=[a["en"][0]]),
                                      self.text(a["en"][0] + " ")])
            out.append([k, v])
        return out

    def nxclass(self, parent, depth):
        r = self.r
        if self.p("odd"):
            c = r.choice(ODD_CLASSES)
            if not self.opt["newline"]:
                c = c.replace("\n", "").strip()
            return c
        if depth == 1:
            return r.choice(["NXentry"] * 6 + CLASSES)
        if self.p("collection"):
            return "NXcollection"
        if parent == "NXentry":
            return r.choice(["NXdata"] * 3 + ["NXsubentry"] + CLASSES)
        if parent in self.facts and self.p(0.5):
            g = self.facts[parent]["g"]
            if g:
                return r.choice(g)["ty"]
        if self.facts and self.p(0.2):
            own = [c for c, d in self.facts.items() if len(c) < 5]  # made up definitions of a file set of a user
            return r.choice(own if own and self.p(0.3) else list(self.facts))
        return r.choice(CLASSES)

    # ---------------------------------------------------------- objects
    def data(self, name=None):
        r = self.r
        if name == "definition" and self.p(0.85):
            d = r.choice(DEFINITIONS) if self.p(0.7) or not self.facts else r.choice(list(self.facts))
            v = r.choice([dict(t="s", v=d), dict(t="b", v=d), dict(t="sl", v=[d]), dict(t="bl", v=[d]),
                          dict(t="sl", v=[d, "NXsas"])])
        elif self.p(0.3):
            v = self.weird()
        else:
            v = r.choice([dict(t="i", v=5), dict(t="s", v="text"), dict(t="shape", v=[3]), dict(t="shape", v=[2, 3]),
                          dict(t="fl", v=[1.5, 2.5]), dict(t="sl", v=["p", "q"])])
        return dict(k="d", v=v, attrs=self.attrs(None, [], "d"))

    def group(self, depth, cls_parent, addr):
        r = self.r
        nx = None
        attrs0 = []
        if depth > 0 and not self.p(0.07):
            nx = self.nxclass(cls_parent, depth)
            z = self.r.random()
            if z < self.opt["weird"] * 0.3:
                attrs0 = [["NX_class", self.weird()]]
                nx = None
            elif z < self.opt["weird"] * 0.4:
                attrs0 = [["NX_class", dict(t="sl", v=[nx])]]
                nx = None
            else:
                attrs0 = [["NX_class", self.text(nx)]]
        kids, used = [], set()
        n = r.randrange(1, self.opt["width"] + 1) if depth < self.opt["depth"] else r.randrange(0, 3)
        for _ in range(n):
            nm = self.name(used, nx)
            used.add(nm)
            a = (addr if addr != "/" else "") + "/" + nm
            self.paths.append(a)
            if self.p("links"):
                kid = self.link(a, used)
            elif depth == 0 and not self.p(0.1) or (depth < self.opt["depth"] and self.p(0.4)):
                kid = self.group(depth + 1, nx, a)
            elif self.p(0.02):
                kid = dict(k="t", dt="f8", attrs=self.attrs(None, [], "t"))
            else:
                kid = self.data(nm)
            kids.append([nm, kid])
        if nx == "NXdata" and self.p(0.6) and kids:
            attrs0.append(["signal", self.text(self.pathlike(kids))])
        if nx in ("NXentry", "NXsubentry") and self.p(0.5) and kids:
            attrs0.append(["default", self.text(self.pathlike(kids))])
        have = {k for k, _ in attrs0}
        attrs = attrs0 + [x for x in self.attrs(nx or "NXroot", kids, "g") if x[0] not in have]
        g = dict(k="g", attrs=attrs, kids=kids)
        if self.p("order"):
            g["order"] = True
        return g

    def link(self, a, used):
        r = self.r
        t = r.choice(["soft", "soft", "hard", "hard", "ext", "ext", "cycle", "loop"])
        if t == "loop":
            return dict(k="soft", p=a)
        if t == "cycle":
            p = a.rsplit("/", 1)[0] or "/"
            for _ in range(r.randrange(0, 3)):
                p = p.rsplit("/", 1)[0] or "/"
            return dict(k=r.choice(["soft", "hard"]), p=p)
        if t == "ext":
            self.hasext = True
            return dict(k="ext", f=r.choice(["ext", "ext", "ext", "missing", "self", "text"]),
                        p=r.choice(["/", "/entry", "/entry/data", "/entry/data/x", "/entry/data/only_here", "/x", "/nowhere", "/back",
                                    r.choice(self.paths)]))
        return dict(k=t, p=r.choice(self.paths + ["/nowhere"]))

    def few(self):
        """attributes that name something of this file or of the other one"""
        names = ["x", "only_here", "entry", "up"] + [a.rsplit("/", 1)[1] for a in self.paths if a != "/"][:8]
        out = []
        for k in ("axes", "signal", "target", "default"):
            if self.r.random() < 0.5:
                n = self.r.choice(names)
                out.append([k, self.r.choice([self.text(n), dict(t="sl", v=[n, self.r.choice(names)])]) if k == "axes" else
                            self.text(n if k != "target" else self.r.choice(["/" + n, "/entry/data/" + n, self.r.choice(self.paths)]))])
        return out + self.same()

    def same(self):
        """attributes with names that views of linked things use"""
        return [[k, self.text(self.r.choice(["x", "ext.h5", "/entry", ""]))] for k in ("file", "path", "link") if self.r.random() < 0.15]

    def external(self):
        d = dict(k="g", attrs=[["NX_class", self.text("NXdata")], ["signal", self.text(self.r.choice(["x", "only_here"]))]] + self.same(),
                 kids=[["x", dict(k="d", v=dict(t="shape", v=[4]), attrs=[["units", self.text("m")]] + self.few())],
                       ["only_here", dict(k="d", v=dict(t="i", v=2), attrs=self.few())], ["up", dict(k="soft", p="/entry")], ["abs", dict(k="soft", p="/x")]])
        e = dict(k="g", attrs=[["NX_class", self.text("NXentry")], ["default", self.text("data")]] + self.same(),
                 kids=[["data", d], ["again", dict(k="hard", p="/entry/data")]])
        return dict(k="g", attrs=[["default", self.text("entry")]],
                    kids=[["entry", e], ["x", dict(k="d", v=dict(t="i", v=1), attrs=self.few())],
                          ["back", dict(k="ext", f="self", p="/")]])

    def file(self):
        root = self.group(0, None, "/")
        d = dict(root=root)
        if self.hasext:
            d["ext"] = self.external()
        return d

    # ---------------------------------------------------------- focused files
    def plots(self):
        """files about the default plot: entries, data groups, @default, @signal"""
        r = self.r
        ent = ["e1", "e2", "e3"][:r.choice([0, 1, 1, 2, 2, 3])]
        kids = []
        sub = r.random() < 0.15
        for e in ent:
            ecls = r.choice(["NXentry"] * 8 + ["NXsubentry", "NXcollection", "NXprocess"])
            ek, names = [], ["d1", "d2", "d3"][:r.choice([0, 1, 1, 2, 2, 3])]
            for d in names:
                dk = []
                dcls = r.choice(["NXdata"] * 8 + ["NXlog", "NXcollection"])
                fields = ["y", "z", "signal"][:r.randrange(0, 4)]
                for y in fields:
                    at = []
                    if r.random() < 0.35:
                        at.append(["signal", r.choice([dict(t="s", v="1")] * 4 + [dict(t="i", v=1), dict(t="b", v="1"),
                                  dict(t="s", v="2"), dict(t="s", v="01"), dict(t="sl", v=["1"]), dict(t="il", v=[1])])])
                    if r.random() < 0.1:
                        at.append([r.choice(["a@signal", "-@signal", "signal@signal", "@signal", "signals", "Signal", "signal@"]),
                                   self.text(r.choice(["1", "1", "2"]))])
                    if r.random() < 0.1:
                        dk.append([y, dict(k="g", attrs=[["NX_class", self.text("NXlog")]] + at, kids=[])])
                    else:
                        dk.append([y, dict(k="d", v=dict(t="shape", v=[3]), attrs=at)])
                at = [["NX_class", self.text(dcls)]]
                if r.random() < 0.6:
                    at.append(["signal", self.text(r.choice(fields * 4 + ["y", "none", ".", "y/", "./y", "/y", ""]))])
                    if self.p("weird"):
                        at[-1][1] = self.weird()
                if r.random() < 0.1:
                    dk.append(["inner", dict(k="g", attrs=[["NX_class", self.text("NXdata")],
                                                          ["signal", self.text("q")]],
                                             kids=[["q", dict(k="d", v=dict(t="i", v=1), attrs=[])]])])
                if r.random() < 0.06:
                    dk.append(["x@signal", dict(k="d", v=dict(t="i", v=1), attrs=[])])
                ek.append([d, dict(k="g", attrs=at, kids=dk)])
            if r.random() < 0.12:
                ek.append(["field", dict(k="d", v=dict(t="shape", v=[2]),
                                         attrs=[["signal", r.choice([dict(t="s", v="1"), dict(t="i", v=1)])]])])
            if sub and ecls == "NXentry":
                ek = [["s", dict(k="g", attrs=[["NX_class", self.text("NXsubentry")]]
                                 + ([["default", self.text("d1")]] if r.random() < 0.5 else []), kids=ek)]]
            at = [["NX_class", self.text(ecls)]]
            if r.random() < 0.6:
                at.append(["default", self.text(r.choice(names * 4 + ["s", "d1", "none", "", "./d1", "d1/", "/" + e + "/d1"]))])
                if self.p("weird"):
                    at[-1][1] = self.weird()
            g = dict(k="g", attrs=at, kids=ek)
            kids.append([e, g])
        if ent and self.p("links"):
            kids.append(["again", dict(k=r.choice(["soft", "hard"]),
                                       p=r.choice(["/" + ent[0], "/%s/d1" % ent[0], "/%s/d1/y" % ent[0]]))])
        if ent and self.p("links"):
            kids[0][1]["kids"].append(["linked", dict(k=r.choice(["soft", "hard"]),
                                                      p=r.choice(["/%s/d1" % ent[-1], "/%s/d1/y" % ent[-1]]))])
        at = []
        if r.random() < 0.6:
            at.append(["default", self.text(r.choice(ent * 4 + ["e1", "none", "", "/e1", "./e1", "e1/d1"]))])
        r.shuffle(kids)
        return dict(root=dict(k="g", attrs=at, kids=kids, order=r.random() < 0.4))

    def application(self):
        """files which declare application definitions"""
        r = self.r
        apps = [c for c, d in sorted(self.facts.items()) if d["cat"] != "base_classes"]
        kids = []
        for e in ["entry", "e2"][:r.choice([1, 1, 2])]:
            kids.append([e, self.declared(apps, "NXentry", r.random() < 0.4)])
        return dict(root=dict(k="g", attrs=[], kids=kids))

    def declared(self, apps, cls, sub=False):
        r = self.r
        z = r.random()
        name = r.choice(apps) if z < 0.75 else r.choice(sorted(self.facts)) if z < 0.85 else r.choice(
            ["NXfoo", "", "nxmx", "NXmx ", "mx"])
        kids = []
        d = self.facts.get(name)
        if d and d["g"]:
            for f in d["g"][0]["f"]:
                if f["n"] == "definition" or r.random() < 0.35:
                    continue
                t = r.random()
                if f["en"] and t < 0.8:
                    e = r.choice(f["en"])
                    v = r.choice(f["en"] * 2 + [e, e.strip(), " " + e, e + " ", e.strip() + " ", e.replace(" ", "  "),
                                 f["en"][0] + "x", f["en"][0].upper(), "no", ""])
                    v = r.choice([dict(t="s", v=v), dict(t="b", v=v), dict(t="sl", v=[v]), dict(t="bl", v=[v, "no"]),
                                  dict(t="sl", v=["no", v])])
                    if r.random() < 0.08:
                        v = self.weird()
                elif t < 0.93:
                    v = dict(t="s", v="2020-01-01")
                else:
                    v = self.weird()
                kid = dict(k="d", v=v, attrs=[])
                if r.random() < 0.05:
                    kid = dict(k="g", attrs=[["NX_class", self.text("NXnote")]], kids=[])
                if f["n"] and "/" not in f["n"]:
                    kids.append([f["n"], kid])
        z = r.random()
        if z < 0.9:
            v = r.choice([dict(t="s", v=name), dict(t="b", v=name), dict(t="sl", v=[name]), dict(t="bl", v=[name])])
            if self.p("weird"):
                v = self.weird()
            kid = dict(k="d", v=v, attrs=[])
            if r.random() < 0.05:
                kid = dict(k="g", attrs=[], kids=[])
            kids.append(["definition", kid])
        if sub:
            kids.append(["sub", self.declared(apps, r.choice(["NXsubentry"] * 5 + ["NXentry", "NXcollection"]))])
        if r.random() < 0.2:
            kids.append(["extra", self.data("extra")])
        seen, out = set(), []
        for k in kids:
            if k[0] not in seen:
                seen.add(k[0])
                out.append(k)
        if self.p("links") and out:
            out.append(["link", dict(k="soft", p="/entry/" + r.choice(out)[0])])
        r.shuffle(out)
        return dict(k="g", attrs=[["NX_class", self.text(cls)]], kids=out, order=r.random() < 0.3)

    # ---------------------------------------------------------- large files
    def deep(self):
        """groups inside of each other, with a few other members"""
        r = self.r
        root = dict(k="g", attrs=[], kids=[])
        g, cls, addr, chain = root, None, "", ["/"]
        for i in range(r.choice([8, 12, 20, 33, 48])):
            cls = self.nxclass(cls, i + 1) if i and r.random() < 0.9 else "NXentry"
            at = [["NX_class", self.text(cls)]] if r.random() < 0.97 else []
            nm = r.choice(["g", "data", "entry", "x%d" % i, "Sub"])
            k = dict(k="g", attrs=at + [x for x in self.attrs(cls, [["g", None], ["x", None]], "g")], kids=[])
            g["kids"].append([nm, k])
            addr += "/" + nm
            chain.append(addr)
            if r.random() < 0.4:
                k["kids"].append(["a", self.data("a")])
            if r.random() < 0.15:
                k["kids"].append(["definition", self.data("definition")])
            g = k
        g["kids"].append(["z", self.data("z")])
        if r.random() < 0.6:
            g["kids"].append(["up", dict(k=r.choice(["soft", "hard"]), p=r.choice(chain))])
        return dict(root=root)

    def wide(self):
        """groups with many members and attributes"""
        r = self.r
        self.opt.update(depth=2, attrs=0.3)
        n = r.choice([25, 60, 120])
        root = dict(k="g", attrs=[], kids=[])
        many = r.randrange(4)
        for e in range(r.choice([11, 20, 40]) if many == 0 else 2):
            kids = []
            for i in range(n if many == 1 and e == 0 else r.randrange(1, 4)):
                nm = "%s%d" % (r.choice(["d", "d", "x", "D"]), i)
                z = r.random()
                if z < 0.5:
                    dk = [["y", self.data("y")], ["x", self.data("x")]]
                    kids.append([nm, dict(k="g", attrs=[["NX_class", self.text(self.nxclass("NXentry", 2))], ["signal", self.text("y")]], kids=dk)])
                elif z < 0.95:
                    kids.append([nm, self.data(nm)])
                else:
                    kids.append([nm, dict(k=r.choice(["soft", "hard"]), p="/entry0")])
            at = [["NX_class", self.text(r.choice(["NXentry", "NXentry", "NXsubentry", "NXcollection"]))]]
            if many == 2:
                at += [["a%d" % i, self.text("v")] for i in range(n)]
            if many == 3:
                kids.append(["ax", dict(k="d", v=dict(t="shape", v=[2]), attrs=[["axes", dict(t="sl", v=[r.choice(["d0", "x%d" % i, "none"]) for i in range(n)])]])])
            root["kids"].append(["entry%d" % e, dict(k="g", attrs=at, kids=kids)])
        return dict(root=root)
