"""File sets of a user, for validations: shipped definitions, changed ones, and made up ones"""
import json
import os
import random
import shutil
import xml.etree.ElementTree as ET

import common
import nxdlgen as G

CACHE = os.path.join(common.REPO, "punx", "cache")
CATS = ("base_classes", "applications", "contributed_definitions")
KIND = dict(base_classes="base", applications="application", contributed_definitions="contributed")
# always there
CORE = ["NXroot", "NXentry", "NXdata", "NXsubentry", "NXcollection", "NXobject", "NXlog", "NXnote", "NXsample"]
PATTERN = '<xs:pattern value="[A-Za-z_][\\w_]*" />'
NAMES = [
    [],
    ["[a-zA-Z0-9_]([a-zA-Z0-9_.]*[a-zA-Z0-9_])?"],      # of later versions of NeXus
    ["[A-Za-z_][A-Za-z0-9_]*"],
    ["[A-Za-z_][\\w_]*", "[0-9]+[a-z]?"],
    ["[A-Za-z_][\\w_\\-]*"],
    ["[A-Za-z_][\\w_]*", "[a-z]+( [a-z]+)+"],
]
CLASSES = [[], ["NX.+", "MX[a-z]*"], ["NX[A-Za-z_].*"], ["NX[A-Za-z0-9_]+"], ["NX[A-Za-z0-9_]*[a-z0-9]"]]


def read(text):
    """own form of a NXDL document, without its documentation"""
    def conv(e):
        t = e.tag[len(G.NX) + 2:] if e.tag.startswith("{%s}" % G.NX) else e.tag
        a = {k: v for k, v in e.attrib.items() if not k.startswith("{")}
        return G.E(t, a, [conv(x) for x in e if isinstance(x.tag, str) and not x.tag.endswith("}doc") and x.tag.startswith("{%s}" % G.NX)])
    return conv(ET.fromstring(text))


def tops(d, t):
    return [x for x in d["c"] if x["t"] == t]


def add(d, x):
    """put x where it may be: attributes and items after symbols"""
    d["c"].append(x)


def has_attribute(d, name):
    return any(x["a"].get("name") == name for x in tops(d, "attribute"))


def changed(d, r):
    """a definition with some things changed, of which validations take notice"""
    for i in range(r.randrange(1, 5)):
        z = r.randrange(12)
        entry = next((x for x in tops(d, "group") if x["a"].get("type") in ("NXentry", "NXsubentry")), None)
        if z == 0:
            n = r.choice(["default", "signal", "target", "axes", "units", "flavor", "NX_class"])
            if not has_attribute(d, n):
                add(d, G.E("attribute", {"name": n}, [G.enum_el(r)] if r.random() < 0.5 else []))
        elif z == 1:
            ks = [x for x in d["c"] if x["t"] in ("group", "field", "link")]
            if ks:
                d["c"].remove(r.choice(ks))
        elif z == 2:
            add(d, G.field_el(r))
        elif z == 3:
            add(d, G.group_el(r, 1))
        elif z == 4:
            add(d, G.link_el(r))
        elif z == 5:
            add(d, G.E("group", {"type": r.choice(["NXentry", "NXsubentry", "NXdata"])},
                       [G.E("field", {"name": r.choice(["definition", "title", "data"])})]))
        elif z == 6:
            e = entry or d
            ds = [x for x in tops(e, "field") if x["a"].get("name") == "definition"]
            if ds:
                r.choice([lambda: e["c"].remove(ds[0]), lambda: ds[0]["a"].update(name="definitions")])()
            else:
                add(e, G.E("field", {"name": "definition"}))
        elif z == 7:
            e = entry or d
            fs = tops(e, "field")
            if fs:
                f = r.choice(fs)
                f["c"] = [x for x in f["c"] if x["t"] != "enumeration"] + [G.enum_el(r)]
        elif z == 8:
            gs = tops(d, "group")
            if gs:
                r.choice(gs)["a"]["name"] = r.choice(["entry", "data", "title", "x", "entry1"])
        elif z == 9:
            fs = [x for x in d["c"] if x["t"] in ("field", "group", "link")]
            if fs:
                x = r.choice(fs)
                add(d, dict(x, a=dict(x["a"])))
        elif z == 10:
            e = entry or d
            add(e, G.E("field", {"name": r.choice(G.NAMES)}, [G.enum_el(r)] if r.random() < 0.5 else []))
        elif z == 11:
            r.shuffle(gs := tops(d, "group"))
            d["c"] = [x for x in d["c"] if x["t"] != "group"] + gs
    sy = [x for x in d["c"] if x["t"] == "symbols"]
    d["c"] = sy + [x for x in d["c"] if x["t"] != "symbols"]
    return d


def make(work, name, seed, n=40):
    """a file set in the user cache; returns its folder"""
    r = random.Random("%s/%s/%s" % (common.SEED, name, seed))
    base = r.choice(["v2018.5", "v2018.5", "v3.3"])
    top = work.file("cfg", "punx", name)
    os.makedirs(top)
    with open(os.path.join(CACHE, base, "nxdl.xsd"), encoding="utf8") as f:
        xsd = f.read()
    i = seed % len(NAMES)
    if NAMES[i]:
        assert PATTERN in xsd
        xsd = xsd.replace(PATTERN, "\n".join('<xs:pattern value="%s"/>' % p for p in NAMES[i]))
    j = seed % len(CLASSES)
    if CLASSES[j]:
        xsd = xsd.replace('<xs:pattern value="NX.+"/>', "\n".join('<xs:pattern value="%s"/>' % p for p in CLASSES[j]))
    with open(os.path.join(top, "nxdl.xsd"), "w", encoding="utf8") as f:
        f.write(xsd)
    shutil.copy(os.path.join(CACHE, base, "nxdlTypes.xsd"), top)
    with open(os.path.join(top, "__github_info__.json"), "w") as f:
        json.dump(dict(ref=name, sha="%040x" % (seed + 1), zip_url="u", last_modified="2002-01-01 00:00:%02d" % (seed % 60)), f)
    have = {}
    for c in CATS:
        os.makedirs(os.path.join(top, c))
        for fn in sorted(os.listdir(os.path.join(CACHE, base, c))):
            if fn.endswith(".nxdl.xml"):
                have[fn.split(".")[0]] = (c, os.path.join(CACHE, base, c, fn))
    rest = [x for x in sorted(have) if x not in CORE]
    by = {c: [x for x in rest if have[x][0] == c] for c in CATS}
    chosen = [x for x in CORE if x in have] + r.sample(by["base_classes"], n // 4) + r.sample(by["applications"], min(n // 4, len(by["applications"]))) \
        + r.sample(by["contributed_definitions"], min(n // 4, len(by["contributed_definitions"])))
    for x in chosen:
        cat, fn = have[x]
        with open(fn, encoding="utf8") as f:
            text = f.read()
        if x in CORE:
            if x == "NXentry" and r.random() < 0.4:
                d = read(text)
                for g in tops(d, "group"):
                    if g["a"]["type"] == "NXdata":
                        g["a"]["minOccurs"] = r.choice(["0", "1", "1", "2"])
                text = G.write(d, r)
        elif r.random() < 0.7:
            d = changed(read(text), r)
            if r.random() < 0.3:
                cat = r.choice(CATS)
                d["a"]["category"] = KIND[cat]
            text = G.write(d, r)
        with open(os.path.join(top, cat, x + ".nxdl.xml"), "w", encoding="utf8") as f:
            f.write(text)
    # contributed definitions which are (or almost are) applications: an entry group, with or without something beside it
    for k, beside in enumerate((None, G.link_el, G.field_el, lambda r: G.group_el(r, 1), lambda r: G.attribute_els(r, 1)[0], None)):
        e = G.E("group", {"type": r.choice(["NXentry", "NXentry", "NXsubentry"])},
                [G.E("field", {"name": "definition"})] * (k < 5) + [G.E("field", {"name": "title"})])
        if r.random() < 0.2:
            e["a"]["name"] = "entry"
        d = G.E("definition", {"name": "NXk%d" % k, "type": "group", "category": "contributed", **({"version": "1"} if base == "v3.3" else {})},
                [x for x in ([beside(r)] if beside else []) if x["t"] == "attribute"] + [e]
                + [x for x in ([beside(r)] if beside else []) if x["t"] != "attribute"])
        with open(os.path.join(top, "contributed_definitions", "NXk%d.nxdl.xml" % k), "w", encoding="utf8") as f:
            f.write(G.write(d, r))
    # ... or where "definition" is something else, or lies elsewhere
    field = G.E("field", {"name": "definition"})
    for k, has in enumerate((G.E("group", {"name": "definition", "type": "NXnote"}), G.E("link", {"name": "definition", "target": "/NXentry/NXdata/data"}),
                             G.E("attribute", {"name": "definition"}), G.E("group", {"type": "NXdata"}, [field]),
                             G.E("field", {"name": "Definition"}), G.E("field", {"name": "definition_local"}),
                             G.E("field", {"name": "title"}, [G.E("attribute", {"name": "definition"})]),
                             G.E("group", {"type": "NXsubentry"}, [field]), G.E("choice", {"name": "definition"}, [G.E("group", {"type": "NXnote"}), G.E("group", {"type": "NXlog"})])), 6):
        if has["t"] == "choice" and base == "v3.3":
            continue
        e = G.E("group", {"type": r.choice(["NXentry", "NXentry", "NXsubentry"])}, [has, G.E("field", {"name": "x"})])
        d = G.E("definition", {"name": "NXk%x" % k, "type": "group", "category": "contributed", **({"version": "1"} if base == "v3.3" else {})}, [e])
        with open(os.path.join(top, "contributed_definitions", "NXk%x.nxdl.xml" % k), "w", encoding="utf8") as f:
            f.write(G.write(d, r))
    for k in range(n // 4):
        cat = r.choice(CATS)
        d = G.definition(r, version=base == "v3.3", depth=2, cat=KIND[cat])
        if r.random() < 0.5:
            d["c"] = [G.E("group", {"type": r.choice(["NXentry", "NXentry", "NXdata"])}, [x for x in d["c"] if x["t"] not in ("symbols", "doc")])]
            if r.random() < 0.7:
                d["c"][0]["c"].append(G.E("field", {"name": "definition"}))
        x = "NX" + r.choice("abcdef") + str(k)
        with open(os.path.join(top, cat, x + ".nxdl.xml"), "w", encoding="utf8") as f:
            f.write(G.write(d, r))
    return top
