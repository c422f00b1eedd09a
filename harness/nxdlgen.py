"""NXDL documents: read as nodes, made up, changed, and written in different ways"""
import re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

NX = "http://definition.nexusformat.org/nxdl/3.1"
XS = "http://www.w3.org/2001/XMLSchema"
XSI = "http://www.w3.org/2001/XMLSchema-instance"


def collapsed(v):
    return " ".join(v.replace("\n", " ").replace("\t", " ").replace("\r", " ").split(" ")).strip() if not v.strip() else \
        re.sub(r"[ \t\r\n]+", " ", v).strip(" ")


def att_name(k):
    return "xsi:" + k[len(XSI) + 2:] if k.startswith("{%s}" % XSI) else k


def node(e, ns, drop=()):
    """node of an element, for TLC; content of the tags in drop is left out"""
    def tag(t):
        return t[len(ns) + 2:] if t.startswith("{%s}" % ns) else t
    t = tag(e.tag)
    kids = [] if t in drop else [x for x in e if isinstance(x.tag, str)]
    has_text = bool((e.text or "").strip()) or any((x.tail or "").strip() for x in e)
    return dict(t=t, a=[[att_name(k), v, collapsed(v)] for k, v in e.attrib.items()],
                c=[node(x, ns, drop) for x in kids], x=has_text)


def doc_node(text):
    """node of a NXDL document, None when it is not XML"""
    try:
        return node(ET.fromstring(text), NX, drop=("doc",))
    except (ET.ParseError, ValueError):
        return None


def xsd_nodes(path):
    out = []
    for fn, ty in (("nxdl.xsd", False), ("nxdlTypes.xsd", True)):
        with open("%s/%s" % (path, fn), "rb") as f:
            root = ET.fromstring(f.read())

        def clean(e):
            n = node(e, XS)

            def strip(n):
                n["c"] = [strip(x) for x in n["c"] if x["t"] != "annotation"]
                return n
            return strip(n)
        for e in root:
            n = clean(e)
            if n["t"] not in ("annotation", "include"):
                n["types"] = ty
                out.append(n)
    return out


def patterns(nodes):
    out = set()

    def walk(n):
        if n["t"] == "pattern":
            out.update(v for k, v, w in n["a"] if k == "value")
        for x in n["c"]:
            walk(x)
    for n in nodes:
        walk(n)
    return sorted(out)


def matches(doc, pats):
    """pairs (pattern, value) that match, of all values in the document"""
    vals = set()

    def walk(n):
        for k, v, w in n["a"]:
            vals.update((v, w))
        for x in n["c"]:
            walk(x)
    walk(doc)
    return [[p, v] for p in pats for v in sorted(vals) if re.fullmatch(p, v)]


def attr_values(doc, out=None):
    out = set() if out is None else out
    for k, v, w in doc["a"]:
        out.add(v)
    for x in doc["c"]:
        attr_values(x, out)
    return out


# ----------------------------------------------------------- own form: [tag, {attributes}, [children], text]

def E(t, a=None, c=None, text=""):
    return dict(t=t, a=dict(a or {}), c=list(c or []), text=text)


def write(d, r=None, style="plain"):
    """XML text of a document in own form; style: plain, prefix, odd (comments, blanks, instructions)"""
    p = "nxdl:" if style == "prefix" else ""

    def odd(level):
        if style != "odd" or r is None:
            return "\n" + "  " * level
        return r.choice(["", " ", "\n\n", "<!-- a comment <group> -->", "\n<!---->\n", "<?pi x?>" if r.random() < 0.3 else "\t"])

    def w(n, level):
        t = n["t"] if ":" in n["t"] else p + n["t"]
        ks = list(n["a"].items())
        if style == "odd" and r is not None:
            r.shuffle(ks)
        s = "<" + t + "".join(" %s=%s" % (k, quoteattr(v)) for k, v in ks)
        if level == 0:
            s += ' xmlns%s="%s" xmlns:xsi="%s" xmlns:o="urn:other"' % (":nxdl" if p else "", n.get("ns", NX), XSI)
            if style != "plain":
                s += ' xsi:schemaLocation="%s ../nxdl.xsd"' % NX
        if not n["c"] and not n["text"]:
            return s + ("/>" if style != "odd" else "></%s>" % t)
        s += ">" + escape(n["text"])
        for x in n["c"]:
            s += odd(level + 1) + w(x, level + 1)
        return s + odd(level) + "</" + t + ">"
    head = '<?xml version="1.0" encoding="UTF-8"?>\n'
    if style == "odd":
        head += '<?xml-stylesheet type="text/xsl" href="nxdlformat.xsl"?>\n<!-- <definition/> -->\n'
    return head + w(d, 0) + "\n"


NAMES = ["a", "b", "a1", "a2", "data", "data1", "entry", "x_y", "Title", "_u", "signal", "b1"]
TYPES = ["NXdata", "NXentry", "NXa", "NXb", "NXdetector", "NXsubentry", "NXa1"]


def doc_el(r):
    return E("doc", {}, [E("o:b", {}, [], "bold")] if r.random() < 0.2 else [], r.choice(["about it", "", "a < b & c"]))


def enum_el(r):
    return E("enumeration", {}, [E("item", {"value": v}, [doc_el(r)] if r.random() < 0.2 else [])
                                 for v in r.sample(["1", "2", "on", "off", "x y", "\u00e9", " z", "on"], r.randrange(1, 4))])


def dims_el(r):
    a = {}
    if r.random() < 0.6:
        a["rank"] = r.choice(["1", "2", "n", "dataRank"])
    ds = []
    for i in range(r.randrange(4)):
        d = {"index": r.choice([str(i + 1), str(i + 1), "1", "0", "n"])}
        for k in ("value", "ref", "refindex", "incr"):
            if r.random() < 0.4:
                d[k] = r.choice(["n", "1", "tof", "i+1"])
        if r.random() < 0.2:
            d["required"] = r.choice(["true", "false"])
        ds.append(E("dim", d))
    return E("dimensions", a, ([doc_el(r)] if r.random() < 0.3 else []) + ds)


def attribute_els(r, n, unique=True):
    names = r.sample(NAMES, min(n, len(NAMES))) if unique else [r.choice(NAMES) for i in range(n)]
    out = []
    for x in names:
        a = {"name": x}
        if r.random() < 0.4:
            a["type"] = r.choice(["NX_CHAR", "NX_INT", "NX_FLOAT NX_INT"])
        if r.random() < 0.3:
            a["optional"] = r.choice(["true", "false", "1"])
        if r.random() < 0.1:
            a["deprecated"] = "see x"
        c = ([doc_el(r)] if r.random() < 0.3 else []) + ([enum_el(r)] if r.random() < 0.4 else []) + ([dims_el(r)] if r.random() < 0.15 else [])
        out.append(E("attribute", a, c))
    return out


def field_el(r):
    a = {"name": r.choice(NAMES)}
    for k, vs in (("type", ["NX_CHAR", "NX_FLOAT", "NX_NUMBER"]), ("units", ["NX_LENGTH", "NX_ANY"]), ("minOccurs", ["0", "1"]),
                  ("maxOccurs", ["1", "unbounded"]), ("signal", ["1"]), ("axes", ["x:y"]), ("long_name", ["long"]),
                  ("interpretation", ["image", "scalar"]), ("deprecated", ["see y"]), ("stride", ["2"])):
        if r.random() < 0.2:
            a[k] = r.choice(vs)
    c = ([doc_el(r)] if r.random() < 0.3 else []) + ([dims_el(r)] if r.random() < 0.4 else []) + attribute_els(r, r.choice([0, 0, 1, 3])) \
        + ([enum_el(r)] if r.random() < 0.3 else [])
    return E("field", a, c)


def link_el(r):
    return E("link", {"name": r.choice(NAMES), "target": r.choice(["/NXentry/NXdata/data", "/entry/data", "/a:NXa/b"])},
             [doc_el(r)] if r.random() < 0.3 else [])


def group_el(r, depth):
    a = {"type": r.choice(TYPES)}
    for k, vs in (("name", NAMES), ("minOccurs", ["0", "1", "2"]), ("maxOccurs", ["1", "unbounded"]), ("deprecated", ["see z"])):
        if r.random() < (0.5 if k == "name" else 0.15):
            a[k] = r.choice(vs)
    return E("group", a, content_els(r, depth - 1))


def content_els(r, depth):
    c = [doc_el(r)] if r.random() < 0.5 else []
    c += attribute_els(r, r.choice([0, 0, 1, 2]))
    items = []
    for i in range(r.choice([0, 1, 2, 3, 5, 8])):
        z = r.random()
        items.append(field_el(r) if z < 0.45 else link_el(r) if z < 0.65 else group_el(r, depth) if depth else field_el(r))
    if r.random() < 0.6:  # usual order
        items.sort(key=lambda x: "group field link".split().index(x["t"]))
    return c + items


def definition(r, version=False, depth=3, cat=None):
    a = {"name": r.choice(["NXa", "NXb", "NXsomething"]), "type": "group", "category": cat or r.choice(["base", "application", "contributed"])}
    if version:
        a["version"] = "1.0"
    if r.random() < 0.3:
        a["extends"] = "NXobject"
    if r.random() < 0.2:
        a["ignoreExtraGroups"] = r.choice(["true", "false"])
    c = []
    if r.random() < 0.4:
        sy = [E("symbol", {"name": x} if r.random() < 0.9 else {}, [doc_el(r)] if r.random() < 0.6 else [])
              for x in r.sample(["n", "m", "nP", "tof"], r.randrange(4))]
        c.append(E("symbols", {}, ([doc_el(r)] if r.random() < 0.5 else []) + sy, r.choice(["", "free text"])))
    return E("definition", a, c + content_els(r, depth))


def all_nodes(d):
    yield d
    for x in d["c"]:
        yield from all_nodes(x)


BAD = ["", "9x", "a b", "a-b", "nx", "NX", "-1", "+1", "x" * 64, "maybe", "TRUE", " a ", "/a/b", "a/b", "unbounded", "base", "\u00e9", "1.5", "none", "image"]


def changed(d, r):
    """a document with one thing changed"""
    import copy
    d = copy.deepcopy(d)
    ns = [n for n in all_nodes(d) if n["t"] not in ("doc", "o:b")]
    n = r.choice(ns)
    z = r.randrange(13)
    if z == 0 and n["a"]:
        n["a"].pop(r.choice(sorted(n["a"])))
    elif z == 1:
        n["a"][r.choice(["extra", "name", "type", "nameType", "version", "value", "minOccurs", "xml:lang", "o:a"])] = r.choice(BAD + ["NXa", "specified", "any"])
    elif z in (2, 3) and n["a"]:
        n["a"][r.choice(sorted(n["a"]))] = r.choice(BAD)
    elif z == 4:
        n["t"] = r.choice(["group", "field", "link", "attribute", "enumeration", "item", "symbol", "Group", "o:group", "choice", "dim", "definition"])
    elif z == 5 and len(n["c"]) > 1:
        r.shuffle(n["c"])
    elif z == 6 and n["c"]:
        n["c"].append(copy.deepcopy(r.choice(n["c"])))
    elif z == 7:
        n["text"] = "some text"
    elif z == 8:
        n["c"].insert(r.randrange(len(n["c"]) + 1), copy.deepcopy(r.choice(ns)))
    elif z == 9 and n["c"]:
        n["c"].pop(r.randrange(len(n["c"])))
    elif z == 10:
        n["c"].append(E("choice", {"name": "pick"}, [E("group", {"type": "NXa"}) for i in range(r.randrange(4))]))
    elif z == 11:
        d["ns"] = NX + r.choice(["", "", "x", "/"])
    else:
        n["c"].insert(0, E(r.choice(["doc", "doc", "dimensions", "symbols"])))
    return d


def broken(text, r):
    """text that is (mostly) no XML any more"""
    z = r.randrange(4)
    if z == 0:
        return text[: len(text) // 2]
    if z == 1:
        return text.replace("</definition>", "").replace("</nxdl:definition>", "")
    if z == 2:
        return ""
    return text.replace("<", "&", 1)
