"""NXDL definitions of a file set as JSON facts: a plain transcription of the XML.

Nothing of punx is used here.  The TLA+ module Nxdl gives these facts their meaning.
"""
import os
import lxml.etree

NX = "{http://definition.nexusformat.org/nxdl/3.1}"
XS = "{http://www.w3.org/2001/XMLSchema}"
CATEGORIES = ("base_classes", "applications", "contributed_definitions")


def _attr(node):
    en = [i.get("value") for e in node.findall(NX + "enumeration")
          for i in e.findall(NX + "item") if i.get("value") is not None]
    return dict(n=node.get("name"), en=en)


def _dims(node):
    d = node.findall(NX + "dimensions")
    if len(d) != 1:
        return dict(has=False, rank="", dim=[])
    dim = []
    for x in d[0].findall(NX + "dim"):
        dim.append({k: (x.get(k) if x.get(k) is not None else "None")
                    for k in "index value ref refindex incr".split()})
    r = d[0].get("rank")
    return dict(has=True, rank="None" if r is None else r, dim=dim)


def _field(node):
    en = ["None" if i.get("value") is None else i.get("value")
          for e in node.findall(NX + "enumeration") for i in e.findall(NX + "item")]
    return dict(n=node.get("name"), en=en, at=[_attr(a) for a in node.findall(NX + "attribute")],
                xa={k: v for k, v in node.attrib.items()}, dim=_dims(node))


def _group(node):
    return dict(
        n=node.get("name") or "", ty=node.get("type") or "",
        xa={k: v for k, v in node.attrib.items() if k not in ("name", "type")},
        at=[_attr(a) for a in node.findall(NX + "attribute")],
        g=[_group(g) for g in node.findall(NX + "group")],
        f=[_field(f) for f in node.findall(NX + "field")],
        l=[dict(n=x.get("name"), target=x.get("target") or "None") for x in node.findall(NX + "link")],
    )


def definition(path, category):
    root = lxml.etree.parse(path).getroot()
    d = _group(root)
    d["cat"] = category
    d["sy"] = [s.get("name") for t in root.findall(NX + "symbols") for s in t
               if isinstance(s.tag, str) and s.tag == NX + "symbol" and s.get("name") is not None]
    return d


def file_list(fs_path):
    r = []
    for c in CATEGORIES:
        p = os.path.join(fs_path, c)
        r += [(c, os.path.join(p, f)) for f in sorted(os.listdir(p)) if f.endswith(".nxdl.xml")]
    return r


def facts(fs_path):
    r = {}
    for c, f in file_list(fs_path):
        r[os.path.basename(f).split(".")[0]] = definition(f, c)
    return r


def patterns(fs_path):
    """the patterns valid* of nxdl.xsd, as they are written there"""
    root = lxml.etree.parse(os.path.join(fs_path, "nxdl.xsd")).getroot()
    r = {}
    for n in root.findall(XS + "simpleType"):
        if n.get("name", "").startswith("valid"):
            q = n.find(XS + "restriction")
            mx = q.find(XS + "maxLength")
            r[n.get("name")] = dict(base=q.get("base").split(":")[-1],
                                    re=[p.get("value") for p in q.findall(XS + "pattern")],
                                    maxLength=int(mx.get("value")) if mx is not None else -1)
    return r


def name_patterns(fs_path):
    """patterns for names of items and classes, those of the base type included"""
    p = patterns(fs_path)

    def all_of(k):
        q = p.get(k)
        return [] if q is None else q["re"] + all_of(q["base"])
    return {"item": all_of("validItemName"), "class": all_of("validNXClassName")}
