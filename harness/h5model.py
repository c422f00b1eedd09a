"""Make HDF5 files from a description, and record an HDF5 file as the graph of module H5.

Only h5py is used here, nothing of punx.
"""
import os
import h5py
import numpy as np

VSTR = h5py.string_dtype("utf-8")


def value(val, h=None):
    t, v = val["t"], val.get("v")
    if t == "s":
        return v
    if t == "b":
        return np.bytes_(v.encode("utf8"))
    if t == "rawb":
        return np.bytes_(bytes(v))
    if t == "rawbl":
        return np.array([bytes(x) for x in v], dtype="S")
    if t == "sl":
        return np.array(v, dtype=object)
    if t == "sl2":
        return np.array(v, dtype=object)
    if t == "bl":
        return np.array([x.encode("utf8") for x in v], dtype="S")
    if t == "bl2":
        return np.array([[x.encode("utf8") for x in r] for r in v], dtype="S")
    if t == "i":
        return np.int32(v)
    if t == "f":
        return np.float64(v)
    if t == "il":
        return np.array(v, dtype="i4")
    if t == "fl":
        return np.array(v, dtype="f8")
    if t == "e":
        return h5py.Empty("f8")
    if t == "es":
        return h5py.Empty("S10")
    if t == "z":
        return np.zeros((0,), dtype="S5")
    if t == "zi":
        return np.zeros((0,), dtype="i4")
    if t == "bool":
        return np.bool_(v)
    if t == "c":
        return np.array((1, 2.5), dtype=[("a", "i4"), ("b", "f8")])
    if t == "ref":
        return h.ref
    if t == "shape":  # numbers 0, 1, 2, ... of any shape
        n = int(np.prod(v)) if v else 1
        return np.arange(n).astype(val.get("dt", "i4")).reshape(v)
    raise ValueError(t)


FAILED = set()
SPECIAL = {
    "vlen_int": lambda: (np.array([np.arange(2), np.arange(3)], dtype=object), h5py.vlen_dtype("i4")),
    "enum": lambda: (np.array([0, 1, 1], dtype="i1"), h5py.enum_dtype(dict(OFF=0, ON=1), basetype="i1")),
    "enum_scalar": lambda: (np.int8(1), h5py.enum_dtype(dict(OFF=0, ON=1), basetype="i1")),
    "opaque": lambda: (np.array([b"abc", b"d\0f"], dtype="V3"), None),
    "opaque_scalar": lambda: (np.void(b"\x00\xff"), None),
    "array_type": lambda: (np.zeros(2, dtype=[("v", "f4", (3,))]), None),
    "compound": lambda: (np.array([(1, 2.5, b"x"), (2, 3.5, b"yy")], dtype=[("a", "i4"), ("b", "f8"), ("c", "S3")]), None),
    "compound_scalar": lambda: (np.array((1, 2.5), dtype=[("a", "i4"), ("b", "f8")]), None),
    "compound_2d": lambda: (np.zeros((2, 7), dtype=[("a", "i4"), ("b", "f8")]), None),
    "bool_array": lambda: (np.array([True, False]), None),
    "complex": lambda: (np.array([1 + 2j, 0]), None),
    "half": lambda: (np.array([1.5, 2], dtype="f2"), None),
    "long_double": lambda: (np.array([1.5, 2], dtype="f16"), None),
    "big_endian": lambda: (np.array([[1, 2], [3, 4]], dtype=">i2"), None),
    "nan_inf": lambda: (np.array([np.nan, np.inf, -np.inf, 1e-300]), None),
    "uint64": lambda: (np.array([2**64 - 1, 0], dtype="u8"), None),
    "null_int": lambda: (h5py.Empty("i4"), None),
    "null_string": lambda: (h5py.Empty("S7"), None),
    "null_vlen": lambda: (h5py.Empty(VSTR), VSTR),
    "null_compound": lambda: (h5py.Empty(np.dtype([("a", "i4")])), None),
    "ascii_vlen": lambda: (np.array([b"a", b"bc"], dtype=object), h5py.string_dtype("ascii")),
    "utf8_fixed": lambda: (np.array(["\u00e9".encode("utf8")], dtype=h5py.string_dtype("utf-8", 6)), None),
    "bad_utf8_vlen": lambda: (b"\xff\xfe", h5py.string_dtype("ascii")),
    "vlen_2d": lambda: (np.array([["a", "b"], ["c", ""]], dtype=object), VSTR),
    "vlen_empty": lambda: (np.zeros((0, 3), dtype=object), VSTR),
    "zero_2d": lambda: (np.zeros((0, 3), dtype="f4"), None),
    "zero_mid": lambda: (np.zeros((2, 0, 3), dtype="f4"), None),
    "long_string": lambda: ("x" * 5000 + "\u00e9", None),
    "multiline": lambda: ("line 1\nline 2\r\n\tline 3", None),
}


def special(o, name, sp):
    """an unusual dataset (o: group) or attribute (o: attributes)"""
    attr = isinstance(o, h5py.AttributeManager)
    if sp in ("chunked", "scale", "virtual", "resizable", "objref", "regref", "external_raw", "compact") and attr:
        sp = "enum"
    if sp == "objref":
        o.create_dataset(name, data=np.array([o.ref, o.file.ref], dtype=h5py.ref_dtype), dtype=h5py.ref_dtype)
    elif sp == "regref":
        d = o.create_dataset(name + "_to", data=np.arange(9))
        o.create_dataset(name, data=d.regionref[1:3], dtype=h5py.regionref_dtype)
    elif sp == "chunked":
        o.create_dataset(name, data=np.arange(60).reshape(3, 4, 5), chunks=(1, 2, 5), compression="gzip", shuffle=True,
                         fletcher32=True)
    elif sp == "resizable":
        o.create_dataset(name, shape=(0,), maxshape=(None,), dtype="f8", chunks=(4,))
    elif sp == "scale":
        d = o.create_dataset(name, data=np.zeros((2, 3)))
        for i in (0, 1):
            x = o.create_dataset("%s_%d" % (name, i), data=np.arange(2 + i))
            x.make_scale("axis")
            d.dims[i].attach_scale(x)
            d.dims[i].label = "label"
    elif sp == "virtual":
        s = o.create_dataset(name + "_src", data=np.arange(4))
        vl = h5py.VirtualLayout((2, 4), dtype="i4")
        vl[0] = h5py.VirtualSource(s)
        vl[1] = h5py.VirtualSource("nowhere.h5", "/x", (4,))
        o.create_virtual_dataset(name, vl, fillvalue=-1)
    elif sp == "compact":
        p = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
        p.set_layout(h5py.h5d.COMPACT)
        h5py.h5d.create(o.id, name.encode("utf8"), h5py.h5t.STD_I16BE, h5py.h5s.create_simple((3,)), p)
    elif sp == "external_raw":
        o.create_dataset(name, shape=(3,), dtype="i4")
    else:
        v, dt = SPECIAL[sp]()
        if attr:
            o.create(name, v, dtype=dt)
        else:
            o.create_dataset(name, data=v, dtype=dt)


ALL_SPECIAL = sorted(SPECIAL) + ["objref", "regref", "chunked", "resizable", "scale", "virtual", "compact"]


def _attrs(o, attrs, h):
    for k, val in attrs:
        if val["t"] == "x":
            try:
                special(o.attrs, k, val["v"])
            except Exception:
                FAILED.add("@" + val["v"])
            continue
        v = value(val, h)
        if val["t"] in ("sl", "sl2"):
            o.attrs.create(k, v, dtype=VSTR)
        else:
            o.attrs[k] = v


def _fill(g, node, files, todo, root):
    _attrs(g, node.get("attrs", []), root)
    for name, kid in node.get("kids", []):
        k = kid["k"]
        if k == "g":
            _fill(g.create_group(name, track_order=kid.get("order")), kid, files, todo, root)
        elif k == "d":
            val = kid["v"]
            v = value(val, root)
            if val["t"] in ("sl", "sl2"):
                d = g.create_dataset(name, data=v, dtype=VSTR)
            elif val["t"] == "ref":
                d = g.create_dataset(name, data=v, dtype=h5py.ref_dtype)
            else:
                d = g.create_dataset(name, data=v)
            _attrs(d, kid.get("attrs", []), root)
        elif k == "x":
            try:
                special(g, name, kid["sp"])
            except Exception:  # HDF5 or h5py cannot write this
                FAILED.add(kid["sp"])
                if name in g:
                    del g[name]
            if name in g:
                _attrs(g[name], kid.get("attrs", []), root)
        elif k == "t":
            g[name] = np.dtype(kid.get("dt", "i4"))
            _attrs(g[name], kid.get("attrs", []), root)
        elif k == "soft":
            g[name] = h5py.SoftLink(kid["p"])
        elif k == "ext":
            g[name] = h5py.ExternalLink(files[kid["f"]], kid["p"])
        elif k == "hard":
            todo.append((g, name, kid["p"]))
        else:
            raise ValueError(k)


def build(desc, folder, stem):
    """write the file(s); return the name of the file to validate"""
    main = os.path.join(folder, stem + ".h5")
    files = dict(self=main, missing=os.path.join(folder, stem + "_no.h5"),
                 ext=os.path.join(folder, stem + "_x.h5"), text=os.path.join(folder, stem + ".txt"))
    if desc.get("ext"):
        _make(files["ext"], desc["ext"], files)
    if "text" in str(desc):
        with open(files["text"], "w") as f:
            f.write("not HDF5\n")
    _make(main, desc["root"], files)
    return main


def _make(fname, node, files):
    todo = []
    with h5py.File(fname, "w", track_order=node.get("order"), **node.get("how", {})) as h:
        _fill(h, node, files, todo, h)
        for g, name, p in todo:
            try:
                o = h[p]
            except (KeyError, RuntimeError, ValueError):
                continue
            if name not in g:
                try:
                    g[name] = o
                except OSError:  # not in this file: no hard link
                    pass


def remove(folder, stem):
    for s in (".h5", "_x.h5", ".txt"):
        p = os.path.join(folder, stem + s)
        if os.path.exists(p):
            os.remove(p)


def build_graph(graph, fname):
    """write a file from a graph (see module H5 of the specification)"""
    nodes = graph["nodes"]

    def attr(o, k, v):
        if v["k"] == "text":
            o.attrs[k] = v["s"]
        elif v["k"] == "list":
            o.attrs.create(k, np.array([x["s"] for x in v["l"]], dtype=object), dtype=VSTR)
        elif v["k"] == "none":
            o.attrs[k] = h5py.Empty("S5")
        else:
            o.attrs[k] = np.int32(v["s"])

    with h5py.File(fname, "w") as h:
        made = {1: h}

        def make(n, parent, name):
            node = nodes[n - 1]
            if node["k"] == "g":
                made[n] = parent.create_group(name)
            elif node["k"] == "d":
                fv = node["fv"]
                made[n] = parent.create_dataset(name, data=fv["s"] if fv["has"] else h5py.Empty("f8"))
            else:
                parent[name] = np.dtype("i4")
                made[n] = parent[name]

        queue = [1]
        while queue:
            n = queue.pop(0)
            for lk in nodes[n - 1]["links"]:
                if lk["to"] == 0:
                    made[n][lk["n"]] = h5py.SoftLink("/not/available")
                elif lk["to"] in made:
                    made[n][lk["n"]] = made[lk["to"]]
                else:
                    make(lk["to"], made[n], lk["n"])
                    if nodes[lk["to"] - 1]["k"] == "g":
                        queue.append(lk["to"])
        for n, o in made.items():
            for a in nodes[n - 1]["at"]:
                attr(o, a["n"], a["v"])


# ---------------------------------------------------------------- recording


def _text(x):
    """text; what is not UTF-8 is replaced (h5py keeps it as surrogates)"""
    if isinstance(x, str):
        x = x.encode("utf8", "surrogateescape")
    return x.decode("utf8", "replace")


def _elem(x):
    if isinstance(x, (str, bytes)):
        return dict(k="t", s=_text(x))
    return dict(k="o", s="")


def norm(v):
    """an attribute value as the specification sees it"""
    if isinstance(v, (str, bytes)):  # also numpy.bytes_
        s = _text(v if isinstance(v, str) else bytes(v))
        return dict(k="text", s=s, l=[dict(k="t", s=s)])
    if isinstance(v, np.ndarray) and v.dtype.kind in "OS" and not (v.size and isinstance(v.flat[0], np.ndarray)):
        if v.size == 0:
            return dict(k="none", s="None", l=[dict(k="o", s="")])
        flat = [_text(x) if isinstance(x, (str, bytes)) else str(x) for x in v.ravel().tolist()]
        if v.ndim == 1:
            return dict(k="list", s=str(flat), l=[dict(k="t", s=x) for x in flat])
        nested = np.array(flat, dtype=object).reshape(v.shape).tolist()
        return dict(k="list", s=str(nested), l=[dict(k="o", s="") for _ in nested])
    if isinstance(v, np.ndarray) and v.ndim > 0:
        return dict(k="other", s=str(v), l=[dict(k="o", s="") for _ in range(v.shape[0])])
    return dict(k="other", s=str(v), l=[dict(k="o", s="")])


def first_value(d):
    """text of the first value of a dataset"""
    if d.shape is None or d.size == 0:
        return dict(has=False, s="")
    x = d[(0,) * len(d.shape)] if d.shape else d[()]
    if isinstance(x, (str, bytes)):
        return dict(has=True, s=_text(bytes(x) if isinstance(x, bytes) else x))
    return dict(has=True, s=str(x))


def _key(o):
    i = h5py.h5o.get_info(o.id)
    return (i.fileno, i.addr if hasattr(i, "addr") else i.token)


def _dataset_facts(d):
    """what the tree view shows of a dataset (see module Tree)"""
    kind = d.dtype.kind if d.dtype.kind in "SO" else "N"
    sp = d.shape is not None
    r = dict(kind=kind, dt=str(d.dtype), DT=str(d.dtype).upper(), sp=sp, shape=list(d.shape or ()), els=[], one="",
             whole="", size=[])
    v = d[()]
    if kind == "S" and sp and d.shape:
        r["els"] = [_text(bytes(x)) for x in v.ravel()]
        r["size"] = [str(len(bytes(x)) if v.ndim == 1 else d.dtype.itemsize) for x in v]
    elif kind == "S":
        r["whole"] = _text(bytes(v)) if sp else str(v)
    else:
        r["whole"] = str(v)
        if kind == "N" and sp and d.shape:
            r["els"] = [repr(x) for x in v.ravel()]
            if d.shape == (1,):
                r["one"] = str(v[0])
    return r


def record(fname, tree=False):
    """the graph of all objects reachable from the root group"""
    with h5py.File(fname, "r") as h:
        ids, nodes, queue = {}, [], []
        roots = {}

        def visit(o):
            k = _key(o)
            if k not in ids:
                nodes.append(None)
                ids[k] = len(nodes)
                queue.append((len(nodes), o))
            return ids[k]

        visit(h["/"])
        while queue:
            n, o = queue.pop(0)
            r = visit(o.file["/"])
            at = [dict(n=k, v=norm(o.attrs[k])) for k in sorted(o.attrs)]
            if isinstance(o, h5py.Group):
                links = []
                for name in o:
                    try:
                        c = o.get(name)
                    except RuntimeError:
                        c = None
                    lk = dict(n=name, to=0 if c is None else visit(c))
                    if tree:
                        i = o.get(name, getlink=True)
                        x = isinstance(i, h5py.ExternalLink)
                        lk.update(t="x" if x else "s" if isinstance(i, h5py.SoftLink) else "h",
                                  p=getattr(i, "path", ""), f=i.filename if x else "",
                                  xn=c.name if x and c is not None else "")
                    links.append(lk)
                nodes[n - 1] = dict(k="g", links=links, at=at, root=r, fv=dict(has=False, s=""))
            elif isinstance(o, h5py.Dataset):
                nodes[n - 1] = dict(k="d", links=[], at=at, root=r, fv=first_value(o))
            else:
                nodes[n - 1] = dict(k="t", links=[], at=at, root=r, fv=dict(has=False, s=""))
            if tree:
                x = nodes[n - 1]
                names = [lk["n"] for lk in x["links"]]
                x["by"] = [names.index(k) + 1 for k in sorted(names)]
                order = sorted(o.attrs)
                x["ao"] = [order.index(k) + 1 for k in o.attrs]
                if x["k"] == "d":
                    x["ds"] = _dataset_facts(o)
                elif x["k"] == "t":
                    x["ds"] = dict(dt=str(o.dtype))
        return dict(openable=True, nodes=nodes)


def wordchars(obj, acc=None):
    """the characters beyond ASCII that are letters or digits, in all text of obj"""
    acc = set() if acc is None else acc
    if isinstance(obj, str):
        acc.update(c for c in obj if ord(c) > 127 and (c.isalnum() or c == "_"))
    elif isinstance(obj, dict):
        for k, v in obj.items():
            wordchars(k, acc)
            wordchars(v, acc)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            wordchars(v, acc)
    return acc
