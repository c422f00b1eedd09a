"""worker: NXDL file sets loaded, NXDL files validated and shown, by punx"""
import contextlib
import io
import json
import logging
import os
import shutil
import sys
import warnings

from procs import process

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def text(v):
    return "" if v is None else str(v)


def default(v):
    return [] if v is None else [str(v).lower() if isinstance(v, bool) else str(v)]


def attribute(a):
    return dict(n=a.name, enum=list(a.enumerations), opt=default(a.xml_attributes["optional"].default_value))


def dimensions(d):
    if d is None:
        return []
    return [dict(rank=text(d.rank), dims=[{k: text(getattr(x, k)) for k in ("index", "value", "ref", "refindex", "incr")}
                                          for x in d.dims.values()])]


def content(o):
    """what a definition or a group has"""
    from punx.nxdl_manager import NXDL__attribute
    out = dict(attrs=[], extra=[], groups=[], fields=[], links=[])
    for k, a in o.attributes.items():
        if isinstance(a, NXDL__attribute):
            out["attrs"].append(dict(attribute(a), n=k))
        else:
            out["extra"].append([k, str(a)])
    for k, g in o.groups.items():
        c = content(g)
        out["groups"].append(dict(n=k, min=default(g.xml_attributes["minOccurs"].default_value), extra=c.pop("extra"), has=c))
    for k, f in o.fields.items():
        out["fields"].append(dict(n=k, min=default(f.xml_attributes["minOccurs"].default_value), enum=list(f.enumerations),
                                  attrs=[dict(attribute(a), n=n) for n, a in f.attributes.items()], dims=dimensions(f.dimensions)))
    for k, x in o.links.items():
        out["links"].append(dict(n=k, target=text(x.target)))
    return out


def a_class(d):
    return dict(symbols=list(d.symbols), category=d.category, has=content(d),
                defaults=[dict(n=k, required=bool(a.required), default=default(a.default_value)) for k, a in d.xml_attributes.items()])


def name_of(exc):
    for t in (OSError,):
        if type(exc).__name__ == "OSError" or type(exc) in (IOError, t):
            return "OSError"
    return type(exc).__name__


def load(name, dump=True):
    """load the file set of this name"""
    from punx import nxdl_manager
    obs = dict(exc="", classes=[])
    try:
        m = nxdl_manager.NXDL_Manager(name)
    except Exception as x:
        obs["exc"] = name_of(x)
        return obs, {}
    obs["classes"] = [dict(title=k, cat=d.category, file=os.path.basename(d.file_name)) for k, d in m.classes.items()]
    return obs, {k: a_class(d) for k, d in m.classes.items()} if dump else {}


def summary_part(o):
    return [dict(n=k, required=bool(a.required), default=default(a.default_value), type=str(a.type).lstrip("_"),
                 patterns=list(a.patterns), max=text(a.maxLength)) for k, a in o.attributes.items()]


def schema(path):
    from punx import nxdl_schema, schema_manager
    s = nxdl_schema.NXDL_Summary(os.path.join(path, "nxdl.xsd"))
    m = schema_manager.SchemaManager(path).nxdl
    return dict(
        summary=dict(definition=summary_part(s.definition), group=summary_part(s.group), field=summary_part(s.field),
                     attribute=summary_part(s.attribute), link=summary_part(s.link),
                     dimensions=summary_part(s.field.components["dimensions"])),
        simple=[dict(n=k, patterns=list(v.patterns), max=text(v.maxLength)) for k, v in s.simpleType.items() if not k.startswith("Line ")],
        patterns=[dict(n=k, patterns=list(v.re_list), max="" if v.maxLength in (-1, None) else str(v.maxLength)) for k, v in m.patterns.items()],
        root=[dict(n=k, required=bool(a.required), default=default(a.default_value), enum=list(a.enum)) for k, a in m.attrs.items()],
        children=list(m.children), types=list(m.types))


def verdict_api(fn, name):
    """name: of the file set, "" for the default one"""
    import lxml.etree
    import punx
    from punx import cache_manager, nxdl_manager
    try:
        cm = cache_manager.CacheManager()
        nxdl_manager.validate_xml_tree(lxml.etree.parse(fn), cm.select_NXDL_file_set(name) if name else None)
    except punx.InvalidNxdlFile:
        return dict(verdict="invalid")
    except lxml.etree.XMLSyntaxError:
        return dict(verdict="syntax")
    except OSError:
        return dict(verdict="missing")
    except Exception as x:
        return dict(verdict=repr(x))
    return dict(verdict="valid")


def cli(argv):
    from punx import main
    sys.argv = ["punx"] + argv
    out = io.StringIO()
    r = dict(exc="", code=0)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main.main()
    except SystemExit as x:
        r["code"] = 0 if x.code is None else x.code if isinstance(x.code, int) else 1
        r["exc"] = "SystemExit" if r["code"] else ""
    except BaseException as x:
        r["exc"], r["code"] = type(x).__name__, -1
    r["out"] = out.getvalue()
    return r


def verdict_cli(fn, name):
    r = cli(["validate", fn] + (["-f", name] if name else []))
    says = any(x.strip() == "%s  validates" % fn for x in r["out"].splitlines())
    if r["code"] == 0 and says:
        return dict(verdict="valid")
    if r["code"] == 1 and not says and r["exc"] == "SystemExit":
        return dict(verdict="refused")
    return dict(verdict="code %s, %s, %r" % (r["code"], r["exc"], r["out"][-200:]))


def tree(fn, how, show):
    if how == "cli":
        r = cli(["tree", fn] + ([] if show else ["-a"]))
        if r["code"] != 0 or r["exc"]:
            return dict(exc=r["exc"] or "code %s" % r["code"], lines=[])
        ln = r["out"].split("\n")
        i = [k for k, x in enumerate(ln) if x.startswith("file: ")]
        return dict(exc="", lines=ln[i[0]:-1] if i else ln)
    from punx import cache_manager, nxdltree
    try:
        if how:
            cache_manager.CacheManager().select_NXDL_file_set(how)
        return dict(exc="", lines=nxdltree.NxdlTreeView(fn).report(show))
    except Exception as x:
        return dict(exc=type(x).__name__, lines=[])


def step(op, kept, files, top):
    """one operation of a history, as something that can be compared"""
    from punx import cache_manager, nxdl_manager
    k, s = op["op"], op["set"]
    if k == "load":
        kept[s] = m = nxdl_manager.NXDL_Manager(s)
        return {n: a_class(d) for n, d in m.classes.items()}
    if k == "again":
        return {n: a_class(d) for n, d in kept[s].classes.items()}
    if k == "schema":
        return schema(os.path.join(top, s))
    if k == "verdict":
        return [verdict_api(f, s)["verdict"] for f in files]
    if k == "tree":
        return [tree(f, "", True) for f in files]
    if k == "list":
        cache_manager.table_of_caches()
        return ""
    if k == "ask":
        return (verdict_cli if op["how"] == "cli" else verdict_api)(op["file"], s)
    if k == "select":
        cache_manager.CacheManager().select_NXDL_file_set(s)
        return ""
    if k == "replace":
        other = s + ".2"
        store = os.path.join(os.path.dirname(top), "other")
        os.rename(os.path.join(top, s), os.path.join(store, "x"))
        os.rename(os.path.join(store, other), os.path.join(top, s))
        os.rename(os.path.join(store, "x"), os.path.join(store, other))
        return ""
    raise ValueError(k)


def history(job):
    """operations in a process with caches of its own"""
    import hashlib
    import tempfile
    cfg = tempfile.mkdtemp(dir=job["folder"])
    top = os.path.join(cfg, "punx")
    os.makedirs(os.path.join(cfg, "other"))
    os.makedirs(top)
    for n in os.listdir(job["sets"]):
        if any(o["set"] == n.split(".")[0] for o in job["ops"]):
            d = os.path.join(top if "." not in n else os.path.join(cfg, "other"), n)
            os.mkdir(d)
            for p, _, files in os.walk(os.path.join(job["sets"], n)):
                q = os.path.join(d, os.path.relpath(p, os.path.join(job["sets"], n)))
                os.makedirs(q, exist_ok=True)
                for f in files:
                    os.symlink(os.path.join(p, f), os.path.join(q, f))
    os.environ["XDG_CONFIG_HOME"] = cfg
    out, kept = [], {}
    try:
        for o in job["ops"]:
            try:
                t = json.dumps(step(o, kept, job["files"], top), sort_keys=True)
            except Exception as x:
                t = repr(x)
            t = t.replace(cfg, "CFG")
            if o["op"] == "ask":
                out.append(json.loads(t) if t[:1] == "{" else dict(verdict=t))
                continue
            out.append(hashlib.sha1(t.encode()).hexdigest()[:12])
    finally:
        shutil.rmtree(cfg, ignore_errors=True)
    return out


def do(job):
    k = job["do"]
    if k == "load":
        o, c = load(job["set"])
        return dict(obs=o, classes=c)
    if k == "schema":
        return schema(job["path"])
    if k == "verdicts":
        return [process(verdict_cli if v["how"] == "cli" else verdict_api, v["file"], v["set"]) for v in job["of"]]
    if k == "trees":
        return [process(tree, v["file"], v["how"], v["show"]) for v in job["of"]]
    if k == "history":
        return history(job)
    raise ValueError(k)


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    import punx.main  # noqa: F401
    import punx.nxdl_manager  # noqa: F401
    import punx.schema_manager  # noqa: F401
    import punx.nxdltree  # noqa: F401
    out = [do(j) if j["do"] in ("verdicts", "trees") else process(do, j) for j in job["jobs"]]
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
