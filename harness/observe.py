"""Run punx on files and write down what it does (the observations to be judged)."""
import contextlib
import io
import re
import signal

TEST_SIGNAL = re.compile(r"^valid name @signal=.*$", re.S)
TEST_AXES = re.compile(r"^valid name @axes\['(.*)'\]$", re.S)
TEST_AXES_X = re.compile(r"^axes\['(.*)'\] exists$", re.S)


def key_of(t, c):
    """what tells apart findings of one test at one address"""
    if t == "known NXDL":
        return re.sub(r": (un)?recognized NXDL specification$", "", c, flags=re.S)
    if t in ("NXDL field in data file", "NXDL group in data file"):
        return c.split("/")[-1]
    if t == "known attribute":
        return c.split(":")[0]
    if t in ("field in base class", "group in base class"):
        return c.split(":")[0]
    if t == "NXDL field":
        m = re.match(r"^[^:]*:(.*?)( not)? found$", c)
        return m.group(1) if m else c
    if t == "NXDL field enumerations":
        m = re.match(r"^[^:]*:(.*?) \((required|optional)\)", c)
        return m.group(1) if m else c
    if t == "NeXus default plot":
        m = re.match(r"^found by (v\d: .*)$", c, flags=re.S)
        return m.group(1) if m else ""
    return ""


def finding(a, t, s, c, axes_text):
    k = None
    if TEST_SIGNAL.match(t):
        t, k = "valid name @signal", ""
    else:
        for rx, nm in ((TEST_AXES, "valid name @axes"), (TEST_AXES_X, "axes exists")):
            m = rx.match(t)
            if m:
                t, k = nm, m.group(1)
                if k not in axes_text.get(a, ()):
                    k = "?"
                break
    if k is None:
        k = key_of(t, c)
    return (a, t, s, k)


def axes_texts(validator):
    """text elements of the @axes attributes, by address"""
    import h5model
    r = {}
    for f in validator.validations:
        a = f.h5_address
        if a and a.endswith("@axes") and a not in r:
            o, _, k = a.rpartition("@")
            try:
                v = h5model.norm(validator.h5[o].attrs[k])
            except (KeyError, RuntimeError, OSError):
                continue
            r[a] = {x["s"] for x in v["l"] if x["k"] == "t"}
    return r


def counted(rows, ax):
    n = {}
    for r in rows:
        x = finding(*r, ax)
        n[x] = n.get(x, 0) + 1
    return [dict(a=k[0], t=k[1], s=k[2], k=k[3], n=v) for k, v in sorted(n.items())]


def findings(validator):
    rows = [(f.h5_address, f.test_name, str(f.status), str(f.comment)) for f in validator.validations]
    return counted(rows, axes_texts(validator))


def table(lines):
    """cells of the first table (simple format of reST) in these lines, and the lines after it"""
    i = next(k for k, ln in enumerate(lines) if ln.startswith("="))
    cols, at = [], 0
    for w in lines[i].split(" "):
        cols.append((at, at + len(w)))
        at += len(w) + 1
    rows, j = [], i + 3
    while not lines[j].startswith("==="):
        ln = lines[j]
        rows.append([ln[a:b if n + 1 < len(cols) else None].rstrip(" ") for n, (a, b) in enumerate(cols)])
        j += 1
    return rows, lines[j + 1:]


def printed_report(text, ax, req):
    """what a printed report says"""
    head, _, rest = text.partition("\nfindings\n")
    first, _, second = rest.partition("\nsummary statistics\n")
    rows, _ = table(first.split("\n"))
    summary, after = table(second.split("\n"))
    counts = {r[0].strip(): int(r[1]) for r in summary if r[0].strip() not in ("", "TOTAL")}
    total = [int(r[1]) for r in summary if r[0].strip() == "TOTAL"]
    m = re.search(r"<finding>=(\S+) of (\d+) items reviewed", "\n".join(after))
    return dict(req=list(req), rows=counted([(r[0], r[2], r[1], r[3]) for r in rows], ax), counts=counts,
                total=total[0] if len(total) == 1 else -1, average=m.group(1), n=int(m.group(2)), head=head)


def reports(validator, choices):
    """print the report for these choices of statuses"""
    from punx import finding as pf
    out = []
    ax = axes_texts(validator)
    def state():
        return [(f.h5_address, f.test_name, str(f.status), f.comment) for f in validator.validations]
    before = state()
    total, count, average = validator.finding_score()
    for req in choices:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            validator.print_report(req or None)
        r = printed_report(buf.getvalue(), ax, req or sorted(pf.VALID_STATUS_DICT))
        r["averageok"] = abs(float(r["average"]) - average) <= 1e-6 * max(1, abs(average))
        r["fileok"] = ("data file: " + str(validator.fname)) in r["head"]
        part = validator.finding_summary([pf.VALID_STATUS_DICT[k] for k in req] if req else None)
        r["part"] = {str(k): v for k, v in part.items()}
        # neither report nor summary touches what was found
        r["same"] = state() == before and validator.finding_score() == (total, count, average)
        out.append(r)
    return out


def score(validator):
    total, count, average = validator.finding_score()
    total = int(total)
    e = -(total // 10000000) if total < 0 else 0
    if total < 0 and (-total) % 10000000 == 0:
        e = -total // 10000000
    rest = total + e * 10000000
    ok = (count == 0 and average == 0) or (count and abs(average - total / count) <= 1e-9 * max(1, abs(total)))
    return dict(errors=e, rest=rest, count=count if ok else -1)


def catalog(validator):
    """addresses (with class path) which were reviewed, and how many items have none"""
    cat, anon = [], 0
    for cp, its in validator.classpaths.items():
        for it in its:
            if it.h5_address is None:
                anon += 1
            else:
                cat.append(dict(a=it.h5_address, cp=cp))
    return cat, anon


class TooLong(Exception):
    pass


LIMIT = [100]


@contextlib.contextmanager
def limited():
    """what takes some milliseconds may take that long; then it counts as endless"""
    seconds = LIMIT[0]

    def ring(*args):
        LIMIT[0] = 3  # no need to wait for the others
        raise TooLong("no end in %d s" % seconds)
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def validate(validator, fname, choices=(), close=True):
    o = dict(exc="", find=[], cat=[], anon=0, summary={}, score={}, reports=[])
    try:
        with limited(), contextlib.redirect_stdout(io.StringIO()):
            validator.validate(fname)
            o["find"] = findings(validator)
            o["cat"], o["anon"] = catalog(validator)
            o["summary"] = {str(k): v for k, v in validator.finding_summary().items()}
            o["score"] = score(validator)
        with limited():
            o["reports"] = reports(validator, choices)
    except Exception as exc:  # an exception is an observation
        o["exc"] = type(exc).__name__ + ": " + str(exc)[:200]
    finally:
        try:
            if close:
                validator.close()
        except Exception:
            pass
    return o
