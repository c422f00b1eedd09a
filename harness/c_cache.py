"""Check of the file set caches (P14)."""
import json
import os
import random

import common
from common import SEED

# the names of the specification stand for all these
NAMES = dict(main=["main", "main", ".main", "_main", "main branch", "v2020.1-rc1", "Schema-3.4", "\u00e9t\u00e9", "main.zip", "MAIN", "v3.30", "V3.3", "v3", "2024",
                   "default", "v2018.5.1", "v2018", "a4fd52d0", "0", "None", "user", "__main__", "main~"],
             aaa=["aaa", "aaa", ".aaa", "_aaa", "zzz", "a b", "-aaa", "~aaa", "a4fd52", "source", "NXDL", "punx", "aaa.", "#aaa", "A4FD52D", "..aaa", "@aaa", "\u00df"],
             none=["none", "none", "no set", ".install-left", "notes.txt", "V2018.5", "v2018.5 ", "a4fd52d1234", "base_classes"])
SOURCE = {"a4fd52d": 2, "v3.3": 4, "v2018.5": 6}


def source_facts():
    """names and date ranks of the sets in the source cache, from their description files"""
    from w_cache import RANK
    d = os.path.join(common.REPO, "punx", "cache")
    out = {}
    for n in os.listdir(d):
        fn = os.path.join(d, n, "__github_info__.json")
        if os.path.exists(fn):
            with open(fn) as f:
                out[n] = RANK[json.load(f)["last_modified"]]
    return out


def renamed(h, seed):
    """these operations with other names of file sets"""
    r = random.Random(seed)
    to = {k: r.choice(v) for k, v in NAMES.items()}
    return [dict(o, n=to.get(o["n"], o["n"])) for o in h]


def p14(check, tier, work):
    quick = tier == "quick"
    r = random.Random("%s/cache" % SEED)
    src = source_facts()

    def replay(hs, tag):
        # every process starts by looking at the caches
        hs = [renamed(h, "%s/%s/%d" % (SEED, tag, i)) for i, h in enumerate(hs)]
        cases = [dict(id=i, ops=[dict(op="start", n="", d=0)] + h) for i, h in enumerate(hs)]

        def one(ix_chunk):
            ix, ch = ix_chunk
            rec = common.run_worker("w_cache.py", dict(
                cases=ch, source=os.path.join(common.REPO, "punx", "cache", "v2018.5"),
                folder=work.file("%s-%d" % (tag, ix))), work)
            fn = work.file("%s-%d.json" % (tag, ix))
            with open(fn, "w") as f:
                json.dump(dict(cases=rec, source=src), f)
            t = common.tlc("JudgeCache", "JudgeCache.cfg", work, env=dict(CASES=fn))
            os.remove(fn)
            return ch, rec, t

        for ch, rec, t in common.parallel(one, list(enumerate(common.chunks(cases, 8)))):
            check.tlc(t)
            seen = {}
            for v in t["lines"]:
                seen.setdefault(v["id"], v)
            if set(seen) != {c["id"] for c in ch}:
                raise common.HarnessError("%d cases, %d verdicts\n%s" % (len(ch), len(seen), t["out"][-3000:]))
            by = {c["id"]: c for c in ch}
            for v in seen.values():
                check.count(traces_validated_against_impl=1, operations=v["n"])
                for b in v["bad"]:
                    check.bad("%s %s" % (tag, v["id"]), b, dict(case=by[v["id"]], observed=[x for x in rec if x["id"] == v["id"]]))
        check.sample("%s: %s" % (tag, json.dumps(cases[-1]["ops"])))

    def sequences(depth, limit, tag, args=()):
        t = common.tlc("MC_Cache", "MC_Cache.cfg", work, workers=1 if args else 4, args=args, timeout=900, env=dict(DEPTH=str(depth)))
        check.tlc(t)
        hs = sorted({json.dumps(h) for h in t["lines"]})
        n = len(hs)
        r.shuffle(hs)
        hs = [json.loads(h) for h in (hs[:limit] if limit else hs)]
        check.cov.setdefault("sequences", {})[tag] = dict(enumerated=n, replayed=len(hs))
        replay(hs, tag)

    sequences(2, 0, "all2")
    sequences(3, 700 if quick else 0, "all3")
    n = 250 if quick else 5000
    sequences(14, n, "long", ("-simulate", "num=%d" % n, "-depth", "15", "-seed", str(SEED)))
    check.assumptions += ["sets of the source cache are never loaded here, only listed and chosen (properties P17 and P18 load them)",
                          "dates have the form that an installation writes"]


CHECKS = dict(P14=p14)
