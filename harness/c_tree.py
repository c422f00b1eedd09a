"""Checks of the tree view (P12, P13)."""
import itertools
import json
import os
import random

import common
import gen
import h5model
from c_files import data_files, facts, facts_file  # noqa: F401
from common import SEED


def run_tree(check, work, cases, limit, tag, size=150, clauses=None):
    def one(ix_chunk):
        ix, ch = ix_chunk
        r = common.run_worker("w_tree.py", dict(cases=ch, limit=limit, folder=work.file("%s-%d" % (tag, ix))), work)
        fn = work.file("%s-%d.json" % (tag, ix))
        with open(fn, "w") as f:
            json.dump(dict(cases=r, limit=limit), f)
        t = common.tlc("JudgeTree", "JudgeTree.cfg", work, env=dict(CASES=fn))
        os.remove(fn)
        return ch, r, t

    n = max(1, -(-len(cases) // size))
    for ch, r, t in common.parallel(one, [(i, c) for i, c in enumerate(common.chunks(cases, n))]):
        check.tlc(t)
        if len(t["lines"]) != len(ch):
            raise common.HarnessError("%d cases, %d verdicts\n%s" % (len(ch), len(t["lines"]), t["out"][-3000:]))
        by = {c["id"]: c for c in ch}
        obs = {c["id"]: c for c in r}
        for v in t["lines"]:
            check.count(traces_validated_against_impl=1, lines_judged=v["items"] + v["n"])
            for b in v["bad"]:
                if clauses and b["clause"] not in clauses:
                    check.count(disagreements_of_other_clauses=1)
                    continue
                check.bad("%s %s %s" % (tag, b["clause"], v["id"]), b,
                          dict(case=by[v["id"]], limit=limit, recorded=obs[v["id"]]["file"], view=obs[v["id"]]["obs"]))
    check.sample("%s: %s" % (tag, json.dumps(cases[0])[:300]))


def p12(check, tier, work):
    f = facts("v2018.5")
    t = common.tlc("MC_Tree", "MC_Tree.cfg", work, env=dict(FACTS=facts_file("v2018.5", work), WHICH="links"), workers=4)
    check.tlc(t)
    graphs = sorted(t["lines"], key=lambda x: json.dumps(x, sort_keys=True))
    check.cov["universes"] = dict(links=len(graphs))
    if tier == "quick":
        random.Random(SEED).shuffle(graphs)
        graphs = graphs[:600]
    run_tree(check, work, [dict(id=i, graph=g) for i, g in enumerate(graphs)], 5, "universe")
    n = 600 if tier == "quick" else 20000
    foci = (("links", dict(links=0.35, order=0.4, weird=0.2, attrs=0.3)), ("attrs", dict(attrs=0.85, weird=0.5)),
            ("names", dict(names=0.6, odd=0.5)))
    for tag, opt in foci:
        cases = [dict(id=i, desc=gen.Gen("%s/t%s/%d" % (SEED, tag, i), f, **opt).file()) for i in range(n // 3)]
        run_tree(check, work, cases, 5, tag)
    n = 48 if tier == "quick" else 600
    cases = [dict(id=i, desc=getattr(gen.Gen("%s/tl/%d" % (SEED, i), f, attrs=0.3), "wide" if i % 3 == 0 else "deep")()) for i in range(n)]
    run_tree(check, work, cases, 5, "large", size=6)


def array_cases(r, n):
    """datasets of all kinds and shapes"""
    cases = []
    for i in range(n):
        kids = []
        for j in range(r.randrange(4, 12)):
            rank = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 5, 6])
            shape = [r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 9]) if rank < 3 else r.choice([1, 2, 3, 6] if rank < 6 else [1, 1, 2]) if r.random() < 0.9 else 0 for _ in range(rank)]
            t = r.choice(["shape"] * 6 + ["s", "b", "bl", "sl", "bl2", "sl2", "weird"])
            if t == "shape":
                v = dict(t="shape", v=shape, dt=r.choice(["i4", "i8", "u1", "f4", "f8", "bool", "i2", "c16"]))
            elif t == "bl":
                v = dict(t="bl", v=[r.choice(["a", "bcd", "\u00e9", ""]) for _ in range(r.choice([1, 1, 2, 6, 8]))])
            elif t == "sl":
                v = dict(t="sl", v=[r.choice(["a", "bcd", "\u00e9", ""]) for _ in range(r.choice([0, 1, 1, 2, 6, 8]))])
            elif t in ("bl2", "sl2"):
                v = dict(t=t, v=[["a", "b"], ["cc", ""]][:r.choice([1, 2])])
            elif t == "weird":
                v = gen.Gen(r.random()).weird()
            else:
                v = dict(t=t, v=r.choice(["text", "", "\u00e9t\u00e9", "two words"]))
            at = [["units", dict(t="s", v="m")]] if r.random() < 0.3 else []
            kids.append(["d%d" % j, dict(k="d", v=v, attrs=at)])
        g = dict(k="g", attrs=[["NX_class", dict(t="s", v=r.choice(["NXentry", "NXdata"]))]], kids=kids)
        cases.append(dict(id=i, desc=dict(root=dict(k="g", attrs=[], kids=[["e", g]]))))
    return cases


def p13(check, tier, work):
    t = common.tlc("MC_Arrays", "MC_Arrays.cfg", work, workers=4)
    check.tlc(t)
    # the shapes which TLC enumerated, a file for each number of items shown
    for limit in range(0, 9):
        shapes = sorted(t["lines"])
        if tier == "quick":
            random.Random("%s/%d" % (SEED, limit)).shuffle(shapes)
            shapes = shapes[:220]
        cases = []
        for i in range(0, len(shapes), 20):
            kids = [["d%d" % j, dict(k="d", v=dict(t="shape", v=s), attrs=[])] for j, s in enumerate(shapes[i:i + 20])]
            cases.append(dict(id=i, desc=dict(root=dict(k="g", attrs=[], kids=kids))))
        r = random.Random("%s/arrays/%d" % (SEED, limit))
        more = array_cases(r, 25 if tier == "quick" else 1200)
        for c in more:
            c["id"] += 100000
        run_tree(check, work, cases + more, limit, "limit%d" % limit, size=400)


CHECKS = dict(P12=p12, P13=p13)
