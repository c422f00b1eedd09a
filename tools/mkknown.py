"""Write known_findings.json: the defects which were repaired (see git log of /repo), and those which were not."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    "8e14d79": "P10", "b2c4211": "P01", "e0dcbe7": "P01", "2e46fe6": "P01", "c89ffed": "P06", "6f5968a": "P03",
    "ee26c27": "P06", "b88cb5d": "P02", "59f3f15": "P10", "95afec2": "P02", "9cdb419": "P12", "3935b32": "P12",
    "eade2dd": "P12", "a5dc748": "P13", "39cd212": "P12", "b799905": "P13", "f3a3dc1": "P07", "597968f": "P09",
    "c9be5f6": "P18", "814809b": "P18", "8e66174": "P19", "d814bee": "P11", "ac3dc16": "P16", "1c704d5": "P16",
    "bc7d3e1": "P14", "1518855": "P14", "0d46823": "P19", "6f6e50b": "P21", "0709392": "P21", "e0ef7c5": "P11",
    "b920f1a": "P08", "33b40b9": "P10", "76b68a5": "P10", "a50eccb": "P02", "2667d76": "P12", "6b217ba": "P10", "a77f1d9": "P10", "a3ab732": "P16",
    "8e88e6b": "P16", "b34e104": "P16", "2aa774e": "P17", "f0ea8e1": "P21", "c44a3fc": "P05", "8d69068": "P06", "65c993a": "P21", "19428d4": "P17", "3a3f9c1": "P17", "f4f1e69": "P17", "631b3c2": "P17",
}
FINDINGS = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "5f0b858..main"],
                     stdout=subprocess.PIPE, text=True).stdout.splitlines()
fixed = []
for ln in log:
    h, s = ln.split(" ", 1)
    assert s.startswith("fix: ")
    fixed.append("fixed: property=%s %s %s" % (PROP[h[:7]], h, s[5:]))
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump(dict(findings=FINDINGS, fixed=fixed), f, indent=1)
    f.write("\n")
