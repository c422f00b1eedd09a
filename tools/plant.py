"""Write /verif/seeded/<id>/ from an edit: plant.py SPEC.json  (list of dicts)

id, property, file, edits [[old, new], ...] (each old occurs once), demo (python), needs, what_it_breaks
"""
import json
import os
import subprocess
import sys
import tempfile
import shutil

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    tmp = tempfile.mkdtemp(prefix="plant-")
    subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
    edits = b["edits"]
    for fn, old, new in edits:
        p = os.path.join(tmp, "r", fn)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=tmp + "/r", stdout=subprocess.PIPE, check=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    shutil.rmtree(tmp)
    open(d + "/demo.py", "w").write(b["demo"].lstrip())
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run in /repo; all effects stay in a scratch folder
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/config" "$W/tmp"
export PATH=/opt/venv/bin:$PATH SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0 PYTHONDONTWRITEBYTECODE=1
export QT_QPA_PLATFORM=offscreen XDG_CONFIG_HOME="$W/config" TMPDIR="$W/tmp" PYTHONPATH="$PWD" SCRATCH="$W/tmp"
cd "$W/tmp" && /opt/venv/bin/python "$HERE/demo.py"
""")
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what_it_breaks"]),
              open(d + "/meta.json", "w"), indent=1)
    print(b["id"])
