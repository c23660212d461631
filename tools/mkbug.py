"""tools/mkbug.py FILE.py...: write seeded/<id>/ from a definition file.

A definition: ID, PROP, EDITS=[(path, old, new)], NEEDS, BREAKS, DEMO (python source, run with
PYTHONPATH=$PWD/src) or DEMO_SH."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
HEAD = '''import asyncio, sys, json, logging
logging.disable(logging.CRITICAL)
import reactpy
from reactpy import *
from reactpy import config
from reactpy.core.layout import Layout
'''
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = f"{H}/seeded/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", R, "status", "--short"], capture_output=True, text=True).stdout
    try:
        for p, a, b in g["EDITS"]:
            s = open(f"{R}/{p}").read()
            assert s.count(a) == 1, (f, p, s.count(a), a)
            open(f"{R}/{p}", "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    if "DEMO_SH" in g:
        open(f"{d}/demo.sh", "w").write("#!/bin/bash\n" + g["DEMO_SH"])
        for n, t in g.get("FILES", {}).items():
            open(f"{d}/{n}", "w").write(t)
    else:
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(f"{d}/demo.py", "w").write((HEAD if not g.get("NOHEAD") else "") + g["DEMO"])
    print(g["ID"])
