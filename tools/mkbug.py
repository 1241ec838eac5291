"""mkbug.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Writes seeded/<ID>/{patch.diff,demo.sh,demo.py,meta.json} and validates them with plant.sh."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)
import warnings
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
from yaocptool import config
config.SOLVER_OPTIONS["nlpsol_options"].update({"ipopt.linear_solver": "mumps", "ipopt.sb": "yes", "print_time": False})
import numpy as np
import casadi as ca
from casadi import DM, SX, MX, vertcat, horzcat, inf
'''
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    w = tempfile.mkdtemp(prefix="mkbug")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in g["EDITS"]:
        p = os.path.join(w, "r", "yaocptool", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    shutil.rmtree(w)
    out = os.path.join(ROOT, "seeded", g["ID"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(PRE + g["DEMO"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    subprocess.call(["bash", os.path.join(ROOT, "tools", "plant.sh"), g["ID"]])
