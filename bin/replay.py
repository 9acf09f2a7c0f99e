#!/usr/bin/env python3
"""replay.py FILE - rebuild the harness of a recorded violation and rerun just its failing case."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check
r = json.load(open(sys.argv[1]))
job = next(j for j in check.CHECKS[r["property"]]["jobs"] if j["name"] == r["harness"])
os.makedirs(os.path.join(check.ROOT, "build"), exist_ok=True)
d = tempfile.mkdtemp(dir=os.path.join(check.ROOT, "build"))
exe, log = check.build(job, d)
if exe is None: sys.exit(log)
cmd = job.get("wrap", []) + [exe, "--seed", str(r["seed"]), "--tier", r["tier"], "--scratch", d] + job.get("args", [])
if r["section"]: cmd += ["--section", r["section"]]
if r["case"] >= 0: cmd += ["--case", str(r["case"])]
env = dict(os.environ); env.update(check.SAN_ENV); env.update(job.get("env", {}))
print(" ".join(cmd)); rc = subprocess.call(cmd, env=env, cwd=d); shutil.rmtree(d, ignore_errors=True); sys.exit(rc)
