#!/usr/bin/env python3
"""Development helper: turn a bug description into seeded/<id>/ and try demo and check on scratch copies.
usage: seedtool.py DEFS.py [id...]   (DEFS.py calls bug(...)); seedtool.py --try id... re-tries existing ones."""
import difflib, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
DEMO = '''#!/bin/sh
# exit 0 if the behaviour is right, nonzero otherwise; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=%s %s -w -I"$PWD/src" "$d/demo.cpp" -o "$t/demo" -pthread %s || exit 2
cd "$t" && timeout 250 ./demo
'''
def bug(id, prop, edits, needs, breaks, demo, std="gnu++17", opt="-O1", libs=""):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, std=std, opt=opt, libs=libs))
def emit(b):
    d = f"{ROOT}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    patch = ""
    files = {}
    for f, old, new, *nth in b["edits"]:
        t = files.get(f) or open(f"/repo/{f}").read()
        assert nth or t.count(old) == 1, (b["id"], f, t.count(old), old)
        at = t.split(old)
        k = nth[0] if nth else 0
        files[f] = old.join(at[:k + 1]) + new + old.join(at[k + 1:])
    for f, t in files.items():
        a = open(f"/repo/{f}").read()
        patch += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(a.splitlines(True), t.splitlines(True), f"a/{f}", f"b/{f}"))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write(b["demo"])
    open(d + "/demo.sh", "w").write(DEMO % (b["std"], b["opt"], b["libs"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def attempt(id, check=True):
    d = f"{ROOT}/seeded/{id}"
    prop = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        for n in ("clean", "bad"):
            os.makedirs(f"{t}/{n}")
            subprocess.check_call(["cp", "-a", "/repo/src", f"{t}/{n}/src"])
        subprocess.check_call(["git", "apply", "--unsafe-paths", f"--directory={t}/bad", d + "/patch.diff"], cwd="/") if False else subprocess.check_call(["patch", "-s", "-p1", "-i", d + "/patch.diff"], cwd=f"{t}/bad")
        r = [subprocess.run(["sh", d + "/demo.sh"], cwd=f"{t}/{n}", capture_output=True, text=True) for n in ("clean", "bad")]
        print(id, prop, "demo clean", r[0].returncode, "bad", r[1].returncode, (r[0].stdout + r[0].stderr)[-300:] if r[0].returncode else "", r[1].stdout[-200:].strip())
        if check:
            e = dict(os.environ, VERIF_REPO=f"{t}/bad", VERIF_SEED="1")
            c = subprocess.run(["python3", f"{ROOT}/bin/check.py", prop], env=e, capture_output=True, text=True)
            print("   check rc", c.returncode, "|", "\n      ".join((c.stdout + c.stderr).strip().splitlines()[-4:])[:700])
    finally:
        shutil.rmtree(t)
if __name__ == "__main__":
    if sys.argv[1] == "--try":
        for i in sys.argv[2:]: attempt(i)
    else:
        exec(open(sys.argv[1]).read())
        for b in BUGS:
            if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
            emit(b)
            attempt(b["id"], "NOCHECK" not in os.environ)
