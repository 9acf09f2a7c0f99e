#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - build this property's harnesses from /repo's working tree,
run them, merge what the monitors observed, write evidence/<id>.json, and give the verdict.
exit 0: held on everything explored; 1: violated (VIOLATION line); 3: the check itself failed."""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS

def build(job, bdir):
    """compile one harness; returns (binary or None, log)"""
    exe = os.path.join(bdir, job["name"])
    cmd = [job.get("cxx", "g++"), "-std=c++17", "-pthread", "-w", f"-I{REPO}/src", f"-I{ROOT}/harness"] \
        + job.get("flags", ["-O2"]) + [os.path.join(ROOT, "harness", job["src"]), "-o", exe] + job.get("libs", [])
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "compiler timeout: " + " ".join(cmd)
    if p.returncode != 0:
        return None, " ".join(cmd) + "\n" + p.stdout[-4000:]
    return exe, f"built in {time.time()-t:.1f}s"

def plain(text):
    """a harness restricted to double: what is left to run when the library no longer builds for wider or compensated numbers"""
    text = re.sub(r"(?m)^(?:template <> struct raw<| *vh::cases\(\"residuals\").*\n", "", text)
    text = re.sub(r"(?<![\w:\"])(?:long_double_k|double_[kpe])(?![\w\"])", "double", text)
    for _ in range(3):
        text = re.sub(r"((?:Types|vec_case|array_case|residual_case|SSO_vector|std::vector|Vec3)<(?:double, )?)long double\b", r"\1double", text)
    return re.sub(r"_(?:ExtPlus|Plus|Ext)(?=[<,)])", "", text)

def build_or_plain(job, bdir):
    exe, log = (None, "forced") if os.environ.get("VERIF_PLAIN") else build(job, bdir)
    if exe: return exe, log, False
    src = os.path.join(bdir, job["name"] + "_plain.cpp")
    with open(os.path.join(ROOT, "harness", job["src"])) as f: text = plain(f.read())
    with open(src, "w") as f: f.write(text)
    exe, log2 = build(dict(job, src=src), bdir)
    return exe, log, True

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:strict_string_checks=1:detect_stack_use_after_return=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=77",
    "MSAN_OPTIONS": "exitcode=77:halt_on_error=1",
}

def run_one(job, exe, shard, tier, seed, bdir):
    tag = f"{job['name']}.{shard}"
    out = os.path.join(bdir, tag + ".json")
    scratch = os.path.join(bdir, tag + ".d")
    os.makedirs(scratch, exist_ok=True)
    args = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--shard", str(shard),
            "--shards", str(job.get("shards", 1)), "--scratch", scratch] + job.get("args", [])
    env = dict(os.environ); env.update(SAN_ENV); env.update(job.get("env", {}))
    limit = job.get("timeout", 240) if tier == "quick" else job.get("timeout_thorough", 6 * job.get("timeout", 240))
    t = time.time()
    logf = open(os.path.join(bdir, tag + ".log"), "w+", errors="replace")
    p = subprocess.Popen(job.get("wrap", []) + args, stdout=logf, stderr=subprocess.STDOUT, env=env, cwd=scratch,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    hung = False
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        hung = True
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    logf.seek(0, 2); size = logf.tell()
    logf.seek(max(0, size - 6000)); log = logf.read(); logf.close()
    with open(os.path.join(bdir, tag + ".log"), errors="replace") as f: head = f.read(6000)
    res = None
    try:
        with open(out) as f: res = json.load(f)
    except Exception:
        res = None
    prog = ""
    try:
        with open(out + ".progress", "rb") as f: prog = f.read().split(b"\n")[0].decode(errors="replace").strip("\0 ")
    except OSError: pass
    return dict(job=job, shard=shard, rc=p.returncode, hung=hung, res=res, prog=prog, log=log, head=head,
                secs=time.time() - t, cmd=" ".join(args), limit=limit)

def classify_death(r):
    """what an abnormal end of a workload means: (key, detail)"""
    text = r["head"] + r["log"]
    sec = r["prog"].split(" ")[0] if r["prog"] else "start"
    for pat, name in ((r"ERROR: AddressSanitizer: (\S+)", "asan"), (r"WARNING: ThreadSanitizer: ([^\n(]+)", "tsan"),
                      (r"runtime error: ([^\n]+)", "ubsan"), (r"ERROR: (LeakSanitizer: [^\n]+)", "lsan"),
                      (r"WARNING: MemorySanitizer: (\S+)", "msan"), (r"==\d+== (Conditional jump[^\n]+|Use of uninit[^\n]+|Invalid (?:read|write|free)[^\n]*|Syscall param[^\n]+)", "memcheck"),
                      (r"(Assertion [^\n]+ failed)", "assertion")):
        m = re.search(pat, text)
        if m:
            what = re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m.group(1))).strip("-")[:60]
            where = re.findall(re.escape(REPO) + r"/src/([\w./-]+):(\d+)", text) or re.findall(r"\(([\w-]+\.hpp):(\d+)\)", text)
            site = where[0][0] if where else "?"
            return f"{name}:{what}@{site}", text[:1500]
    if r["hung"]: return f"hang:{r['job']['name']}:{sec}", f"still running after {r['limit']} s at case '{r['prog']}'"
    if r["rc"] is not None and r["rc"] < 0: return f"signal{-r['rc']}:{r['job']['name']}:{sec}", f"killed by signal {-r['rc']} at case '{r['prog']}': {r['log'][-600:]}"
    return f"died:{r['job']['name']}:{sec}", f"exit code {r['rc']} before the workload was complete, at case '{r['prog']}': {r['log'][-600:]}"

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    top = os.path.join(ROOT, "build"); os.makedirs(top, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=top)
    keep = os.environ.get("VERIF_KEEP")
    try:
        rc = check(pid, tier, seed, spec, bdir, t0)
    finally:
        if not keep: shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, seed, spec, bdir, t0):
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    nworkers = int(os.environ.get("VERIF_JOBS", "8"))
    results, build_errors = [], []
    with cf.ThreadPoolExecutor(nworkers) as ex:
        pend = {ex.submit(build_or_plain, j, bdir): j for j in jobs}
        runs = []
        for fut in cf.as_completed(list(pend)):
            j = pend[fut]; exe, log, reduced = fut.result()
            if reduced: build_errors.append((j["name"], log))
            if exe is None: continue
            for sh in range(j.get("shards", 1)):
                runs.append(ex.submit(run_one, j, exe, sh, tier, seed, bdir))
        for fut in runs: results.append(fut.result())
    results.sort(key=lambda r: (r["job"]["name"], r["shard"]))
    ev = 0; distinct = set(); counters = {}; maxima = {}; samples = []; viols = []; errors = []
    for n, log in build_errors: errors.append(f"harness {n} does not build:\n{log}")
    for r in results:
        res = r["res"]
        complete = bool(res and res.get("complete"))
        if res:
            ev += res["evaluations"]; distinct.update(res["distinct_list"])
            for k, v in res["counters"].items(): counters[k] = counters.get(k, 0) + v
            for k, v in res["maxima"].items():
                if isinstance(v, str) or k not in maxima or isinstance(maxima[k], str) or v > maxima[k]:
                    maxima[k] = v if not isinstance(maxima.get(k), str) else maxima[k]
            samples += res["samples"]
            for v in res["violations"] if not r["job"].get("deaths_only") else ():  # (C23 reuses workloads whose values other properties judge)
                v["cmd"] = r["cmd"]; v["job"] = r["job"]["name"]; viols.append(v)
        if not complete or r["rc"] != 0:
            if r["rc"] == 4: errors.append(f"harness {r['job']['name']}: usage/report error\n{r['log'][-500:]}"); continue
            key, detail = classify_death(r)
            viols.append(dict(key=key, detail=detail, section=r["prog"].split(" ")[0] if r["prog"] else "",
                              case=int(r["prog"].split(" ")[1]) if len(r["prog"].split(" ")) > 1 and r["prog"].split(" ")[1].lstrip("-").isdigit() else -1,
                              cmd=r["cmd"], job=r["job"]["name"]))
    known = {}
    try:
        with open(os.path.join(ROOT, "known_findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"): continue
                k = json.loads(line)
                if k.get("property") == pid and k.get("status", "known") == "known": known[k["key"]] = k["what"]
    except FileNotFoundError: pass
    seen_known = sorted({v["key"] for v in viols if v["key"] in known})
    fresh = [v for v in viols if v["key"] not in known]
    # the monitors must actually have seen something
    floor = spec.get("floor", {})
    if not errors and not fresh:
        if ev == 0: errors.append("no evaluation was observed")
        for k, v in floor.items():
            if counters.get(k, 0) < v: errors.append(f"monitor starved: counter {k}={counters.get(k,0)} below {v}")
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    samples = samples[:12]
    if len(samples) < 1: samples = ["(none recorded)"]
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(distinct), "rule": spec["rule"], "samples": samples,
                     "observed": counters, "worst_margin_of_tolerance": {k[7:]: v for k, v in sorted(maxima.items()) if k.startswith("margin:")},
                     "observed_maxima": {k: v for k, v in sorted(maxima.items()) if not k.startswith("margin:")},
                     "harness_runs": [{"name": r["job"]["name"], "shard": r["shard"], "seconds": round(r["secs"], 2), "exit": r["rc"],
                                       "build": (r["job"].get("cxx", "g++") + " " + " ".join(r["job"].get("flags", ["-O2"])))} for r in results],
                     "known_findings_seen": seen_known},
        "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(evidence, f, indent=1)
    for k in seen_known: print(f"KNOWN-FINDING: property={pid} {k}: {known[k]}")
    if fresh:
        rdir = os.path.join(ROOT, "replay"); os.makedirs(rdir, exist_ok=True)
        seenk = set()
        for v in fresh:
            if v["key"] in seenk: continue
            seenk.add(v["key"])
            if len(seenk) > 10: break
            path = os.path.join(rdir, f"{pid}-{len(seenk)}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "harness": v["job"], "section": v["section"],
                           "case": v["case"], "key": v["key"], "detail": v["detail"],
                           "how": f"VERIF_SEED={seed} python3 {ROOT}/bin/replay.py {path}"}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  key={v['key']} case={v['section']}[{v['case']}] {v['detail'][:500]}")
        return 1
    if errors:
        for e in errors: print("CHECK ERROR:", e)
        return 3
    print(f"OK {pid} tier={tier} seed={seed} evaluations={ev} distinct={len(distinct)} wall={wall:.1f}s")
    return 0

if __name__ == "__main__": main()
