#!/usr/bin/env python3
"""writes the 'fixed:' part of known_findings.jsonl from /repo's fix commits (property assigned by subject)"""
import subprocess
M = [("semi-latus rectum","C09"),("reference plane","C09"),("Hyperbolic orbit","C12"),("M_anomaly_to_E","C10"),("keeps the old origin","C06"),("LogTimeSlice never","C06"),
("EnergyErrWriter","C07"),("stop conditions","C05"),("chain search","C08"),("tidal_factor","C11"),("E_tid","C11"),("time_to_periapsis","C10"),("StickyCollision","C27"),
("random::Parameter","C14"),("PowerLaw","C14"),("multi_threads_loop","C24"),("multi_thread helpers","C24"),("ThreadPool shutdown","C25"),("thread_pool.h","C25"),
("ConcurrentDeque","C25"),("Opip and Ipip start","C25"),("Ipip delivers","C25"),("Costream","C25"),("general derivative","C04"),("reads past its tables","C23"),
("very first step","C18"),("plain ODE","C19"),("set_limiter","C18"),("Klein","C13"),("PN2 uses","C15"),("MagnetoDisk","C16"),("disk drag","C16"),("AlphaDisk","C16"),("DiskCaptureStar","C16"),("SmallVector","C21"),("square roots, powers","C29"),("kB_on_mp","C28"),("command line arguments","C26"),("OptArg","C26"),("ConfigReader","C26"),("run to time zero","C05"),("Radau methods end the program","C18"),("tenth order symplectic","C17"),("fixed-step Radau","C17"),("general Bulirsch-Stoer solver accepts","C19"),("accept steps that miss the tolerance","C18"),("not a number are accepted as free","C18"),("single increase of the correction","C03"),("automatic output names","C30"),("Lidov-Kozai","C11")]
EXTRA = {}
import os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path=ROOT+"/known_findings.jsonl"
old=[l for l in (open(path).read().splitlines() if os.path.exists(path) else []) if not l.startswith("fixed:")]
if not old: old=["# one JSON object per known (unrepaired) finding: {property, key, what, status:\"known\"}; 'fixed:' lines record repairs and suppress nothing"]
out=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
for l in out:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    pid=[p for k,p in M if k in s]
    old.append(f"fixed: property={pid[0] if pid else '?'} {h} {s[5:]}")
    if not pid: print("unassigned:",l)
open(path,"w").write("\n".join(old)+"\n")
