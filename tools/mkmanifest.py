#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
V = run.V
DONE = os.environ.get("DONE", "").split() or json.load(open(os.path.join(V, "tools", "claimed.json")))
SYS = {
    "linux": "the library's real code (every file of the Linux build, instrumented) on a simulated Linux kernel (file system, inotify, epoll, pipe) that is compared with the real kernel on every run",
    "kqueue": "the library's real kqueue backend (FreeBSD build) on a simulated kqueue (written from its documentation; there is no such kernel here to compare it with)", "fen": "the library's real FEN backend (Solaris build, its C calls bound to a fake libc that accounts for every allocation) on a simulated event port (written from its documentation; there is no such kernel here to compare it with)",
    "fsevents": "the real FSEvents backend (its C calls bound to simulated frameworks, written from their documentation)", "stub": "the build for systems without a backend", "windows": "the real Windows backend on simulated directory handles and a completion port (written from their documentation; there is no such system here to compare it with)",
}
NOTE = "Exhaustive within the bounds printed in the evidence file (scenarios, schedules up to a preemption bound, operation histories up to a depth, faults up to a bound); sequentially consistent memory; nothing beyond the bounds is claimed. "
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p["id"] not in DONE:
        continue
    vs = run.PLAN[p["id"]][0]
    what = "; ".join(dict.fromkeys(SYS[v.replace("race", "")] for v in vs))
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/run.py %s quick" % p["id"], thorough_cmd="python3 tools/run.py %s thorough" % p["id"],
                       technique="stateless model checking of the implementation: exhaustive exploration of schedules, histories and faults under a controlled scheduler and simulated OS",
                       level="model_checking", level_note=NOTE + "Runs " + what + "."))
vs = sorted({v for p in DONE for v in run.PLAN[p][0]})
m = dict(version=1, setup_cmd="python3 tools/mcbuild.py " + " ".join(vs), hooks=dict(guard="none: the checks instrument a copy of the sources at build time", enable="not needed", source_commits=[]),
         checks=checks, not_applicable=[dict(property=p["id"], reason="no check built yet") for p in props if p["id"] not in DONE],
         notes="python3 tools/run.py ID quick|thorough; see DESIGN.md")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
