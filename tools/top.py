#!/usr/bin/env python3
"""top.py PROP: the most expensive explorations of the last run."""
import json, sys, os
r = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".build", "last-%s.json" % sys.argv[1])))
r = [x for x in r if not x["Skipped"]]
print(sum(x["WallS"] for x in r), "s of work")
for x in sorted(r, key=lambda x: -x["WallS"])[:int(sys.argv[2]) if len(sys.argv) > 2 else 15]:
    print("%7.1fs %8d ex p%d/%d cap=%s depth %d  %s" % (x["WallS"], x["Execs"], x["Preempt"], x["Env"], x["Capped"], x["MaxDepth"], x["Scenario"]))
