#!/usr/bin/env python3
"""replay.py FILE: executes a replay file on /repo's current tree; exit 1 if the violation shows."""
import sys
import check
import simlib

f = simlib.load_failure(sys.argv[1])
variants = {f.variant}
if "other" in f.extra:
    variants.add(f.extra["other"].split()[0])
simlib.build({v: sorted(check.units_of(f.workload, f.real)) for v in variants})
cls, r, msg = simlib.run_replay(f, text=True)
if r:
    print("\n".join(r["text"]))
    print("log hash", r["hash"])
if cls:
    print("violation: %s: %s" % (cls, msg))
    sys.exit(1)
print("no violation")
