#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property on /repo's current tree by simulation."""
import json
import os
import random
import shutil
import sys
import time

import simlib
from simlib import Task, VERIF, BUILD

UNIT = {"double": "w_double", "float": "w_float", "freal": "w_freal", "areal": "w_areal",
        "ff": "w_ff", "af": "w_af", "fa": "w_fa", "aa": "w_aa"}
WORKLOAD_UNIT = {"chunk": "chunk", "drivers": "drivers", "stream": "stream", "loop": "loop"}


def units_of(workload, real):
    base = ["core", "main", "profiles"]
    if workload == "threads":
        return base + ["threads", "trt"] + list(simlib.THR_UNITS)
    return base + [WORKLOAD_UNIT.get(workload) or UNIT[real]]


class Cfg:
    def __init__(self, variant, profile, count, real="double", workload="world", shard=250, extra=()):
        self.variant, self.profile, self.count, self.real = variant, profile, count, real
        self.workload, self.shard, self.extra = workload, shard, list(extra)

    def units(self):
        return units_of(self.workload, self.real)


def world(*rows):
    return [Cfg(*r[:3], **(r[3] if len(r) > 3 else {})) for r in rows]


FR = {"real": "freal"}
AR = {"real": "areal"}
FL = {"real": "float"}
LO = {"workload": "loop", "real": "mixed"}
TH = {"workload": "threads", "real": "mixed", "shard": 500}
PLAN = {
    "C01": world(("thr", "c01", 6000, TH), ("thrr", "c01", 6000, TH)),
    "C02": world(("def", "c02", 12000), ("reuse", "c02", 12000), ("big", "c02", 6000), ("tiny", "c02", 6000),
                 ("def", "c02", 2000, FR), ("reuse", "c02", 2000, AR), ("def", "c04", 3000), ("reuse", "c06", 3000)),
    "C03": world(("reuse", "c03", 20000), ("def", "c03", 10000), ("tiny", "c03", 5000), ("reuse", "c06", 3000), ("reuse", "c09", 3000),
                 ("reuse", "c11", 3000)),
    "C04": world(("def", "c04", 16000), ("reuse", "c04", 16000), ("tiny", "c04", 6000), ("big", "c04", 4000)),
    "C05": world(("def", "c05", 12000), ("reuse", "c05", 12000), ("tiny", "c05", 3000), ("def", "c08", 2000), ("reuse", "c09", 2000)),
    "C06": world(("def", "c06", 16000), ("reuse", "c06", 16000), ("tiny", "c06", 6000), ("def", "c06", 2000, FR), ("reuse", "c06", 2000, AR)),
    "C07": world(("def", "c07", 16000), ("reuse", "c07", 16000), ("big", "c07", 4000), ("tiny", "c07", 6000)),
    "C08": world(("def", "c08", 16000), ("reuse", "c08", 16000), ("tiny", "c08", 6000), ("reuse", "c15f", 2000, AR)),
    "C09": world(("def", "c09", 16000), ("reuse", "c09", 16000), ("tiny", "c09", 6000), ("reuse", "c15f", 2000, AR),
                 ("def", "c16", 6000, {"workload": "chunk", "real": "mixed"})),
    "C10": world(("def", "c10", 9000), ("reuse", "c10", 9000), ("tiny", "c10", 3000)),
    "C11": world(("def", "c11", 16000), ("reuse", "c11", 16000), ("tiny", "c11", 6000), ("reuse", "c11", 1500, AR)),
    "C12": world(("def", "c12", 16000), ("reuse", "c12", 16000), ("tiny", "c12", 6000),
                 ("def", "c16", 6000, {"workload": "chunk", "real": "mixed"})),
    "C13": world(("def", "c13", 50000, {"workload": "drivers", "real": "mixed"}), ("reuse", "c13", 50000, {"workload": "drivers", "real": "mixed"}),
                 ("tiny", "c13", 10000, {"workload": "drivers", "real": "mixed"})),
    "C14": world(("def", "c14", 80000, {"workload": "stream", "real": "mixed", "shard": 1000}), ("reuse", "c14", 40000, {"workload": "stream", "real": "mixed", "shard": 1000})),
    "C15": world(("def", "c15", 3000, FR), ("reuse", "c15", 3000, FR), ("def", "c15", 3000, AR), ("reuse", "c15", 3000, AR),
                 ("def", "c15f", 1500, AR), ("reuse", "c15f", 1500, FR),
                 ("def", "c15", 1000, {"real": "ff"}), ("reuse", "c15", 1000, {"real": "af"}),
                 ("def", "c15", 1000, {"real": "aa"}), ("reuse", "c15", 1000, {"real": "fa"})),
    "C16": world(("def", "c16", 40000, {"workload": "chunk", "real": "mixed"}), ("big", "c16", 20000, {"workload": "chunk", "real": "mixed"})),
    "C17": world(("def", "c17", 8000, {"extra": ["compare"]}), ("def", "c02", 4000, {"extra": ["--twice", "1"]}),
                 ("reuse", "c04", 4000, {"extra": ["--twice", "1"]}), ("reuse", "c06", 4000, {"extra": ["--twice", "1"]}),
                 ("def", "c05", 2000, {"extra": ["--twice", "1"]})),
    "C22": world(("def", "c22", 10000, LO), ("reuse", "c22", 10000, LO), ("tiny", "c22", 8000, LO), ("big", "c22", 3000, LO)),
}
# C17: every seed is executed in all of these, the observed results have to be identical
COMPARE = [("def", -1), ("def", 0xFF), ("reuse", -1), ("big", 0x00), ("tiny", 0x7F)]

REAL_PARTS = "all of XAD: src/XAD headers and src/*.cpp of the current tree, compiled unmodified (storage chunk size set by XAD_SIM_CHUNK_SIZE)"
STUB_PARTS = "allocator (operator new/delete, malloc family) behind a seam with seeded faults and memory contents; checkpoint callbacks are simulated clients; OS threads parked and released by the seeded scheduler"


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("known:"):
            d = dict(x.split("=", 1) for x in line[6:].split("|")[0].split())
            if d["property"] == prop:
                out.append((d, line.split("|", 1)[1].strip()))
    return out


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cap = float(os.environ.get("SIM_CAP", 720 if thorough else 120))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cfgs = PLAN[prop]
    known = known_findings(prop)

    # ---- build from the current tree
    units = {}
    for c in cfgs:
        vs = [v for v, _ in COMPARE] if "compare" in c.extra else [c.variant]
        for v in vs:
            units.setdefault(v, set()).update(c.units())
    for d, _ in known:
        units.setdefault("def", {"core", "main", "profiles"}).add("probes")
    try:
        build_s = simlib.build({v: sorted(u) for v, u in units.items()})
    except simlib.BuildError as e:
        print("error: the tree doesn't build in the simulator\n%s" % e)
        return 2

    for d, what in known:
        f = simlib.Failure("def", "probe", "double", "probe", int(d["probe"]), "", "", [])
        try:
            cls = simlib.run_replay(f, timeout=60)[0]
        except Exception:
            cls = None
        if cls and cls.startswith("finding-"):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))

    # ---- seeds
    scale = 40 if thorough else 1
    scale *= float(os.environ.get("SIM_SCALE", "1"))
    tasks, compare = [], []
    for k, c in enumerate(cfgs):
        n = max(c.shard, int(c.count * scale))
        base = (seed % 100000) * 100000000 + k * 10000000
        for i in range(0, n, c.shard):
            cnt = min(c.shard, n - i)
            if "compare" in c.extra:
                group = []
                for v, fill in COMPARE:
                    group.append(Task(v, c.workload, c.real, c.profile, base + i, cnt,
                                      extra=["--hashes", "1"] + (["--fill", str(fill)] if fill >= 0 else [])))
                compare.append((i, group))
                for t in group:
                    tasks.append((i / n, t))
            else:
                tasks.append((i / n, Task(c.variant, c.workload, c.real, c.profile, base + i, cnt, extra=c.extra)))
    tasks.sort(key=lambda x: x[0])
    deadline = time.time() + cap
    done = simlib.run_tasks([t for _, t in tasks], deadline=deadline)
    run_s = time.time() - t0 - build_s

    fails = [t for t in done if t.failure]
    violation = None
    note = ""
    if fails:
        fails.sort(key=lambda t: len(t.failure.ops) or 10000)
        for t in fails:
            f = t.failure
            f2 = confirm(f, t)
            if f2:
                violation = f2
                break
        if not violation:
            f = fails[0].failure
            print("error: a violation could not be reproduced: %s %s (%s %s %s seed %d)" % (f.cls, f.msg, f.variant, f.real, f.profile, f.seed))
            return 2
    else:
        for i, group in compare:
            if all(t.result and t.result["done"] for t in group):
                ref = group[0].result["hashes"]
                for (v, fill), t in list(zip(COMPARE, group))[1:]:
                    for s in sorted(ref):
                        if t.result["hashes"].get(s, ref[s])[0] != ref[s][0]:
                            f = simlib.Failure(group[0].variant, t.workload, t.real, t.profile, s, "differs", "", [])
                            f.extra["other"] = "%s %d" % (v, fill)
                            f.generate = True
                            violation = confirm(f, t)
                            break
                    if violation:
                        break
            if violation:
                break

    path = ""
    if violation:
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.replay" % (prop, violation.seed))
        violation.write(path)
        print("seed %d of workload %s/%s/%s (configuration %s): %s: %s" % (violation.seed, violation.workload, violation.real, violation.profile,
                                                                         violation.variant, violation.cls, violation.msg))
        for i, o in enumerate(violation.ops):
            print("   ", violation.text[i] if i < len(violation.text) else o)
        print("VIOLATION property=%s replay=%s" % (prop, path))

    evidence(prop, tier, seed, cfgs, done, build_s, run_s, t0, violation)
    return 1 if violation else 0


def confirm(f, t):
    """the violation has to be reproduced by a fresh process, twice; then it is minimised"""
    def same():
        got = [simlib.run_replay(f) for _ in range(2)]
        return got[0][0] is not None and got[0][0] == got[1][0] and got[0][0] or None

    if f.generate:
        # configurations disagree: get the steps first
        got = simlib.run_replay(f)
        a = simlib.run_single(f, extra=["--ops", "1"])
        if not got[0]:
            return None
        f.cls, f.msg = got[0], got[2]
        f.ops = a[1]["ops"]
        f.generate = False
        if simlib.run_replay(f)[0] != f.cls:
            f.generate, f.ops = True, []
            return f
    cls = same()
    if cls != f.cls and not (cls and f.cls.startswith("crash")):
        f.generate = True
        ops, f.ops = f.ops, []
        cls = same()
        if not cls:
            f.generate = False
            f.extra["range"] = "%d %d" % (t.start, t.step)
            cls = same()
            if not cls:
                return None
    f.cls = cls
    if f.ops:
        budget = 45.0
        f.ops = simlib.minimise(f, budget)
        got = simlib.run_replay(f, text=True)
        if got[1]:
            f.text = got[1]["text"]
        f.msg = got[2] or f.msg
    return f


def evidence(prop, tier, seed, cfgs, done, build_s, run_s, t0, violation):
    stats, runs, conf = {}, 0, {}
    for t in done:
        r = t.result
        if not r:
            continue
        runs += r["runs"]
        key = "%s %s/%s/%s%s" % (t.variant, t.workload, t.real, t.profile, " " + " ".join(t.extra) if t.extra else "")
        conf[key] = conf.get(key, 0) + r["runs"]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    samples = []
    for t in done[:3]:
        f = simlib.Failure(t.variant, t.workload, t.real, t.profile, t.start, "", "", [], generate=True)
        try:
            got = simlib.run_replay(f, text=True)
            if got[1]:
                samples.append({"configuration": t.variant, "workload": "%s/%s/%s" % (t.workload, t.real, t.profile), "seed": t.start,
                                "steps": got[1]["text"][:60], "log_hash": got[1]["hash"]})
        except Exception:
            pass
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault_")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": simlib.RUNS_SEEN.count(),
            "rule": "a case is one simulated run: a seeded sequence of steps and faults against the real library and the reference model; "
                    "non-trivial: at least 5 steps were executed and results were compared with the model; distinct: different hash over "
                    "all executed steps, their arguments and observed results",
            "samples": samples,
            "runs_per_hour": int(runs / max(run_s, 0.001) * 3600),
            "runs_by_configuration": conf,
            "simulated_steps": stats.get("steps", 0),
            "simulated_time": "the system has no clock; simulated time is the number of simulated steps",
            "faults_injected": faults,
            "steps_by_kind": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op_")},
            "checked": {k: v for k, v in sorted(stats.items()) if not k.startswith(("op_", "fault_"))},
            "distinct_states": simlib.STATES.count(),
            "state_measure": "28 bit hash of the abstract state of the tape after each step (see DESIGN.md)",
            "real_code": REAL_PARTS, "stubs": STUB_PARTS,
            "build_s": round(build_s, 1),
        },
        "assumptions": ["sampling: a clean batch is evidence, not proof", "the reference model in verif/sim is right about what is documented"],
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)


if __name__ == "__main__":
    sys.exit(main())
