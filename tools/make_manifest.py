#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check

TECH = "deterministic simulation with seeded fault injection against a reference model"
NOTE = {
    "C01": "Seeded search over interleavings of real threads, parked and released one at a time at instrumented memory accesses of the library; each thread's results must be those of its solo run and of the model.",
    "C02": "Seeded search over recorded histories (small storage chunks, both slot policies); adjoints compared with a forward-mode model with running error bounds.",
    "C03": "Seeded search over orders of registering and destroying variables, with failing allocations; slots and counts compared with the model after every step.",
    "C04": "Seeded search over positions, partial sweeps and truncations relative to storage boundaries; adjoints compared with the model.",
    "C05": "Seeded search over histories (with exceptions and failing allocations) before a restart, after which the same seeded recording is run on the restarted and on a new tape: results must be bit-identical.",
    "C06": "Seeded search over placements of external, in-place, nested and recursive callbacks; order and adjoints compared with the model.",
    "C07": "Misuse injected at seeded points of histories; exception type, all observers and later results compared with the model.",
    "C08": "Exceptions injected at seeded invocations and stages of callbacks; propagation, later invocations, leaks and recovery checked.",
    "C09": "Seeded allocation failures inside the library at any step; outcome, memory safety, leaks and recovery checked under AddressSanitizer.",
    "C10": "Seeded schedules of three threads and several tapes handed between them; active tape, recordings and adjoints compared with the model after every step.",
    "C11": "Tapes moved by construction and assignment at seeded points of histories, also with failing allocations; compared with the model that ignores the move.",
    "C12": "Seeded histories with owned, popped and inserted callbacks, exceptions, failing allocations, moves; every object and allocation must be released exactly once.",
    "C13": "Seeded sequences of driver calls with injected exceptions and allocation failures, interleaved with other uses of the tapes; results compared with forward-mode models.",
    "C14": "Seeded stream faults and formatting states; characters, state and value compared with plain numbers, the tape with the model.",
    "C15": "The tape workload with forward and adjoint types (up to two levels) inside the adjoint type; second and third order derivatives compared with the model.",
    "C16": "Seeded sequences of container operations with failing allocations and throwing copies, for several chunk sizes and element types, compared with std::vector; element and memory accounting.",
    "C17": "The same seeded run executed in five configurations (chunk sizes, slot policies, NDEBUG, memory contents) and twice within a process must give bit-identical results.",
    "C22": "Seeded loop bodies, ways of starting over, and aborted repetitions (exceptions, failing allocations); every completed repetition must equal the first one, and live allocations, storage and slots must not grow.",
}
TITLES = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C18": "pure functions of their arguments: no schedule, fault, clock, I/O or history can change the result, so there is nothing for a simulator to control (the functions are part of the simulated recordings of C02, C06 and C15, at sampled points)",
    "C19": "forward types hold no state beyond the value itself; evaluation is a pure function of the inputs without schedule, fault or history",
    "C20": "complex arithmetic is a pure function of its arguments; recording it goes through the same tape operations that C02 to C12 decide",
    "C21": "statically decided properties of types; nothing executes that a simulator could schedule or fault",
}
checks = []
na = []
for p in TITLES:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i not in check.PLAN:
        na.append({"property": i, "reason": "not claimed yet: the workload is under construction"})
    else:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "exploration",
                       "level_note": NOTE[i] + " Trusts the model in verif/sim and samples histories: no proof."})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "XAD_SIM_CHUNK_SIZE", "enable": "-DXAD_SIM_CHUNK_SIZE=64 when compiling src/Tape.cpp and the harness (done by simlib.py)",
               "source_commits": ["b011f19"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
