#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))
TAPE = ["src/Tape.cpp", "src/XAD/Tape.hpp"]
LIT = "src/XAD/Literals.hpp"
CH = "src/XAD/ChunkContainer.hpp"
HOOK = "XAD_SIM_CHUNK_SIZE (small tape chunks)"

prop("C01", "Tapes on different threads never influence each other",
     "Threads that each activate and use their own tape and their own active variables get, under every interleaving of their steps, bit-for-bit the results (values, adjoints, counts, exceptions) they get when they run alone. No data race, crash or hang is possible in such use, for any element type and any order in which tapes are created, activated and destroyed.",
     ["schedules", "histories"], "every interleaving (down to single memory accesses) of 2-4 threads running arbitrary record/sweep histories",
     "The existing tests contain one multi-threaded test run under whatever schedule the OS picks; nothing explores interleavings.",
     TAPE + [LIT], [("per-thread active tape", "src/Tape.cpp active_tape_ (XAD_THREAD_LOCAL)"), ("no other shared mutable state", "src/Tape.cpp, src/XAD/Literals.hpp")],
     ["derivative()", "value()", "getNumVariables()", "Tape::getActive()"], HOOK)
prop("C02", "Adjoints follow the chain rule for every recorded history",
     "Whatever sequence of creating, copying, moving, swapping, assigning, overwriting and destroying active variables (including inside growing containers) was recorded, and however large the tape gets, seeding variables and computing adjoints yields for every live variable the derivative of the recorded computation with respect to it. This holds with and without slot re-use, when several outputs are seeded, when sweeps are repeated after clearing derivatives, and when variables that took part in the computation are gone by then.",
     ["histories", "programs", "configurations"], "all recorded histories over the public variable/tape API, all tape sizes relative to the chunk size, both slot policies, allocation faults absorbed by the library",
     "Unit tests record a handful of short fixed expressions; the production chunk size means no test ever crosses a chunk boundary in a sweep with real statements.",
     TAPE + [LIT, CH, "src/XAD/BinaryExpr.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/ReusableRange.hpp"],
     [("statement/operation recording", "src/XAD/Literals.hpp, Tape::pushRhs/pushLhs"), ("reverse sweep", "Tape::computeAdjointsToImpl"), ("chunked storage", CH)],
     ["derivative()", "value()"], HOOK)
prop("C03", "Live variables never share a slot and the tape accounts for them exactly",
     "Two live registered variables of a tape never have the same slot, and the reported number of variables always equals the number of live registered ones. With slot re-use enabled slots of destroyed variables are recycled, so a slot number never reaches the peak number of simultaneously live variables, and the reported re-usable slots are exactly the unused ones below the highest slot in use.",
     ["histories", "configurations", "fault_sequences"], "all orders of registering, copying, moving and destroying variables, including out-of-order destruction, restarts, and memory running out while a slot is released (then slots may be lost but never shared)",
     "Tests cover a few hand-picked release orders; range splitting/merging depends on the whole allocation history.",
     TAPE + ["src/XAD/ReusableRange.hpp", LIT], [("slot registration", "Tape::registerVariable*"), ("range bookkeeping", "Tape::unregisterVariableReuseSlots")],
     ["getSlot()", "getNumVariables()", "getNumReusableSlots()", "getReusableSlotsString()"])
prop("C04", "Tape positions allow exact partial roll-back and re-recording",
     "Computing adjoints down to a saved position propagates exactly the operations recorded after it, resetting to the position removes exactly those operations, and continuing down to earlier positions or the start then gives the same totals as one unbroken sweep. Path-wise use - record from a position, sweep to it, reset to it, any number of times, then sweep the common part - accumulates exactly the sum of the single contributions, at any position relative to storage boundaries.",
     ["histories", "configurations"], "all placements of positions in recorded histories, nested positions, any number of re-recordings, and with checkpoint callbacks before or after a position",
     "The tests use positions in tapes with fewer than ten statements in one chunk.",
     TAPE + [CH], [("partial sweep", "Tape::computeAdjointsTo"), ("truncation", "Tape::resetTo, Tape::clearDerivativesAfter")],
     ["derivative()", "getPosition()"], HOOK)
prop("C05", "A restarted tape behaves like a new one",
     "After any history on a tape - including swept, truncated and abandoned recordings, aborted callbacks and failed allocations - starting a new recording (keeping the registered variables) or clearing the tape makes everything that follows give bit-for-bit the results of a tape that has just been created. Clearing derivatives makes all adjoints zero again while the recording stays usable for any number of further sweeps.",
     ["histories", "fault_sequences"], "all histories preceding newRecording / clearAll / clearDerivatives, including those that end in an exception",
     "Tests restart tapes only after short clean recordings.",
     TAPE, [("restart", "Tape::newRecording, clearAll, foldSubrecordings"), ("lazy clearing", "Tape::clearDerivatives, initDerivatives")],
     ["derivative()", "getNumVariables()", "getNumStatements()", "getNumOperations()"], HOOK)
prop("C06", "Checkpoint callbacks run once, in reverse order, and compose exactly",
     "During a sweep every callback recorded after the sweep's end position is invoked exactly once, in reverse order of insertion, when all operations after it - and none before it - have been propagated. If callbacks compute their inputs' adjoints, directly or with nested recordings (also repeated, or containing further callbacks), then all adjoints equal those of recording the same computation without checkpoints, whatever variables were released before the sweep.",
     ["histories", "programs"], "all placements of external, in-place, nested and recursively nested callbacks in recorded histories, all sweep end positions",
     "Tests use one callback pattern with a single live variable, so slots shared between callback variables and pending adjoints never occur.",
     TAPE + ["src/XAD/CheckpointCallback.hpp"], [("callback dispatch", "Tape::computeAdjointsTo"), ("nested recordings", "Tape::newNestedRecording, foldSubrecording, ScopedNestedRecording")],
     ["CheckpointCallback::computeAdjoint invocations", "derivative()", "getAndResetOutputAdjoint()"], HOOK)
prop("C07", "API misuse is reported by the documented exception and changes nothing",
     "Activating a second tape, computing adjoints before any derivative was set, addressing derivatives or slots out of range, taking callbacks from an empty stack, and accessing derivatives without an active tape each throw the documented exception type at any point of any history. Afterwards the tape, its variables and the active tape are exactly as before, and all later results are unaffected.",
     ["histories", "fault_sequences"], "every point in every history at which a misuse can be injected",
     "Tests trigger each exception once on a nearly empty tape and do not compare the state after it.",
     TAPE + ["src/XAD/Exceptions.hpp", LIT], [("argument checks", "Tape::derivative, incrementAdjoint, getAndResetOutputAdjoint, popCallback, setActive")],
     ["thrown exception type", "all tape observers", "derivative()"])
prop("C08", "Exceptions from callbacks propagate and the tape can be recovered",
     "If a checkpoint callback throws, at any point inside it including within nested recordings, the very same exception reaches the caller of the sweep, no further callback is invoked, and nothing crashes or leaks. After starting a new recording or clearing the tape all results are again correct, and the number of variables and their slots are consistent.",
     ["fault_sequences", "histories"], "every callback invocation and every step within it as the point of failure, repeated failures, all nesting depths",
     "No existing test lets a callback throw.",
     TAPE + ["src/XAD/CheckpointCallback.hpp"], [("exception transparency", "Tape::computeAdjointsTo"), ("unwinding of nested recordings", "ScopedNestedRecording, Tape::foldSubrecordings")],
     ["exception seen by caller", "derivative()", "getNumVariables()"])
prop("C09", "Running out of memory surfaces as bad_alloc and is recoverable",
     "If any memory allocation made by the library fails, the operation throws std::bad_alloc (or succeeds without the memory); the program is never terminated, no memory is accessed out of bounds, lost, or released twice. After starting a new recording or clearing the tape, all further computations give correct results.",
     ["fault_sequences", "histories"], "every allocation of the library in every history as the failing one, bursts of failures, all element types",
     "No existing test makes an allocation fail.",
     TAPE + [CH, LIT], [("allocation checks", "ChunkContainer::reserve, check_space"), ("release in destructors", "Tape::unregisterVariableReuseSlots")],
     ["exception type", "live allocations after destruction", "derivative() after recovery"], HOOK)
prop("C10", "At most one active tape per thread, and only it records",
     "A thread has at most one active tape per tape type: activation while another is active fails, deactivation only affects the tape it is called on, destroying the active tape leaves the thread without one, and tapes of other threads or other types are unaffected. Operations are recorded exclusively by the active tape, other tapes' recordings and adjoints stay untouched, and a tape may be handed from one thread to another between operations without changing any result.",
     ["histories", "schedules"], "all sequences of create, activate, deactivate, set, query, destroy on several tapes and threads, including migration between threads",
     "Tests check single calls in one fixed order.",
     TAPE, [("active tape", "Tape::setActive, activate, deactivate, deactivateAll, ~Tape")],
     ["getActive()", "isActive()", "derivative()", "getNumVariables()"])
prop("C11", "Moving a tape preserves the recording, adjoints and activity",
     "Moving a tape by construction or assignment, at any point between operations, transfers the recording, derivatives, registered variables, positions, owned callbacks and the active state; continuing on the new tape gives exactly the results of not having moved. The moved-from tape can be destroyed or assigned to, and what the assigned-to tape held before is released.",
     ["histories", "configurations"], "every point in every history at which a tape is moved, active or not, both slot policies",
     "Tests move a tape twice, right after a tiny recording, and never an active one.",
     TAPE + [CH], [("move operations", "Tape::Tape(Tape&&), operator=(Tape&&), finishMove"), ("container moves", CH)],
     ["derivative()", "getActive()", "getNumVariables()"], HOOK)
prop("C12", "Everything a tape owns is released exactly once",
     "Callback objects handed to a tape are destroyed exactly once when the tape is destroyed or overwritten, those that were popped or only inserted never are. All memory and all element objects of tapes and containers are released exactly once when they are destroyed, after any history including exceptions.",
     ["histories", "fault_sequences"], "all histories of pushing, popping, inserting callbacks, moving and destroying tapes, with failures injected",
     "Tests do not count destructions or allocations over histories.",
     TAPE + [CH], [("callback ownership", "Tape::pushCallback, popCallback, ~Tape, operator="), ("chunk release", "ChunkContainer::_free_memory, clear")],
     ["destructor invocations", "live allocations"], HOOK)
prop("C13", "Jacobian and Hessian drivers are exact and leave tapes as found",
     "For every function composed of supported operations, the Jacobian and Hessian drivers give the exact derivative matrix in every mode and interface (returned matrix or iterators), with an active tape, a given tape, or none. Wrongly sized outputs raise the documented error, an exception thrown by the function at any of its invocations or a failed allocation propagates unchanged, and in all cases the thread's active tape is the same as before and later computations on a restarted tape are correct.",
     ["programs", "fault_sequences", "histories"], "all functions over up to 5 inputs and 4 outputs from the operation set, every invocation as failure point, all prior tape states",
     "Tests differentiate five fixed functions and never let the function fail.",
     ["src/XAD/Jacobian.hpp", "src/XAD/Hessian.hpp"], [("drivers", "computeJacobian, computeHessian overloads")],
     ["returned matrix", "Tape::getActive()", "exception type"])
prop("C14", "Stream I/O of active types equals that of plain numbers under any stream fault",
     "Writing or reading active variables or expressions to or from a stream gives the same characters, value and stream state as doing the same with the plain number, for all formatting state and for streams that fail, throw, or end at any byte. It never records on the tape, and a variable's slot and adjoint are unaffected.",
     ["fault_sequences", "inputs"], "all byte positions at which the stream fails short, throws or ends, all formatting flags, all active types",
     "Tests write and read one well-formed number to a string stream.",
     [LIT], [("stream operators", "operator<<, operator>> in Literals.hpp")],
     ["bytes written", "rdstate()", "value()", "derivative()", "getNumStatements()"])
prop("C15", "Higher-order derivatives with nested active types are exact",
     "With a forward or adjoint type nested inside the adjoint type, every history of recording, lifetime, roll-back, checkpoint and restart operations gives adjoints whose own derivatives are the exact second (third) order derivatives, including where first-order adjoints are zero. The tapes of the different levels do not disturb each other and account for their variables separately.",
     ["histories", "programs", "configurations"], "all histories over the public API for FReal<T>, AReal<T> and two-level nestings as element type",
     "Tests evaluate second order derivatives of single expressions at a few generic points.",
     TAPE + [LIT, CH], [("sweep over active element types", "Tape::computeAdjointsToImpl"), ("non-trivial elements in containers", CH)],
     ["derivative(derivative())", "value(derivative())", "getNumVariables() of both tapes"], HOOK)
prop("C16", "The tape's chunked container behaves as a sequence, also when memory runs out",
     "Over every sequence of its operations, for any chunk size and element type, the chunked container holds the elements an ordinary sequence would hold, at unchanged addresses while it only grows. Every element is constructed and destroyed exactly once and every chunk released, and a failed allocation throws std::bad_alloc, loses nothing and leaves existing elements usable.",
     ["histories", "fault_sequences", "configurations"], "all operation sequences with sizes around chunk boundaries, all allocation failure points",
     "Tests cross one chunk boundary with push_back and append only.",
     [CH], [("chunk management", "ChunkContainer")], ["operator[]", "size()", "element constructor/destructor counts"])
prop("C17", "Results are reproducible bit for bit in every environment",
     "The same sequence of operations gives bit-identical values and adjoints in every run, no matter what earlier recordings the tape or process has executed, what the memory handed out by the allocator contains, how the tape's storage is chunked, or whether slots are re-used.",
     ["configurations", "histories"], "all histories, over allocator contents, chunk sizes, slot policies, assertion settings and tape pre-history",
     "Tests compare against expectations with tolerance in a single configuration.",
     TAPE + [CH, LIT], [("initialisation of derivatives and storage", "Tape::initDerivatives, ChunkContainer"), ("slot-independent sweep order", "Tape::computeAdjointsToImpl")],
     ["derivative()", "value()"], HOOK)
prop("C18", "Derivatives of the mathematical functions and operators are exact",
     "For every supported operator and mathematical function the value equals that of the plain function and the derivative the analytic one over its whole domain, in forward and adjoint mode.",
     ["inputs"], "all arguments of all functions", "Tests sample few points per function.",
     ["src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryMathFunctors.hpp"], [("functors", "UnaryMathFunctors.hpp, BinaryMathFunctors.hpp")], ["value()", "derivative()"])
prop("C19", "Forward mode computes exact directional derivatives",
     "Evaluating any expression with forward types gives the value and the exact directional derivative.",
     ["inputs", "programs"], "all expressions and inputs", "Tests sample few expressions.",
     [LIT, "src/XAD/UnaryExpr.hpp", "src/XAD/BinaryExpr.hpp"], [("FReal", LIT)], ["derivative()"])
prop("C20", "Complex arithmetic on active types matches std::complex",
     "Complex numbers of active types give the values and derivatives of the same computation on plain complex numbers.",
     ["inputs", "programs"], "all complex operations and arguments", "Tests sample few points.",
     ["src/XAD/Complex.hpp"], [("specialisations", "Complex.hpp")], ["value()", "derivative()"])
prop("C21", "Active types are drop-in for floating point types at compile time",
     "Code using comparisons, numeric limits, type traits, hashing, classification and mixed arithmetic compiles and behaves for active types as for the underlying floating-point type, and unsafe conversions and mixing of incompatible types do not compile.",
     ["programs", "inputs"], "all well-formed and ill-formed uses", "Tests have a finite list of snippets.",
     ["src/XAD/StdCompatibility.hpp", "src/XAD/Traits.hpp", "src/XAD/TypeTraits.hpp"], [("std specialisations", "StdCompatibility.hpp")], ["compilation", "values"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
