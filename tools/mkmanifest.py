#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "na.json")))
T = {
 "C01": "deterministic simulation: seeded thread schedules, happens-before race analysis, comparison with each calculation alone",
 "C02": "deterministic simulation: seeded schedules of readers of shared objects, race analysis, comparison with single-threaded values",
 "C03": "deterministic simulation: seeded schedules of first uses in fresh processes, banner counted in the captured stream",
 "C04": "deterministic simulation: seeded call histories with injected failures, comparison of every call with a fresh object",
 "C05": "deterministic simulation with allocation-failure injection and retry, simulated heap",
 "C06": "deterministic simulation with stream-failure injection, comparison with the undisturbed result",
 "C07": "deterministic simulation with fault injection, snapshot of the process environment around every call",
 "C08": "deterministic simulation: every run in two simulated environments (memory contents, clock, random numbers, locale), bitwise comparison",
 "C09": "deterministic simulation of the link peer with malformed requests, link and allocation failures; protocol oracle",
 "C10": "deterministic simulation of the link peer, message history compared with a reference of the printed text",
 "C11": "deterministic simulation of request histories with faults, values of the last request compared with the C++ interface",
 "C12": "deterministic simulation with corrupted parameters, step bound, comparison of healthy calculations with references",
 "C13": "deterministic simulation: seeded value histories against snapshots of every object",
 "C14": "deterministic simulation: seeded schedules with failures, deadlock, lock-leak and step-bound detection",
 "C15": "deterministic simulation with a simulated heap: repeated histories with faults, conservation of blocks",
}
NOTE = {
 "C01": "Sampled schedules (random and priority based) at every instrumented access of shared memory, lock and allocation; races are found by happens-before analysis independent of the order that happened to be taken.",
 "C02": "As C01, on objects shared between threads; objects are compared before and after.",
 "C03": "Every run is a fresh process, so each run has its own first use.",
 "C04": "Reference: the same call on new objects in a fresh process.",
 "C05": "Every operation is hit at a random allocation (once, several, all remaining) and then repeated with memory available.",
 "C06": "Failures of single writes, short writes, throwing buffers, failed state, missing buffer, exceptions switched on.",
 "C07": "Around every call in single-threaded runs; the floating-point mode in all runs.",
 "C08": "Stack and heap contents are filled with different patterns; clock, random sources, environment variables, process id and locale differ.",
 "C09": "The link is a model of the MathLink protocol with sticky errors; after a failed write the peer is gone.",
 "C10": "Reference: the text the same calculation prints through the C++ interface.",
 "C11": "Reference: the values of the C++ interface in a fresh process.",
 "C12": "The bound on work is counted in executed basic blocks, with a wide margin over the largest healthy call.",
 "C13": "Freed and dead storage is overwritten so that a dangling reference shows.",
 "C14": "The simulator owns all locks and waits; a run ends in a violation if no thread can run, a call exceeds its step bound or ends with a lock held.",
 "C15": "Heap blocks of the library are counted per round of the same history after everything was destroyed.",
}
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": T[p["id"]], "level": "exploration",
                 "level_note": NOTE[p["id"]] + " Seeded search over simulated runs of the real code, not exhaustive; a violation is reported only if it recurs with the same trace in fresh processes."}
                for p in props if p["id"] in T],
     "not_applicable": [{"property": a, "reason": b} for a, b in na],
     "notes": "No hooks in /repo: the seams are the compiler's instrumentation callbacks (-fsanitize=thread and trace-pc, with a runtime of our own) and symbol interposition. Replay: python3 check.py replay FILE."}
ids = set(p["id"] for p in props)
assert ids == set(T) | set(a for a, _ in na), ids ^ (set(T) | set(a for a, _ in na))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
