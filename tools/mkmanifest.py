#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults against solo reference executions"
NOTE = {
"C01": "thread switches at any instrumented access; result and memory operand compared with solo runs of the same call in fresh library state",
"C02": "call history, thread, placement, clock, PRNG and stack/heap residue varied; results compared with solo runs under two different residues",
"C03": "signal handlers at any access, nested, and abandonment by jump or thread death; values and FP control compared with solo runs",
"C04": "threads stalled or killed at any access; every other call must finish in bounded own steps; blocked waits reported",
"C05": "store footprint judged by hooked writes, page protection and concurrent writers next to the destination",
"C06": "load footprint judged by hooked reads, page protection (unmapped, read-only, lazily served) and concurrent writers next to the source",
"C07": "crash or page fault at any access of a store, then restart/redo; durable bytes compared with old/final values",
"C08": "store then hand-over then load in any thread against the element layout model of each form",
"C09": "out-of-range and in-range immediates with stderr failing/interrupted and other threads inside calls",
"C10": "allocation failures at any index or all, and 16 KiB stacks; compared with control run without failure",
"C11": "all rounding/FTZ/DAZ/trap modes per thread, switched by interleaving; compared with default-mode solo run",
"C12": "process observables (errno, FP control, signals, locale, environ, files, rand, stdio) compared before and after",
"C13": "live heap, handles, TLS, stack growth over repeated programs, with abandonment and thread exits, confirmed with 30000 repetitions",
"C26": "the library's initialisers, exit handlers, static and thread-local destructors, and fork (all other threads vanish mid-call) are simulator actions placed anywhere in the history; results compared with solo runs"}
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NOTE:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, technique=TECH, level="exploration",
            level_note=NOTE[i] + ". Sampled, not exhaustive; sequentially consistent memory plus x86 store buffers; trusts the simulator's stand-ins for libc (see DESIGN.md)."))
    else:
        na.append(dict(property=i, reason="A statement about the value a pure function returns for its operands: no schedule, clock, I/O, fault or history enters it, so simulation would only be random input testing against a re-implementation. Its dependence on history, threads, faults and FP mode is claimed separately (C01, C02, C11)." if i != "C25" else
            "Undefined behaviour on operand values is independent of schedule, time, I/O and faults; deciding it needs a sanitizer or a proof over operands, not a simulated schedule."))
json.dump(dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: seams are made at link time (renamed libc symbols) and by compiler/assembly instrumentation in /verif. Each failure leaves a replay file, run with ./replay.sh FILE."), open(V + "/MANIFEST.json", "w"), indent=1)
