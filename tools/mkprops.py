#!/usr/bin/env python3
# Writes properties.jsonl (kept as code so that the entries stay uniform).
import json
H, C = "neon_sim.h", "neon_sim.cpp"
P = []
def p(id, title, statement, over, qtext, why, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[C, H], state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["return value of the intrinsic"], hook_needed=hook)))

p("C01", "Concurrent callers never disturb each other's results",
  "When several threads call intrinsics at the same time on data they do not share, every call returns (and leaves in its own memory operand) exactly what the same call produces when it is the only call ever made in the process. This holds for every intrinsic, the same one included, and under every interleaving of the threads' memory accesses, including the very first calls made by the process. Callers need no locking of their own.",
  ["schedules", "programs"], "every set of threads, every sequence of calls in each, every interleaving at memory-access granularity",
  "All 46 tests are single-threaded; no test makes two calls overlap, so hidden shared scratch space, lazily built tables or caches would pass unseen.",
  [("every intrinsic works on by-value parameters and automatic locals only", C+": all functions")])
p("C02", "A result depends only on the arguments of the call",
  "Two calls of one intrinsic with bit-identical arguments (and bit-identical bytes in the memory operand they read) return bit-identical results and leave bit-identical memory. It makes no difference which calls were made before and how many, which thread makes the call, where operands lie in memory, what time it is, or what earlier code left behind in stack, heap or random-number state. In particular every lane of every result is determined by the arguments.",
  ["histories", "inputs"], "every call history before the call, every residue in stack and heap, every clock and generator state",
  "Each test makes one or two calls in a fresh stack frame and compares a handful of values; nothing varies the history or the memory residue, so stale caches, counters and uninitialised lanes are invisible.",
  [("each function builds its result lane by lane in a fresh automatic variable", C+": all functions")])
p("C03", "Calls survive interruption, reentry and abandonment",
  "If a call is interrupted at any instant by a signal handler that itself calls intrinsics, the interrupted one included, the handler's calls and the interrupted call all give their ordinary results. If a call is instead abandoned at any instant (the handler jumps out of it, or its thread dies inside it), every later call in any thread still completes with its ordinary result and the caller's floating-point control state is as before the abandoned call.",
  ["crash_points", "schedules", "programs"], "every interruption point, every handler program, every point of abandonment, every continuation",
  "No test interrupts or abandons a call.",
  [("no locks, no in-flight global state", C+": all functions")])
p("C04", "A stalled or dead caller never blocks another call",
  "Every call with valid arguments completes within a bounded number of its own steps, however long other threads are suspended inside calls and even if they died there. No call waits for another thread, another call, or for time to pass.",
  ["schedules", "fault_sequences"], "every schedule, every set of threads stalled or killed at every point inside calls",
  "Tests are single-threaded and never suspend a caller.",
  [("straight-line loops with constant trip counts, no synchronisation", C+": all functions")])
p("C05", "A store writes exactly its destination bytes",
  "A store intrinsic writes every byte of its documented destination and writes no other byte of memory, not even back to the value that byte had. So updates that other threads make to adjacent bytes while the store runs are never lost, and a destination next to unmapped or read-only memory never faults. This holds for every store intrinsic, every valid lane, every alignment and position in a page.",
  ["schedules", "inputs", "fault_sequences"], "every store intrinsic, operand, lane and placement; every interleaving with writers of the adjacent bytes; every protection of the adjacent pages",
  "Only vst1q_f32 and vst4q_lane_f32 are tested, single-threaded; a store that rewrites its neighbours with the value it has just read passes any sequential test.",
  [("element-wise assignment through the caller's pointer with constant bounds", C+": vst1*..vst4*")],
  observe=["memory around the destination after, and during, the call"])
p("C06", "A load touches exactly its source bytes",
  "A load intrinsic reads no byte outside its documented source operand and writes no memory of the caller's at all. So it never faults because memory next to the operand is unmapped or the operand is read-only, a page of the operand that is populated only on access is served correctly, and changes other threads make to adjacent bytes during the call never alter its result. This holds for every load intrinsic, every valid lane, every alignment and position in a page.",
  ["schedules", "inputs", "fault_sequences"], "every load intrinsic, operand, lane and placement; every interleaving with writers of adjacent bytes; every page-fault pattern",
  "Only vld1_u8, vld1q_f32 and vld1q_dup_f32 are called by tests, with operands in the middle of larger stack arrays.",
  [("element-wise reads through the caller's pointer with constant bounds", C+": vld1*..vld4*")],
  observe=["result of the load", "page faults raised"])
p("C07", "A store cut short leaves only old or final bytes and can be redone",
  "At every instant while a store intrinsic runs, each destination byte holds either the value it had before the call or the value it has after the call. So a crash in the middle of stores, in one or several threads, leaves in durable memory nothing but a mix of old and final bytes and leaves all other memory alone. Executing the interrupted store again, after a restart or after a serviced memory fault, leaves exactly the memory an uninterrupted store would have left.",
  ["crash_points", "fault_sequences", "schedules"], "every crash point inside every store, every set of concurrent in-flight stores, every page fault on the destination, every restart",
  "No test observes memory before a store has returned, and none interrupts one.",
  [("each destination element is assigned once, with its final value", C+": vst1*..vst4*")],
  observe=["destination memory at each instant of the call"])
p("C08", "Data handed over through memory arrives element-exact",
  "When a store intrinsic returns, its whole effect is in memory with each element at its documented position (2-, 3- and 4-vector forms interleave, lane forms store the selected lane). Any thread that loads from there later, after a proper hand-over, gets every element bit-exact in its documented lane (2-, 3- and 4-vector forms de-interleave, dup forms replicate, lane forms leave the other lanes as supplied). This holds for every combination of load and store forms on the same buffer, in place or not, and under every schedule of the threads.",
  ["histories", "schedules", "inputs"], "every history of loads and stores by any number of threads over shared buffers with hand-over between them",
  "Of 116 load/store intrinsics the tests call five, once each, and never pass data from one thread to another.",
  [("interleaving index arithmetic N*i+j", C+": vld2*..vld4*, vst2*..vst4*"), ("lane selection", C+": vld*_lane_*, vst4q_lane_f32")],
  observe=["loaded vectors", "memory after each store"])
p("C09", "Bad lane and shift arguments are fail-stop, good ones never are",
  "An intrinsic that validates its lane index, extract position or shift count, given a value outside the architectural range (an extract position equal to the lane count may be tolerated), writes a diagnostic to standard error and ends the process by abort: it never returns a result and never touches the caller's memory first. It ends the process that way even when writing to standard error fails or is interrupted, and whichever calls other threads are in the middle of. A call whose arguments are within the architectural range never prints, throws, traps or ends the process.",
  ["inputs", "fault_sequences", "schedules"], "every validated intrinsic, every out-of-range value, every failure of the standard-error stream, every schedule; every in-range call of every intrinsic",
  "No test passes an out-of-range argument (it would end the test process) and none makes standard error fail.",
  [("range check, fprintf(stderr), abort", C+": vld2/3/4_lane_u8, vgetq_lane_f32, vext*, vshr*_n, vshrn_n*, vqshrun_n*, vqrshrun_n_s16")],
  observe=["termination of the process", "bytes written to standard error", "caller memory"])
p("C10", "No call fails for lack of heap or stack",
  "Every call with valid arguments completes with its ordinary result when any or all heap allocations in the process fail, and on the smallest stack a thread may have (16 KiB). No call throws.",
  ["fault_sequences", "inputs"], "every pattern of allocation failures, every intrinsic, minimal stacks",
  "Tests run with a working allocator and an 8 MiB stack.",
  [("results are automatic variables of fixed size", C+": all functions")],
  observe=["return value", "exceptions leaving the call"])
p("C11", "Integer and data-movement results ignore the floating-point mode",
  "An intrinsic whose lanes are all integers, or that only moves, combines or reinterprets lanes, returns bit-identical results under every rounding mode and flush-to-zero / denormals-are-zero setting of the calling thread, and never raises a floating-point trap when the thread has traps enabled. Float comparisons, minima and maxima, float-to-integer conversions and the reciprocal estimate return bit-identical results under every rounding mode. Threads with different modes may interleave freely.",
  ["configurations", "schedules", "inputs"], "every floating-point mode of each thread, every change of mode between calls, every interleaving of threads in different modes",
  "Tests run only in the default round-to-nearest mode with traps masked.",
  [("integer lane arithmetic in integer types", C+": all integer intrinsics"), ("integer bit manipulation of the float", C+": FPRecipEstimate")])
p("C12", "A completed call has no side effects",
  "A call with valid arguments changes nothing observable besides its return value and, for stores, its destination: after it the thread's errno and floating-point control mode, the process's signal dispositions and masks, locale, environment, files and C random-number sequence are as before. It writes nothing to standard output or standard error. This holds whatever other threads do meanwhile and whichever calls came before.",
  ["histories", "schedules", "inputs"], "every valid call of every intrinsic, every ambient state before it, every history and interleaving",
  "Tests look at return values only.",
  [("no calls into the C library on the valid path", C+": all functions")],
  observe=["errno, control registers, streams and library calls around each call"])
p("C13", "Nothing the library holds grows with the number of calls",
  "However many calls are made, in however many threads, and however many of them are abandoned midway, the memory and other resources the library holds stay bounded: repeating a program of calls does not increase what is held.",
  ["histories", "crash_points"], "every call history, repeated any number of times, including abandoned calls",
  "Tests make one or two calls each and do not look at the allocator.",
  [("automatic storage only", C+": all functions")],
  observe=["outstanding allocations, locks and descriptors after repeated programs"])

p("C26", "Calls work at every stage of the process's life",
  "A call made from another object's static constructor before the library's own initialisers have run, from an exit handler or destructor after the library's and the thread's own static and thread-local objects have been destroyed, by a thread that is still running while the process exits, or in a child created by fork while other threads were in the middle of calls, completes with its ordinary result. So does every call made after such a moment.",
  ["histories", "crash_points", "schedules"], "every position of library initialisation, exit handlers, thread end and fork in every history and interleaving of calls",
  "Tests call intrinsics from main only, after all initialisers and before any destructor, in one process.",
  [("no static or thread-local object with a constructor or destructor, no initialisation order", C+": all functions")],
  observe=["return value of the intrinsic", "memory operand of a store"])

NA = "Only a handful of hand-picked operands are tested; the claim is about all operand values."
def na(id, title, statement, where):
    p(id, title, statement, ["inputs"], "all operand values", NA, [("lane loops", C+": "+where)])
na("C14", "Modular add, subtract, multiply and multiply-accumulate match NEON",
   "For all operands, each lane of the non-saturating integer add, subtract, multiply, multiply-accumulate and multiply-subtract intrinsics, of equal width or widening, equals the NEON result: exact in the result width, modulo 2^width where it overflows.", "vadd*, vsub*, vmul*, vmla*, vmls*, vaddl*, vaddw*, vsubl*, vsubw*, vmull*")
na("C15", "Saturating arithmetic clamps exactly at the type limits",
   "For all operands, each lane of the saturating intrinsics equals the infinitely precise result clamped to the range of the result type.", "vqadd*, vqsub*, vqdmull_s16, vqmovn*, vqmovun*, vqshr*n*")
na("C16", "Narrowing, high-half, halving and rounding forms match NEON",
   "For all operands, narrowing forms keep the documented bits of the double-width intermediate, with rounding where the name has r, halving forms compute the exact half without overflow, and the _high forms keep the low half they are given.", "vaddhn*, vsubhn*, vrsubhn*, vhsub*, vmovn*, vrshrn*, *_high_*")
na("C17", "Shifts match NEON for every legal count",
   "For all operands and every legal shift count, shift, shift-narrow, shift-and-accumulate and widening shift intrinsics return the NEON result.", "vshr*, vshl*, vshrn*, vsra*, vshll*")
na("C18", "Comparisons give all-ones or all-zero lanes and selects are bitwise",
   "For all operands, NaN included, a comparison lane is all ones if the relation holds and zero otherwise; select takes each result bit from the operand chosen by that mask bit; logical operations act on each bit.", "vcgtq_u8, vcltq_f32, vbslq*, vand*, vorr*, veor*, vmvn*")
na("C19", "Minimum, maximum and pairwise reductions match NEON",
   "For all operands, including NaN and signed zero for floats, minimum, maximum, pairwise minimum/maximum and pairwise-add-long lanes equal the NEON result.", "vmaxq*, vminq*, vpmax*, vpmin*, vpaddl*")
na("C20", "Permutations and table lookups move every lane to its NEON place",
   "For all operands, reverse, transpose, zip, unzip and extract intrinsics place every input element exactly where NEON does, and table lookups return the indexed byte or 0 when the index is out of range.", "vrev*, vtrn*, vzip*, vuzp*, vext*, vtbl*, vqtbl1_u8")
na("C21", "Reciprocal estimate and step match the architecture bit for bit",
   "For all operands, including zero, infinity, NaN and denormals, the reciprocal estimate and step intrinsics return the architectural value.", "vrecpeq_f32, vrecpsq_f32, FPRecipEstimate")
na("C22", "Conversions saturate and round as NEON does",
   "For all operands, float-to-integer conversions round as their name says, saturate out-of-range values and turn NaN into 0; integer-to-float conversions round to nearest.", "vcvtq*, vcvtnq_s32_f32")
na("C23", "Float lane arithmetic is IEEE single or double per lane",
   "For all operands, float add, subtract, multiply, multiply-accumulate and divide return, per lane, the IEEE-754 result in the lane's own precision.", "vaddq_f32, vsub*_f*, vmul*_f*, vmlaq*_f32, vdiv*")
na("C24", "Get, set, combine, dup, move and reinterpret preserve every bit",
   "For all operands, lane extraction, half extraction, combination, duplication, lengthening moves and reinterpretation preserve the bits of every element.", "vget*, vcombine*, vdup*, vmov*, vreinterpret*")
na("C25", "No valid call executes undefined behaviour",
   "For all valid operands, no intrinsic performs an operation that C++ leaves undefined (signed overflow, out-of-bounds lane access, over-wide or negative shifts, out-of-range float conversion), so every conforming compiler and optimisation level gives the same results.", "all functions")
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
