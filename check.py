#!/usr/bin/env python3
"""check.py <property id>: decides one property by deterministic simulation of /repo's working tree. See DESIGN.md."""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + "/tools")
import build as B
PID = sys.argv[1]; P = int(PID[1:]); TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1"))
W = 8
# number of simulated runs (all workers together) and wall-clock cap in seconds
QUICK = {1: 8000000, 2: 1200000, 3: 6400000, 4: 7200000, 5: 6000000, 6: 6000000, 7: 2200000, 8: 8800000, 9: 7200000, 10: 8000000, 11: 8000000, 12: 3000000, 13: 1600000, 26: 6000000}
RUNS = QUICK[P] if TIER == "quick" else QUICK[P] * 20; CAP = 180.0 if TIER == "quick" else 780.0
t0 = time.time()
known = []
for l in open(V + "/known-findings.txt"):
    m = re.match(r"known: property=(\S+) kind=(\S+) fn=(\S+) (.*)", l)
    if m and m[1] == PID: known.append((m[2], m[3], m[4]))
def evidence(cov, violations):
    os.makedirs(V + "/evidence", exist_ok=True); f = V + "/evidence/%s.json" % PID
    json.dump(dict(property=PID, tier=TIER, seed=SEED, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2), violations=violations, assumptions=[
        "memory is sequentially consistent at the granularity of the instrumented accesses, plus x86 store buffers (up to 4 delayed stores at a switch) in the three hooked variants; weaker orders are not simulated",
        "the four compiled variants (gcc -O0/-O2 and clang -O1 with access hooks, gcc -O2 assembly with a point before every instruction) stand for the shipped build",
        "sampling: seeded search, not enumeration"]), open(f + ".tmp", "w"), indent=1)
    os.replace(f + ".tmp", f)
try: D = B.build()
except Exception as e:
    print("check error: cannot build the simulator from /repo: %s" % e); evidence({"evaluations": 0, "distinct_nontrivial": 0, "rule": "build failed", "samples": [str(e)[-400:]]}, 0); sys.exit(2)
LIBS = ",".join("%s=%s/lib_%s.so" % (v, D, v) for v in B.VARIANTS); NS = D + "/nsim"
tmp = tempfile.mkdtemp(prefix="nsim.")
def run(args, limit=120):
    try: return subprocess.run([NS, args[0], "--libs", LIBS, "--guide", D + "/guide.txt"] + args[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(args, 124, "no answer within %d s" % limit)
def main():
    print("seed %d tier %s property %s build %s" % (SEED, TIER, PID, D)); sys.stdout.flush()
    common = ["--prop", str(P), "--seed", str(SEED), "--known", ",".join("%s:%s" % k[:2] for k in known)]
    # determinism: the same runs in two fresh processes, different worker counts, must give the same execution hashes
    det = [subprocess.Popen([NS, "run", "--libs", LIBS, "--guide", D + "/guide.txt"] + common + ["--start", str(a), "--stride", str(s), "--end", "48", "--out", "%s/d%d" % (tmp, j), "--time", "60"], cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for j, (a, s) in enumerate([(0, 1), (0, 2), (1, 2)])]
    stop = tmp + "/stop"; ps = []
    for w in range(W):
        ps.append(subprocess.Popen([NS, "run", "--libs", LIBS, "--guide", D + "/guide.txt"] + common + ["--start", str(w), "--stride", str(W), "--end", str(RUNS), "--time", str(CAP), "--stop", stop, "--out", "%s/w%d" % (tmp, w), "--cur", "%s/c%d" % (tmp, w)], cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    died = []
    hard = time.time() + CAP + 60; live = set(range(W))
    while live:
        for w in list(live):
            if ps[w].poll() is not None:
                live.discard(w)
                if ps[w].returncode != 0: died.append((w, array.array("Q", open("%s/c%d" % (tmp, w), "rb").read()[:8])[0])); open(stop, "w").write("x")
        if time.time() > hard:
            for w in live: ps[w].kill(); died.append((w, array.array("Q", open("%s/c%d" % (tmp, w), "rb").read()[:8])[0]))
            break
        time.sleep(0.05)
    for p in ps: p.wait()
    for p in det:
        try: p.wait(max(1, t0 + CAP + 90 - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
    R = [json.load(open("%s/w%d" % (tmp, w))) for w in range(W) if os.path.exists("%s/w%d" % (tmp, w))]
    d = [json.load(open("%s/d%d" % (tmp, j)))["hashes"] if os.path.exists("%s/d%d" % (tmp, j)) else None for j in range(3)]
    detok = None
    if all(x is not None for x in d):
        mix = [h for pair in zip(d[1], d[2]) for h in pair]; n = min(len(mix), len(d[0])); detok = mix[:n] == d[0][:n]
    sched, traces = set(), set()
    for w in range(W):
        for name, s in ((".sched", sched), (".traces", traces)):
            f = "%s/w%d%s" % (tmp, w, name)
            if os.path.exists(f): a = array.array("Q"); b = open(f, "rb").read(); a.frombytes(b[:len(b) // 8 * 8]); s.update(a)
    tot = lambda k: sum(r[k] for r in R)
    wall = max([r["seconds"] for r in R] + [0.001]); done = tot("done")
    acts = {k: {"configured": sum(r["acts"][k][0] for r in R), "fired": sum(r["acts"][k][1] for r in R)} for k in (R[0]["acts"] if R else {})}
    cov = dict(evaluations=done, distinct_nontrivial=len(traces),
        rule="one evaluation = one simulated run (scenario generated from (seed, property, index); focus intrinsic rotates through all of the property's intrinsics and all library variants); non-trivial = at least one scheduling/fault action fired or ambient condition was non-default (or, for C02, more than one call shared the process); distinct = different execution-trace hash (every access, switch, fault, result)",
        samples=[s for r in R for s in r["samples"][:1]][:3] or ["no clean sample in this run"],
        runs_and_seeds_per_hour=int(done / wall * 3600), search_seconds=round(wall, 2),
        simulated_steps=tot("points"), simulated_calls=tot("calls"), distinct_action_schedules=len(sched),
        distinct_measure="distinct_action_schedules: sequences of (action kind, intrinsic, access number, target) actually fired; distinct_nontrivial: hashes of full execution traces",
        intrinsics_called=max([r["fns"] for r in R] + [0]), runs_per_variant={v: sum(r["variants"].get(v, 0) for r in R) for v in B.VARIANTS},
        faults=dict(actions=acts, allocations_failed=tot("allocFails"), allocations=tot("allocs"), page_faults_served=tot("pageFaults"), calls_redone_after_fault=tot("retries"), crash_restarts=tot("restarts"),
            stderr_write_failures=tot("stderrFails"), stderr_writes=tot("stderrWrites"), fail_stop_ends=tot("aborts"), calls_in_nondefault_fp_mode=tot("fpNonDefault"), calls_on_16KiB_stack=tot("tinyCalls"),
            calls_inside_signal_handlers=tot("handlerCalls"), agent_bytes_written=tot("agentBytes"), thread_exits=tot("threadExits"), clock_reads=tot("clockReads"), blocked_waits=tot("blocked"), history_calls=tot("warmCalls"), burst_calls=tot("burstCalls"), threads_replaced=tot("respawns"), calls_before_initialisation=tot("earlyCalls"), initialisations_after_calls=tot("lateInits"), destructors_run=tot("exitDtors"), stores_delayed_in_store_buffer=tot("delayed")),
        oracle_checks=dict(solo_reference_executions=tot("solo"), mmu_checks=tot("mmuChecks"), tear_checks=tot("tearChecks")),
        simulated_time="the library reads no clock on this tree; time is counted in simulated accesses (simulated_steps)" if not tot("clockReads") else "clock reads: %d" % tot("clockReads"),
        determinism=dict(reexecuted_in_process=tot("detchecks"), differing=tot("nondet"), fresh_process_and_worker_count_check="identical" if detok else "not comparable" if detok is None else "DIFFERENT"),
        real_components=["every intrinsic of /repo/neon_sim.cpp, compiled from the working tree", "memory, stacks, FP unit, errno, page protection of the host CPU/OS", "libstdc++ code the library calls"],
        stub_components=["thread scheduler, signals, allocator, stdio/abort/exit, mutexes/once/guards, clocks, PRNG, process crash (simulated)"],
        external_symbols=json.load(open(D + "/externals.json")), known_findings=["%s in %s" % k[:2] for k in known], known_findings_hit=tot("knownhits"))
    for k in known: print("KNOWN-FINDING: property=%s %s in %s: %s" % (PID, k[0], k[1], k[2]))
    # ---- violations: gate each by minimisation and fresh-process replay
    cands = sorted([(f["index"], f["kind"]) for r in R for f in r["found"]] + [(i, "process-died") for w, i in died]); confirmed = None; notes = []
    for idx, kind in cands[:8]:
        raw, mn = "%s/raw.%d" % (tmp, idx), "%s/min.%d" % (tmp, idx); run(["gen"] + common + ["--index", str(idx), "--out", raw])
        for src in (mn, raw):
            if src == mn:
                m = run(["min", "--in", raw, "--out", mn, "--time", "60"] + common[4:])
                if m.returncode or not os.path.exists(mn): notes.append("index %d: %s" % (idx, m.stdout.strip()[-200:])); continue
            r1 = run(["replay", "--in", src, "--quiet", "1"]); r2 = run(["replay", "--in", src, "--quiet", "1"])
            if r1.returncode == r2.returncode == 1 and r1.stdout == r2.stdout: confirmed = (idx, src, r1.stdout); break
            notes.append("index %d: replay of %s not reproduced: %s | %s" % (idx, os.path.basename(src), r1.stdout.strip()[-200:], r2.stdout.strip()[-200:]))
        if confirmed: break
    cov["unconfirmed"] = notes
    evidence(cov, 1 if confirmed else 0)
    print("%s: %d runs, %d calls, %d simulated accesses, %d distinct traces in %.1f s; determinism %s, %d/%d re-executions differ" % (PID, done, tot("calls"), tot("points"), len(traces), time.time() - t0, cov["determinism"]["fresh_process_and_worker_count_check"], tot("nondet"), tot("detchecks")))
    for n in notes: print("note: " + n)
    if confirmed:
        os.makedirs(V + "/replays", exist_ok=True); out = V + "/replays/%s-%d-%d.replay" % (PID, SEED, confirmed[0]); shutil.copy(confirmed[1], out)
        print(confirmed[2].strip()); print("seed %d index %d; replay with: %s/replay.sh %s" % (SEED, confirmed[0], V, out)); print("VIOLATION property=%s replay=%s" % (PID, out)); return 1
    if not R or done == 0: print("check error: no run completed"); return 2
    return 0
try: rc = main()
finally: shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc)
