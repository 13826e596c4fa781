// nsim: command line of the simulator. See DESIGN.md.
#include "engine.h"
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <functional>
#include <algorithm>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void adjust(const Scenario& sc, RunResult& R)
{   // violations that must vanish when the fault class of the property is taken away
    if (R.v.empty()) return;
    if (sc.prop == 3 || sc.prop == 10 || sc.prop == 11 || sc.prop == 26) {
        Scenario c = sc;
        if (sc.prop == 10) { c.allocfail = 0; for (auto& t : c.tiny) t = 0; }
        if (sc.prop == 26) { c.early = 0; std::vector<Act> k; for (auto& a : c.acts) if (a.kind == A_SWITCH || a.kind == A_CLOCK) k.push_back(a); c.acts = k; }
        if (sc.prop == 11) for (auto& m : c.fpmode) m = 0x1f80;
        if (sc.prop == 3) { std::vector<Act> k; for (auto& a : c.acts) if (a.kind == A_SWITCH || a.kind == A_CLOCK) k.push_back(a); c.acts = k; }
        RunResult q = engine_run(c, false); std::vector<Violation> out;
        for (auto& v : R.v) { bool same = false; for (auto& w : q.v) same |= w.kind == v.kind && w.fn == v.fn; if (!same || v.kind == "fp-control") out.push_back(v); }
        R.v = out;
    }
    if (sc.prop == 13) {                                        // growth must go on, not stop at some bound
        Scenario c = sc; c.repeat = std::max(30000u, 2 * sc.repeat); RunResult q = engine_run(c, false); if (!q.v.empty() && q.v[0].detail.find("bytes held") != std::string::npos) { c.repeat = std::max(c.repeat, std::min(c.repeat * 10, 3000000u)); q = engine_run(c, false); } if (q.v.empty()) R.v.clear();
    }
}
static std::vector<std::string> g_known; static u64 g_knownhits;
static RunResult evaluate(const Scenario& sc, bool verbose = false) { RunResult r = engine_run(sc, verbose); adjust(sc, r);
    for (size_t i = 0; i < r.v.size();) { std::string k = r.v[i].kind + ":" + (r.v[i].fn >= 0 ? OPS[r.v[i].fn].name : ""); if (std::find(g_known.begin(), g_known.end(), k) != g_known.end()) { r.v.erase(r.v.begin() + i); g_knownhits++; } else i++; }
    return r; }

struct Res { int died; int n; char kind[24]; int op, fn; u64 hash; char detail[400]; };
static Res* g_shm;
static void fill(Res& q, const RunResult& r, const char* wantkind = 0, int wantfn = -2)
{
    q.n = (int)r.v.size(); q.hash = r.hash; if (r.v.empty()) return;
    const Violation* v = &r.v[0]; if (wantkind) for (auto& x : r.v) if (x.kind == wantkind && x.fn == wantfn) { v = &x; break; }
    snprintf(q.kind, sizeof q.kind, "%s", v->kind.c_str()); q.op = v->op; q.fn = v->fn; snprintf(q.detail, sizeof q.detail, "%s", v->detail.c_str());
}
static Res forked(const Scenario& sc, bool verbose, const char* wk = 0, int wf = -2)
{
    memset(g_shm, 0, sizeof *g_shm); fflush(stdout); pid_t p = fork();
    if (!p) { rlimit rl = {30, 30}; setrlimit(RLIMIT_CPU, &rl); RunResult r = evaluate(sc, verbose); fill(*g_shm, r, wk, wf); _exit(0); }
    int st = 0; waitpid(p, &st, 0); Res q = *g_shm; q.died = st != 0;
    if (q.died) { q.n = 1; strcpy(q.kind, "process-died"); q.op = -1; q.fn = -1; snprintf(q.detail, sizeof q.detail, "the run corrupts memory it does not own: simulated process ends with status %x", st); }
    return q;
}
static std::string arg(int argc, char** argv, const char* name, const char* def) { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1]; return def; }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += '?'; else o += c; } return o + "\""; }
static bool nontrivial(const Scenario& sc, const Stats& a, const Stats& b)
{
    for (int i = 0; i < A_NKINDS; i++) if (a.actsFired[i] != b.actsFired[i]) return true;
    if (a.allocFails != b.allocFails || a.stderrFails != b.stderrFails || a.pageFaults != b.pageFaults || a.fpNonDefault != b.fpNonDefault || a.tinyCalls != b.tinyCalls || a.aborts != b.aborts) return true;
    return sc.repeat > 1 || sc.early || (sc.prop == 2 && sc.ops.size() > 1) || sc.rdonly;
}
static void stats_json(std::string& o)
{
    char b[256];
#define F(n) snprintf(b, sizeof b, "\"" #n "\":%llu,", (unsigned long long)ST.n); o += b;
    F(runs) F(calls) F(points) F(switches) F(solo) F(allocs) F(allocFails) F(pageFaults) F(retries) F(restarts) F(stderrWrites) F(stderrFails) F(mmuChecks) F(tearChecks) F(aborts) F(blocked) F(agentBytes) F(fpNonDefault) F(tinyCalls) F(handlerCalls) F(clockReads) F(stepped) F(threadExits) F(warmCalls) F(burstCalls) F(respawns) F(earlyCalls) F(lateInits) F(exitDtors) F(delayed)
    o += "\"acts\":{"; for (int i = 0; i < A_NKINDS; i++) { snprintf(b, sizeof b, "%s\"%s\":[%llu,%llu]", i ? "," : "", ACTNAME[i], (unsigned long long)ST.acts[i], (unsigned long long)ST.actsFired[i]); o += b; }
    o += "}";
}
static int cmd_run(int argc, char** argv)
{
    int P = atoi(arg(argc, argv, "--prop", "1").c_str()); u64 seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
    u64 start = strtoull(arg(argc, argv, "--start", "0").c_str(), 0, 10), stride = strtoull(arg(argc, argv, "--stride", "1").c_str(), 0, 10), end = strtoull(arg(argc, argv, "--end", "1000").c_str(), 0, 10);
    double limit = atof(arg(argc, argv, "--time", "1e9").c_str()); std::string out = arg(argc, argv, "--out", "/dev/stdout");
    std::string cur = arg(argc, argv, "--cur", ""); u64* curp = 0; static u64 dummy; std::ofstream of;
    if (!cur.empty()) { FILE* f = fopen(cur.c_str(), "w+"); u64 z[2] = {0, 0}; fwrite(z, 1, 16, f); fflush(f); curp = (u64*)mmap(0, PAGE, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(f), 0); } else curp = &dummy;
    std::unordered_set<u64> sched, traces; double t0 = now(); u64 nontriv = 0, dets = 0, nondet = 0; std::vector<std::string> samples; std::vector<std::string> found; u64 done = 0; u64 i;
    bool sweep = arg(argc, argv, "--sweep", "0") == "1"; std::unordered_set<int> swept;   // sweep: first violation of every intrinsic (sensitivity measurements)
    std::string stop = arg(argc, argv, "--stop", ""); std::vector<u64> firsth; std::unordered_set<int> fns; std::map<std::string, u64> pervar;
    for (i = start; i < end; i += stride) {
        if ((done & 15) == 0 && (now() - t0 > limit || (!stop.empty() && (done & 255) == 0 && !access(stop.c_str(), F_OK)))) break;
        *curp = i; Scenario sc = gen_scenario(P, seed, i, 0); Stats before = ST; RunResult r = evaluate(sc); done++; pervar[sc.variant]++;
        for (auto& o : sc.ops) fns.insert(o.fn); if (firsth.size() < 64) firsth.push_back(r.hash);
        if (nontrivial(sc, before, ST)) { nontriv++; sched.insert(r.sched ^ mix64(sc.ops[0].fn + 7)); traces.insert(r.hash); if (samples.size() < 2 && r.v.empty() && done > 40) samples.push_back(scen_text(sc, "")); }
        if ((done & 127) == 5) { RunResult q = evaluate(sc); dets++; if (q.hash != r.hash) nondet++; }
        if (sweep) { for (auto& v : r.v) if (swept.insert(v.fn).second) found.push_back("{\"index\":" + std::to_string(i) + ",\"kind\":" + js(v.kind) + ",\"fn\":" + js(v.fn >= 0 ? OPS[v.fn].name : "") + "}"); }
        else if (!r.v.empty()) {
            RunResult q = evaluate(sc); bool same = !q.v.empty() && q.hash == r.hash;
            std::string j = "{\"index\":" + std::to_string(i) + ",\"kind\":" + js(r.v[0].kind) + ",\"fn\":" + js(r.v[0].fn >= 0 ? OPS[r.v[0].fn].name : "") + ",\"detail\":" + js(r.v[0].detail) + ",\"repeatable\":" + (same ? "true" : "false") + ",\"variant\":" + js(sc.variant) + "}";
            found.push_back(j); if (!stop.empty()) std::ofstream(stop) << "x"; if (found.size() >= 3 || !stop.empty()) { i += stride; break; }
        }
    }
    std::string o = "{"; stats_json(o); char b[512];
    snprintf(b, sizeof b, ",\"done\":%llu,\"next\":%llu,\"nontrivial\":%llu,\"sched\":%zu,\"traces\":%zu,\"detchecks\":%llu,\"nondet\":%llu,\"seconds\":%.3f,\"fns\":%zu,\"variants\":{", (unsigned long long)done, (unsigned long long)i, (unsigned long long)nontriv, sched.size(), traces.size(),
        (unsigned long long)dets, (unsigned long long)nondet, now() - t0, fns.size()); o += b;
    bool first = true; for (auto& v : pervar) { o += (first ? "" : ",") + js(v.first) + ":" + std::to_string(v.second); first = false; }
    o += "},\"samples\":["; for (size_t k = 0; k < samples.size(); k++) o += (k ? "," : "") + js(samples[k]);
    o += "],\"found\":["; for (size_t k = 0; k < found.size(); k++) o += (k ? "," : "") + found[k];
    o += "],\"knownhits\":" + std::to_string(g_knownhits) + ",\"hashes\":["; for (size_t k = 0; k < firsth.size(); k++) o += (k ? ",\"" : "\"") + std::to_string(firsth[k]) + "\"";
    o += "]}\n";
    std::ofstream(out) << o;
    if (out != "/dev/stdout") { for (int w = 0; w < 2; w++) { auto& set = w ? traces : sched; std::ofstream h(out + (w ? ".traces" : ".sched"), std::ios::binary); for (u64 x : set) h.write((char*)&x, 8); } }
    return 0;
}
// ------------------------------------------------------------------ minimisation: same kind of violation in the same intrinsic
static int cmd_min(int argc, char** argv)
{
    std::string err; Scenario sc; if (!scen_parse(slurp(arg(argc, argv, "--in", "")), sc, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
    Res base = forked(sc, false); if (!base.n) { printf("no violation\n"); return 3; }
    double t0 = now(), limit = atof(arg(argc, argv, "--time", "60").c_str()); int tries = 0;
    auto bad = [&](const Scenario& c) { if (now() - t0 > limit || c.ops.empty()) return false; tries++; Res q = forked(c, false, base.kind, base.fn); return q.n && !strcmp(q.kind, base.kind) && q.fn == base.fn; };
    auto tryset = [&](const std::function<void(Scenario&)>& f) { Scenario c = sc; f(c); if (bad(c)) { sc = c; return true; } return false; };
    for (int pass = 0; pass < 4; pass++) {
        size_t before = sc.ops.size() + sc.acts.size() + sc.repeat + sc.warm;
        // actions (ddmin), calls
        for (size_t n = sc.acts.size(); n >= 1; n /= 2) { for (size_t i = 0; i < sc.acts.size();) { Scenario c = sc; c.acts.erase(c.acts.begin() + i, c.acts.begin() + std::min(c.acts.size(), i + n)); if (c.acts.size() < sc.acts.size() && bad(c)) sc = c; else i += n; } if (n == 1) break; }
        for (size_t n = std::max<size_t>(1, sc.ops.size() / 2); n >= 1; n /= 2) {
            for (size_t i = 0; i < sc.ops.size();) {
                Scenario c = sc; for (size_t j = i; j < std::min(sc.ops.size(), i + n); j++) { int id = sc.ops[j].id; c.ops.erase(std::find_if(c.ops.begin(), c.ops.end(), [&](const Op& o) { return o.id == id; })); c.acts.erase(std::remove_if(c.acts.begin(), c.acts.end(), [&](const Act& a) { return a.op == id; }), c.acts.end()); }
                for (auto& o : c.ops) o.deps.erase(std::remove_if(o.deps.begin(), o.deps.end(), [&](int d) { for (auto& p : c.ops) if (p.id == d) return false; return true; }), o.deps.end());
                if (bad(c)) sc = c; else i += n;
            }
            if (n == 1) break;
        }
        while (sc.repeat > 1 && tryset([](Scenario& c) { c.repeat /= 2; })) {}
        if (sc.repeat > 1) for (int t = 0; t < 20 && sc.repeat > 1 && tryset([](Scenario& c) { c.repeat -= std::max(1u, c.repeat / 8); }); t++) {}
        while (sc.warm && tryset([](Scenario& c) { c.warm /= 2; })) {}
        if (sc.warm) for (int t = 0; t < 40 && sc.warm > 1 && tryset([](Scenario& c) { c.warm -= std::max(1u, c.warm / 8); }); t++) {}
        for (size_t i = 0; i < sc.ops.size(); i++) if (sc.ops[i].burst) { tryset([i](Scenario& c) { c.ops[i].burst = 0; }); while (sc.ops[i].burst && tryset([i](Scenario& c) { c.ops[i].burst /= 2; })) {} for (int t = 0; t < 40 && sc.ops[i].burst > 1 && tryset([i](Scenario& c) { c.ops[i].burst -= std::max(1u, c.ops[i].burst / 8); }); t++) {} if (sc.ops[i].bvary) tryset([i](Scenario& c) { c.ops[i].bvary = 0; }); }
        while (sc.early && (tryset([](Scenario& c) { c.early = 0; }) || tryset([](Scenario& c) { c.early--; }))) {}
        if (sc.newthreads) tryset([](Scenario& c) { c.newthreads = 0; });
        if (sc.vary) tryset([](Scenario& c) { c.vary = 0; });
        if (sc.allocfail) { tryset([](Scenario& c) { c.allocfail = 0; }) || tryset([](Scenario& c) { c.allocfail = 1; }); }
        if (sc.stderrmode) tryset([](Scenario& c) { c.stderrmode = 0; });
        if (sc.absent) tryset([](Scenario& c) { c.absent = 0; });
        if (sc.rdonly) tryset([](Scenario& c) { c.rdonly = 0; });
        for (int t = 0; t < MAXPROG; t++) { if (sc.fpmode[t] != 0x1f80) tryset([t](Scenario& c) { c.fpmode[t] = 0x1f80; }); if (sc.tiny[t]) tryset([t](Scenario& c) { c.tiny[t] = 0; }); }
        for (size_t i = 0; i < sc.acts.size(); i++) for (int t = 0; t < 12 && sc.acts[i].k > 0; t++) { u32 k = sc.acts[i].k, nk = t == 0 ? 0 : k / 2; if (!tryset([&](Scenario& c) { c.acts[i].k = nk; })) break; }
        for (size_t i = 0; i < sc.acts.size(); i++) if (sc.acts[i].kind == A_SWITCH && sc.acts[i].b) tryset([&](Scenario& c) { c.acts[i].b = 0; });
        // unused programs and threads
        for (int p = sc.nprogs - 1; p >= 0 && sc.nprogs > 1; p--) {
            bool used = false; for (auto& o : sc.ops) used |= o.prog == p; if (used || (p < sc.nthreads && sc.nthreads == 1)) continue;
            tryset([&](Scenario& c) { bool th = p < c.nthreads; for (auto& o : c.ops) if (o.prog > p) o.prog--; for (auto& a : c.acts) if ((a.kind == A_SWITCH || a.kind == A_INTR) && a.a > p) a.a--; for (int q = p; q < MAXPROG - 1; q++) { c.fpmode[q] = c.fpmode[q + 1]; c.tiny[q] = c.tiny[q + 1]; } c.nprogs--; if (th) { c.nthreads--; if (c.start > p) c.start--; if (c.start >= c.nthreads) c.start = 0; } });
        }
        if (sc.ops.size() + sc.acts.size() + sc.repeat + sc.warm == before) break;
    }
    // operands: zero 8-byte units
    for (size_t i = 0; i < sc.ops.size(); i++) {
        for (size_t o = 0; o + 8 <= sc.ops[i].args.size(); o += 8) {
            const OpDesc& d = OPS[sc.ops[i].fn]; size_t off = 0; bool isint = false; for (int q = 0; q < d.nargs; q++) { size_t n = (d.args[q].size + 7) / 8 * 8; if (o >= off && o < off + n && (d.args[q].k == T_INT || d.args[q].k == T_PTR)) isint = true; off += n; }
            u64 z = 0; if (isint || !memcmp(&sc.ops[i].args[o], &z, 8)) continue;
            tryset([&](Scenario& c) { memset(&c.ops[i].args[o], 0, 8); });
        }
        if (sc.ops[i].eq) tryset([&](Scenario& c) { c.ops[i].eq = 0; });
        if (sc.ops[i].so) tryset([&](Scenario& c) { c.ops[i].so = 0; });
        if (sc.ops[i].res) tryset([&](Scenario& c) { c.ops[i].res = 0; });
    }
    Res r = forked(sc, false, base.kind, base.fn); std::string fnn = r.fn >= 0 ? OPS[r.fn].name : "-";
    char b[900]; snprintf(b, sizeof b, "violation of C%02d: %s in %s: %s\nminimised with %d re-executions to %zu call(s), %zu action(s)", sc.prop, r.kind, fnn.c_str(), r.detail, tries, sc.ops.size(), sc.acts.size());
    char e[200]; snprintf(e, sizeof e, "\nexpect %s %s %016llx", r.kind, fnn.c_str(), (unsigned long long)r.hash);
    std::ofstream(arg(argc, argv, "--out", "/dev/stdout")) << scen_text(sc, std::string(b) + e); printf("minimised: %zu calls, %zu actions, repeat %u (%d re-executions)\n", sc.ops.size(), sc.acts.size(), sc.repeat, tries);
    return 0;
}
static int cmd_replay(int argc, char** argv, bool expect)
{
    std::string file = arg(argc, argv, "--in", ""), text = slurp(file), err; Scenario sc; if (!scen_parse(text, sc, err)) { fprintf(stderr, "%s: %s\n", file.c_str(), err.c_str()); return 2; }
    std::string ek, ef; u64 eh = 0; { std::istringstream in(text); std::string l; while (std::getline(in, l)) { char a[64], b[64]; unsigned long long h; if (sscanf(l.c_str(), "# expect %63s %63s %llx", a, b, &h) == 3) { ek = a; ef = b; eh = h; } } }
    bool quiet = arg(argc, argv, "--quiet", "0") == "1"; int wf = -1; for (int i = 0; i < NOPS; i++) if (ef == OPS[i].name) wf = i;
    Res r = forked(sc, !quiet && sc.repeat < 200, ek.empty() ? 0 : ek.c_str(), wf);
    if (!r.n) { printf("REPLAY: no violation\n"); return 0; }
    printf("REPLAY: violation of C%02d: %s in %s: %s\n", sc.prop, r.kind, r.fn >= 0 ? OPS[r.fn].name : "-", r.detail);
    if (!ek.empty()) { bool same = ek == r.kind && wf == r.fn && (r.died || eh == r.hash); printf("REPLAY: %s\n", same ? "exactly as recorded (same call, same kind, same execution hash)" : "differs from the recorded execution"); return same ? 1 : 4; }
    return 1;
}
int main(int argc, char** argv)
{
    if (argc < 2) { fprintf(stderr, "usage: nsim run|gen|one|min|replay --libs v=path,... \n"); return 2; }
    engine_init(); std::string libs = arg(argc, argv, "--libs", ""), x; std::istringstream ls(libs);
    while (std::getline(ls, x, ',')) { size_t e = x.find('='); std::string err; if (!lib_load(x.substr(0, e), x.substr(e + 1), err)) { fprintf(stderr, "%s\n", err.c_str()); return 3; } }
    g_shm = (Res*)mmap(0, PAGE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { std::istringstream ks(arg(argc, argv, "--known", "")); while (std::getline(ks, x, ',')) g_known.push_back(x); }
    { std::string gf = arg(argc, argv, "--guide", ""); guide_load(gf); }
    std::string c = argv[1]; int P = atoi(arg(argc, argv, "--prop", "1").c_str()); u64 seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), idx = strtoull(arg(argc, argv, "--index", "0").c_str(), 0, 10);
    if (c == "run") return cmd_run(argc, argv);
    if (c == "gen") { Scenario s = gen_scenario(P, seed, idx, 0); std::string t = scen_text(s, "seed " + std::to_string(seed) + " index " + std::to_string(idx)); std::ofstream(arg(argc, argv, "--out", "/dev/stdout")) << t; return 0; }
    if (c == "one") { Scenario s = gen_scenario(P, seed, idx, 0); Res r = forked(s, arg(argc, argv, "--quiet", "0") != "1"); printf("%s %s hash %016llx\n", r.n ? r.kind : "ok", r.detail, (unsigned long long)r.hash); return r.n ? 1 : 0; }
    if (c == "min") return cmd_min(argc, argv);
    if (c == "replay") return cmd_replay(argc, argv, true);
    return 2;
}
