// Deterministic simulator for neon_sim: data model and engine interface.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64;

// ------------------------------------------------------------------ API table (generated)
enum TyKind : u8 { T_VOID, T_VEC, T_SCA, T_PTR, T_INT };
struct Ty { u8 k; char b; u8 bits, lanes, n; u8 size; };       // size in the flat argument buffer (ptr: 8, int: 4)
enum MemDir : u8 { M_NONE, M_LD, M_ST };
enum MemForm : u8 { F_FULL, F_LANE, F_DUP };
typedef void (*Thunk)(void* fn, void* ret, const u8* args);
struct OpDesc {
    const char *name, *sym; Thunk thunk; int nargs; Ty args[5]; Ty ret;
    u8 dir, mn, mlanes, es, form; u16 fp;                       // memory form; fp = footprint in bytes
    int imm, lo, hi; u8 validated; int tol;                     // immediate argument index (-1: none) and legal range
    u8 fpclass; u16 argbytes; int stem;                         // stem: family id (first '_' stripped name)
};
extern const OpDesc OPS[]; extern const int NOPS;
extern const int NEON_TYPE_CHECK;

// ------------------------------------------------------------------ PRNG
static inline u64 mix64(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
struct Rng {
    u64 s; explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    u32 below(u32 n) { return n ? (u32)((next() >> 11) % n) : 0; }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

// ------------------------------------------------------------------ scenario
enum { MAXPROG = 20 };
enum ActKind : u8 { A_SWITCH, A_INTR, A_ABANDON, A_KILL, A_STALL, A_CRASH, A_AGENT, A_CLOCK, A_EXIT, A_FORK, A_TEXIT, A_NKINDS };
extern const char* ACTNAME[];
struct Act { int op; u32 k; u8 kind; int a, b; u64 c; };        // before the k-th point of call `op` (0: before the call)
struct Op {
    int id, prog, fn; std::vector<u8> args; int reg, off; u32 res; u8 so; u8 invalid; u32 pre; u32 burst = 0; u8 bvary = 0; u8 eq = 0;   // burst: executions (with other operands if bvary) before this one, without faults of their own; eq: destination bytes holding their final value already (1: all, 2: some)
    std::vector<int> deps;                                      // hand-over: waits for these calls to have completed
};
enum StderrMode { SE_OK, SE_FAIL, SE_EINTR, SE_SHORT, SE_EPIPE };
enum FaultServ { FS_RESUME, FS_RETRY };
struct Scenario {
    int prop; std::string variant; u64 seed;
    int nthreads, nprogs;                                       // programs [nthreads,nprogs) are signal-handler programs
    u32 fpmode[MAXPROG]; u8 tiny[MAXPROG];
    u32 heapfill, allocfail;                                    // allocfail: bit i set -> i-th allocation of a call fails; 0xffffffff: all
    int stderrmode; u32 absent;                                 // absent: bitmap of arena pages populated on demand
    int faultserv; u32 rdonly;                                  // rdonly: bitmap of read-only arena pages
    u32 early = 0;                                              // that many calls of program 0 come before the library's own initialisers
    u32 repeat; u32 warm = 0; u8 newthreads, vary; u64 clock0; u32 arena_seed; int start; u32 order;
    std::vector<Op> ops; std::vector<Act> acts;
};
std::string scen_text(const Scenario&, const std::string& note);
bool scen_parse(const std::string& text, Scenario&, std::string& err);

// ------------------------------------------------------------------ results
enum Outcome : u8 { O_NONE, O_OK, O_ABORT, O_EXC, O_FAULT, O_TRAP, O_HANG, O_EXIT, O_ABANDON, O_KILLED, O_CRASHED, O_SMASH, O_RETRY };
extern const char* OUTNAME[];
struct Violation { std::string kind; int op; int fn; std::string detail; };
struct Stats {
    u64 runs, calls, points, switches, solo, acts[A_NKINDS], actsFired[A_NKINDS], allocs, allocFails, pageFaults, retries, restarts,
        stderrWrites, stderrFails, mmuChecks, tearChecks, aborts, blocked, agentBytes, fpNonDefault, tinyCalls, handlerCalls, clockReads, stepped, threadExits, warmCalls, burstCalls, respawns, earlyCalls, lateInits, exitDtors, delayed;
};
struct RunResult { std::vector<Violation> v; u64 hash; u64 sched; u64 points; };

struct Lib { std::string variant, path; void* h; std::vector<void*> fn; u64 base, lo, hi, tlo, thi;  // image range, text range
    struct Seg { u8* p; size_t n; std::vector<u8> img, pre; }; std::vector<Seg> segs;
    size_t tlsmod, tlssize; u8* tls; std::vector<u8> tlsimg, maintls;                   // a new thread's; the main thread's after initialisation
    std::vector<void (*)()> init, fini; struct Dtor { void (*f)(void*); void* p; }; std::vector<Dtor> bootdtors;
    size_t bootheap; std::vector<u8> heapimg; bool step; };
extern std::vector<Lib> LIBS;
extern Stats ST;
bool lib_load(const std::string& variant, const std::string& path, std::string& err);
void engine_init();
RunResult engine_run(const Scenario&, bool verbose);
std::vector<u32> engine_history(int lib, const Op& op, u32 n);
std::vector<std::pair<u32, u32>> engine_collide(int lib, const std::vector<Op>& ops);   // calls of which the second's result is disturbed by the first
u32 engine_points(int lib, const Op&, int prop);                // points of the call when run alone (profile)
int lib_index(const std::string& variant);

// footprint model (model.cpp): what a load/store must do
void model_load(const OpDesc&, const u8* src, const std::vector<u8>& args, u8* ret);
void model_store(const OpDesc&, u8* dst, const std::vector<u8>& args);

// arena geometry
enum { NREG = 8, REGPAGES = 2, PAGE = 4096, REGBYTES = REGPAGES * PAGE };
// work.cpp
struct Guide { std::vector<u32> flags; std::vector<std::vector<u64>> consts; };
extern Guide GUIDE;
enum { GF_STATE = 1, GF_TLS = 2, GF_EXT = 4, GF_ATOMIC = 8, GF_FPCTL = 16, GF_FLOAT = 32, GF_FRAME = 64, GF_PAGE = 128 };
void guide_load(const std::string& file);
Scenario gen_scenario(int prop, u64 seed, u64 index, int lib);
