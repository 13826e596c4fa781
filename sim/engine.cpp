// Deterministic simulation engine: simulated threads, memory, heap, streams, clock; scheduling and fault actions.
#include "engine.h"
#include <sys/uio.h>
#include <errno.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <cxxabi.h>
#include <iostream>
#include <mutex>
#include <new>
#include <algorithm>
#include <set>

const char* ACTNAME[] = {"switch", "interrupt", "abandon", "kill", "stall", "crash", "agent", "clock", "exit", "fork", "thread-end"};
const char* OUTNAME[] = {"none", "ok", "abort", "exception", "memory-fault", "trap", "hang", "exit", "abandoned", "killed", "crashed", "stack-smash", "retry"};
std::vector<Lib> LIBS; Stats ST;

// ------------------------------------------------------------------ address space
static const u64 ARENA = 0x5000ffffe000ull;                 // the middle of region 0 is a 4 GiB boundary (hence 64 KiB, 2 MiB, ...)
 static const u64 REGSTRIDE = (REGPAGES + 2) * PAGE; static const u64 ARENA_SZ = NREG * REGSTRIDE;
static const u64 STK = 0x510000000000ull; static const u64 STKSTRIDE = 1 << 20, STKSIZE = 256 << 10; static const u64 TINYSIZE = 16 << 10;
enum { NCO = MAXPROG + 1, SOLO = MAXPROG };
static const u64 STK_SZ = 2 * NCO * STKSTRIDE;
static const u64 HEAP = 0x520000000000ull; static const u64 HEAP_SZ = 64 << 20;
static inline u8* regp(int r) { return (u8*)(ARENA + r * REGSTRIDE + PAGE); }

// ------------------------------------------------------------------ state
enum CoState { C_FREE, C_RUN, C_BLOCK, C_DEPS, C_STALL, C_DEAD, C_DONE };
struct Frame {
    Frame* prev; const Op* op; const OpDesc* d; void* jb[2]; u32 k, next; size_t ai; struct OpRt* rt; u32 allocs, diag, diagtry, nt; u64 fp; u32 fplen;
    bool store, load, started, burst; u32 mx0, mxcur; u64 wr; int level; u8 oldb[64], newb[64], ret[64]; bool holdsret; struct { u64 a, v; } seen[2]; u32 run, runmax;
};
struct OpRt { std::vector<Act> acts; std::vector<char> fired; bool skip = false, done = false; std::vector<u8> ret, mem, det; int out = 0; u32 execs = 0, run = 0; };
struct Co {
    void* sp; int idx, prog; CoState st; size_t pos; u32 rep; Frame* frame; int err; void* cxa[2]; void* once[2]; std::vector<u8> tls; u8 fpctl[8];
    std::vector<std::pair<void (*)(void*), void*>> tdtor; bool (*ready)(Co*); void* waitp; u32 slice, gen; struct SB { u64 a; u32 n; u8 old[16], nw[16]; } sb[8]; u32 nsb; bool inlib; std::map<unsigned, void*> keys;
};
struct LockSt { int owner = -1; int count = 0; int readers = 0; u32 waiters = 0, signals = 0; };
static struct Sim {
    bool active; Frame* frame; Co* cur; u32 tear, chk; bool tso, poll; std::vector<std::pair<u64, u32>>* wl; u64 hash, sched, libbase, libsz; u64 points; // hot
    const Scenario* sc; Lib* lib; bool solo, verbose, ended, crash; int endout; const Op* endop; int want; void* mainsp;
    Co co[NCO]; std::vector<OpRt> rt; std::map<int, int> id2op; std::vector<std::vector<int>> prog; std::vector<Violation> v;
    u8 shadow[NREG * REGBYTES]; std::map<void*, LockSt> locks; u64 clock; u64 rnd; u64 heapbump; u64 live, liveb; int heapowner; u32 absent, rdonly; bool protdirty;
    std::vector<u32> freel[260]; int handles; u64 simsteps; const char* phase; bool model; int busy[MAXPROG]; int busylv[MAXPROG]; std::vector<std::pair<size_t, std::vector<u8>>> late; u64 cov; int soloout; u32 solok; u64 runserial; std::string outbuf; int sechits, sefail;
    std::vector<u64> livemarks, livebytes; std::vector<std::vector<u32>> livefnmarks; u32 livefn[600]; u32 stepk; u64 garbage; std::vector<Lib::Dtor> dtors; bool inited, finied; int forks; int nested; bool process_dead; void* maincxa[2]; u32 lastretry;
} S;
static bool g_warm;

extern "C" void co_switch(void** save, void* to);
extern "C" int call_op(void** jb, Thunk t, void* f, void* ret, const u8* args);
extern "C" void jump_op(void** jb, int code) __attribute__((noreturn));
asm(R"(
.text
.globl co_switch
.type co_switch,@function
co_switch:
 push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
 sub $8,%rsp
 stmxcsr (%rsp)
 fnstcw 4(%rsp)
 mov %rsp,(%rdi)
 mov %rsi,%rsp
 ldmxcsr (%rsp)
 fldcw 4(%rsp)
 add $8,%rsp
 pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
 ret
.globl call_op
.type call_op,@function
call_op:
 push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15
 sub $8,%rsp
 mov %rsp,(%rdi)
 mov %rsi,%rdi
 mov %rdx,%rsi
 mov %rcx,%rdx
 mov %r8,%rcx
 call thunk_catch
1:
 add $8,%rsp
 pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx
 ret
.globl jump_op
.type jump_op,@function
jump_op:
 cld
 mov (%rdi),%rsp
 mov %esi,%eax
 jmp 1b
.globl co_tramp
.type co_tramp,@function
co_tramp:
 mov %r12,%rdi
 call co_main
 ud2
.section .note.GNU-stack,"",@progbits
.text
)");
extern "C" void co_tramp();
static inline u32 getmx() { u32 m; asm volatile("stmxcsr %0" : "=m"(m)); return m; }
static inline void setmx(u32 m) { asm volatile("ldmxcsr %0" : : "m"(m)); }
static inline u16 getcw() { u16 m; asm volatile("fnstcw %0" : "=m"(m)); return m; }

static void logf_(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void logf_(const char* fmt, ...)
{
    if (!S.verbose) return;
    char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n'; ssize_t r = ::write(1, b, n); (void)r;
}
#define LOG(...) do { if (S.verbose) logf_(__VA_ARGS__); } while (0)
static inline void mixh(u64 x) { S.hash = (S.hash ^ x) * 0x9E3779B97F4A7C15ull; S.hash ^= S.hash >> 29; }

static void viol(const char* kind, const Frame* f, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
// what counts against which property
static bool counts(int prop, const char* k, const Frame* f)
{
    auto is = [&](const char* list) { std::string l = std::string(" ") + list + " "; return l.find(std::string(" ") + k + " ") != std::string::npos; };
    switch (prop) {
    case 1: return is("mismatch bad-end no-progress deadlock blocked");
    case 2: return is("mismatch bad-end no-progress");
    case 3: return is("mismatch bad-end no-progress deadlock blocked fp-control");
    case 4: return is("no-progress deadlock blocked waits");
    case 5: return is("oob-write lost-or-stray not-written bad-end");
    case 6: return is("oob-read load-writes lost-or-stray disturbed bad-end");
    case 7: return is("torn lost-or-stray redo");
    case 8: return is("mismatch wrong-store load-writes unfenced");
    case 9: return is("not-rejected wrong-end no-diagnostic touched-memory bad-end output") || (is("no-progress deadlock blocked") && f && f->op->invalid);
    case 10: return is("mismatch bad-end");
    case 11: return is("mismatch bad-end");
    case 12: return is("errno fp-control output side-effect");
    case 13: return is("growth");
    case 26: return is("mismatch bad-end no-progress deadlock blocked");
    }
    return true;
}
static void viol(const char* kind, const Frame* f, const char* fmt, ...)
{
    if (S.solo || !S.sc || !counts(S.sc->prop, kind, f)) return;
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    Violation v; v.kind = kind; v.op = f ? f->op->id : -1; v.fn = f ? f->op->fn : -1; v.detail = b;
    LOG("  !! %s%s%s: %s", kind, f ? " in " : "", f ? f->d->name : "", b);
    if (S.v.size() < 20) S.v.push_back(v);
}

// ------------------------------------------------------------------ library image
static void heap_reset()
{
    S.heapbump = S.lib && S.inited ? S.lib->bootheap : 0; S.live = S.liveb = 0; memset(S.livefn, 0, sizeof S.livefn); S.heapowner = -1;
    for (auto& f : S.freel) f.clear();
    if (S.heapbump) memcpy((void*)HEAP, S.lib->heapimg.data(), S.lib->bootheap);
}
static void files_reset();
static void image_restore(bool inited = true)
{
    S.inited = inited; S.finied = false; S.forks = 0; if (inited) S.dtors = S.lib->bootdtors; else S.dtors.clear();
    for (auto& s : S.lib->segs) memcpy(s.p, inited ? s.img.data() : s.pre.data(), s.n);
    if (S.lib->tlssize) memcpy(S.lib->tls, S.lib->tlsimg.data(), S.lib->tlssize);
    heap_reset(); S.locks.clear(); std::cerr.clear(); std::cout.clear(); std::clog.clear(); if (!S.solo) files_reset();
}

// ------------------------------------------------------------------ coroutines
static void co_load(Co* c)
{
    void** g = (void**)abi::__cxa_get_globals(); g[0] = c->cxa[0]; g[1] = c->cxa[1]; errno = c->err;
    if (S.lib->tlssize) memcpy(S.lib->tls, c->tls.data(), S.lib->tlssize);
    std::__once_callable = c->once[0]; std::__once_call = (void (*)())c->once[1];
}
static void co_save(Co* c)
{
    void** g = (void**)abi::__cxa_get_globals(); c->cxa[0] = g[0]; c->cxa[1] = g[1]; c->err = errno;
    if (S.lib->tlssize) memcpy(c->tls.data(), S.lib->tls, S.lib->tlssize);
    c->once[0] = std::__once_callable; c->once[1] = (void*)std::__once_call; g[0] = g[1] = 0;
}
extern "C" void co_main(Co* c);
// a thread's stack also holds its thread-local storage (as in glibc); a page at least must remain
static u64 tlsneed() { return std::min<u64>((S.lib->tlssize + 63) / 64 * 64, TINYSIZE - 4096); }
static void co_make(int i, int prog, bool tiny, bool fresh = false)
{
    Co* c = &S.co[i]; c->idx = i; c->prog = prog; c->st = C_RUN; c->frame = 0; c->err = 0; c->cxa[0] = c->cxa[1] = 0; c->once[0] = c->once[1] = 0; c->slice = 0; c->inlib = false; c->keys.clear(); c->tdtor.clear(); c->nsb = 0;
    if (S.lib->tlssize) c->tls = !fresh && S.inited && (i == 0 || i == SOLO) ? S.lib->maintls : S.lib->tlsimg;   // program 0 runs in the main thread
    u64 top = tiny ? STK + (NCO + i) * STKSTRIDE + STKSTRIDE / 2 + TINYSIZE - tlsneed() : STK + i * STKSTRIDE + STKSTRIDE / 2 + STKSIZE;
    u64* sp = (u64*)(top - 64);                               // 16-aligned
    *--sp = (u64)co_tramp;                                     // after ret rsp is 16-aligned, as before a call
    *--sp = 0; *--sp = 0; *--sp = (u64)c; *--sp = 0; *--sp = 0; *--sp = 0;   // rbp rbx r12 r13 r14 r15
    u32* f = (u32*)--sp; f[0] = 0x1f80; f[1] = 0x37f;
    c->sp = sp;
}
static void yield_main() { Co* c = S.cur; bool a = S.active; Frame* f = S.frame; S.active = false; co_save(c); co_switch(&c->sp, S.mainsp); co_load(c); S.active = a; S.frame = f; }
static void enter(Co* c) { S.cur = c; c->slice = 0; co_load(c); co_switch(&S.mainsp, c->sp); }

// ------------------------------------------------------------------ points
static void slow_point(Frame* f);
static void end_process(int out, Frame* f) __attribute__((noreturn));
static void op_exit(Frame* f, int code) __attribute__((noreturn));
static void op_exit(Frame* f, int code) { S.active = false; jump_op(f->jb, code); }

static void tear_check(Frame* f)
{
    const u8* p = (const u8*)f->fp; ST.tearChecks++;
    for (u32 i = 0; i < f->fplen; i++)
        if (S.absent && (S.absent >> (f->op->reg * REGPAGES + (f->op->off + i) / PAGE) & 1)) continue;   // page not there yet: unchanged
        else if (p[i] != f->oldb[i] && p[i] != f->newb[i]) {
            bool a = S.active; S.active = false;
            viol("torn", f, "at point %u destination byte %u holds %02x, neither its old value %02x nor its final value %02x", f->k, i, p[i], f->oldb[i], f->newb[i]);
            S.active = a; f->oldb[i] = p[i]; return;
        }
}
static void mmu(Frame* f, u64 a, size_t n, int w)
{
    ST.mmuChecks++;
    if (S.chk & 8) { if (f->op->invalid) { bool act = S.active; S.active = false; viol("touched-memory", f, "%s its memory operand although the argument is out of range", w ? "writes" : "reads"); S.active = act; } return; }
    bool in = f->fplen && a >= f->fp && a + n <= f->fp + f->fplen;
    if (in && !(w && f->load)) return;
    bool act = S.active; S.active = false;
    i64 rel = (i64)(a - f->fp);
    if (w && f->load) { if (S.chk & 4) viol("load-writes", f, "writes %zu byte(s) of the caller's memory at operand%+lld", n, (long long)rel); }
    else if (w) { if (S.chk & 1) viol("oob-write", f, "writes %zu byte(s) at destination%+lld, operand size %u", n, (long long)rel, f->fplen); }
    else if ((S.chk & 2) && f->load) viol("oob-read", f, "reads %zu byte(s) at source%+lld, operand size %u", n, (long long)rel, f->fplen);
    S.active = act;
}
// store buffers: the youngest plain stores of a running thread may not have reached memory yet when another one reads it (x86: in order,
// drained by locked instructions, fences, and whenever the thread leaves the library)
static void sb_push(u64 a, size_t n)
{
    Co* c = S.cur; if (S.solo || !c || !S.active) return;
    if (n > 16 || !(a - ARENA < ARENA_SZ || a - S.libbase < S.libsz || a - HEAP < HEAP_SZ)) { if (n > 16) c->nsb = 0; return; }
    if (c->nsb == 8) { memmove(c->sb, c->sb + 1, 7 * sizeof c->sb[0]); c->nsb = 7; }
    Co::SB& b = c->sb[c->nsb++]; b.a = a; b.n = (u32)n; memcpy(b.old, (void*)a, n);
}
static inline void sb_drain() { if (S.tso && S.cur) S.cur->nsb = 0; }
static u32 sb_hide(Co* c, u32 want)
{
    u32 k = std::min(want, c->nsb);
    for (u32 i = 0; i < k; i++) { Co::SB& b = c->sb[c->nsb - 1 - i]; memcpy(b.nw, (void*)b.a, b.n); memcpy((void*)b.a, b.old, b.n); ST.delayed++; }
    return k;
}
static void sb_show(Co* c, u32 k) { for (u32 i = k; i; i--) { Co::SB& b = c->sb[c->nsb - i]; memcpy((void*)b.a, b.nw, b.n); } c->nsb = 0; }
// C04: how often in a row a call looks at the same one or two shared words and finds them unchanged
static void poll(Frame* f, u64 a, size_t n)
{
    u64 v = 0; memcpy(&v, (void*)a, std::min<size_t>(n, 8));
    for (auto& s : f->seen) if (s.a == a) { if (s.v == v) { if (++f->run > f->runmax) f->runmax = f->run; } else { s.v = v; f->run = 0; } return; }
    f->seen[1] = f->seen[0]; f->seen[0].a = a; f->seen[0].v = v; f->run = 0;
}
static inline void hook(const void* p, size_t n, int w)
{
    if (!S.active) return;
    Frame* f = S.frame; f->k++; S.points++;
    u64 a = (u64)p, rel;
    if (a - ARENA < ARENA_SZ) { rel = (a - ARENA) | 1ull << 60; if (S.chk) mmu(f, a, n, w); if (w && a - f->fp < 64) f->wr |= (n >= 64 ? ~0ull : (1ull << n) - 1) << (a - f->fp); }
    else if (a - STK < STK_SZ) rel = 2ull << 60;
    else if (a - S.libbase < S.libsz) { rel = (a - S.libbase) | 3ull << 60; if (S.poll) poll(f, a, n); }
    else if (a - HEAP < HEAP_SZ) { rel = (a - HEAP) | 4ull << 60; if (S.poll) poll(f, a, n); }
    else rel = 5ull << 60;
    mixh(rel + w + (n << 48));
    if (w && S.wl && rel >> 60 > 2 && (rel >> 60 < 5 || a - (u64)S.lib->tls < S.lib->tlssize) && S.wl->size() < 400) S.wl->push_back({a, (u32)n});
    if (S.tear && f->store) tear_check(f);
    if (f->k >= f->next) slow_point(f);
    if (w && S.tso) sb_push(a, n);
}
static inline void hook0() { hook(0, 0, 0); }

static bool others_runnable()
{
    for (int i = 0; i < NCO; i++) if (&S.co[i] != S.cur && S.co[i].st == C_RUN) return true;
    for (int i = 0; i < NCO; i++) if (&S.co[i] != S.cur && (S.co[i].st == C_BLOCK || S.co[i].st == C_DEPS) && S.co[i].ready(&S.co[i])) return true;
    return false;
}
static bool others_inside(Co* c) { for (auto& o : S.co) if (&o != c && o.st != C_FREE && o.st != C_DONE && o.frame && o.frame->started) return true; return false; }
static const u32 HANG_POINTS = 400000, SLICE = 20000;
static void set_next(Frame* f)
{
    u32 n = HANG_POINTS;
    if (f->rt && !S.solo && !f->burst) { while (f->ai < f->rt->acts.size() && f->rt->fired[f->ai]) f->ai++; if (f->ai < f->rt->acts.size()) n = std::min(n, f->rt->acts[f->ai].k); }
    if (!S.solo && f->k + 1 <= HANG_POINTS) { u32 s = f->k / SLICE * SLICE + SLICE; n = std::min(n, s); }
    f->next = n;
}
static void run_handler(int prog);
static bool deps_ready(Co* c);
static void run_init(); static void run_exit(Co*, int); static void thread_dtors(Co*);
static void agent_write(const Act& a)
{
    int r = a.a; if (r < 0 || r >= NREG) return;
    u64 c = a.c; int off = a.b, len = 1 + (int)(c & 15); u8* base = regp(r);
    for (int i = 0; i < len; i++) {
        int o = off + i; if (o < 0 || o >= REGBYTES) continue;
        u64 ad = (u64)base + o; bool busy = false;
        for (auto& co : S.co) if (co.st != C_FREE) for (Frame* f = co.frame; f; f = f->prev) if (f->fplen && ad >= f->fp && ad < f->fp + f->fplen) busy = true;
        if (busy || (S.rdonly >> (r * REGPAGES + o / PAGE) & 1) || (S.absent >> (r * REGPAGES + o / PAGE) & 1)) continue;
        u8 v = (u8)mix64(c + i); base[o] = v; S.shadow[r * REGBYTES + o] = v; ST.agentBytes++;
    }
}
static void do_act(Frame* f, const Act& a)
{
    Co* c = S.cur; ST.actsFired[a.kind]++; mixh(0xACull << 56 | (u64)a.kind << 40 | f->k);
    S.sched = (S.sched ^ ((u64)a.kind << 56 | (u64)f->op->fn << 32 | f->k << 4 | (a.a & 15))) * 0xD6E8FEB86659FD93ull; S.sched ^= S.sched >> 31;
    switch (a.kind) {
    case A_SWITCH: LOG("  [t%d %s#%d @%u] preempted -> t%d", c->idx, f->d->name, f->op->id, f->k, a.a); S.want = a.a; ST.switches++;
        { u32 k = a.b > 0 ? sb_hide(c, (u32)a.b) : 0; if (k) { LOG("  [t%d] its last %u store(s) are still in its store buffer", c->idx, k); mixh(0x50BF + k); S.sched += k; } yield_main(); if (k) sb_show(c, k); c->nsb = 0; }
        break;
    case A_INTR: LOG("  [t%d %s#%d @%u] signal: handler program %d", c->idx, f->d->name, f->op->id, f->k, a.a); run_handler(a.a); LOG("  [t%d %s#%d] handler returned", c->idx, f->d->name, f->op->id); break;
    case A_ABANDON: {
        if (!f->started) break;
        Frame* t = f; if (a.a) while (t->prev && t->prev->started) t = t->prev;
        LOG("  [t%d %s#%d @%u] abandoned (jump out of call #%d)", c->idx, f->d->name, f->op->id, f->k, t->op->id);
        c->frame = t; S.frame = t; setmx(t->mxcur); op_exit(t, O_ABANDON); }
    case A_KILL: LOG("  [t%d %s#%d @%u] thread killed", c->idx, f->d->name, f->op->id, f->k); c->st = C_DEAD; yield_main(); abort();
    case A_STALL: LOG("  [t%d %s#%d @%u] thread stalled", c->idx, f->d->name, f->op->id, f->k); c->st = C_STALL; yield_main(); c->nsb = 0; LOG("  [t%d %s#%d] resumes", c->idx, f->d->name, f->op->id); break;
    case A_CRASH: LOG("  [t%d %s#%d @%u] process crash", c->idx, f->d->name, f->op->id, f->k); S.crash = true; yield_main(); abort();
    case A_AGENT: LOG("  [t%d %s#%d @%u] agent writes %d byte(s) at region %d+%d", c->idx, f->d->name, f->op->id, f->k, 1 + (int)(a.c & 15), a.a, a.b); agent_write(a); break;
    case A_EXIT: LOG("  [t%d before %s#%d] the process runs its exit handlers (%d)", c->idx, f->d->name, f->op->id, a.a); run_exit(c, a.a); break;
    case A_TEXIT: LOG("  [t%d before %s#%d] the thread's thread-local objects are destroyed", c->idx, f->d->name, f->op->id); { Frame* k = f; thread_dtors(c); c->frame = k; S.frame = k; } break;
    case A_FORK: LOG("  [t%d %s#%d @%u] fork: the child has this thread only", c->idx, f->d->name, f->op->id, f->k); S.forks++;
        for (int i = 0; i < S.sc->nthreads; i++) if (i != c->idx && S.co[i].st != C_FREE && S.co[i].st != C_DONE) { S.co[i].st = C_DEAD; if (S.heapowner == i) S.heapowner = -1; for (int p = 0; p < MAXPROG; p++) if (S.busy[p] == i) S.busy[p] = -1; }
        for (void* m : {(void*)stderr, (void*)stdout}) { auto l = S.locks.find(m); if (l != S.locks.end() && l->second.owner >= 0 && l->second.owner != c->idx) S.locks.erase(l); }   // the C library makes its own locks usable in the child
        break;
    case A_CLOCK: S.clock += a.c; LOG("  [t%d %s#%d @%u] clock jumps by %llu ns", c->idx, f->d->name, f->op->id, f->k, (unsigned long long)a.c); break;
    }
}
static void slow_point(Frame* f)
{
    u32 mx = getmx(); setmx(0x1f80); S.active = false; Co* c = S.cur; int err = errno; f->mxcur = mx;
    if (f->k >= HANG_POINTS) { setmx(mx); LOG("  [t%d %s#%d] no progress after %u accesses", c->idx, f->d->name, f->op->id, f->k); op_exit(f, O_HANG); }
    if (!S.solo) {
        if (f->k % SLICE == 0 && others_runnable()) { c->slice = 0; S.want = -1; yield_main(); c->nsb = 0; }
        auto& ac = f->rt->acts;
        while (!f->burst && f->ai < ac.size() && (f->rt->fired[f->ai] || ac[f->ai].k <= f->k)) {
            if (f->rt->fired[f->ai]) { f->ai++; continue; }
            f->rt->fired[f->ai] = 1; const Act& a = ac[f->ai]; f->ai++; do_act(f, a);
        }
    }
    set_next(f); errno = err; c->frame = f; S.frame = f; S.active = true; setmx(mx);
}

// ------------------------------------------------------------------ TSan instrumentation entry points (no TSan runtime)
#define H extern "C" __attribute__((visibility("default")))
#define RW(n) H void __tsan_read##n(void* p) { hook(p, n, 0); } H void __tsan_write##n(void* p) { hook(p, n, 1); } \
    H void __tsan_unaligned_read##n(void* p) { hook(p, n, 0); } H void __tsan_unaligned_write##n(void* p) { hook(p, n, 1); } \
    H void __tsan_volatile_read##n(void* p) { hook(p, n, 0); } H void __tsan_volatile_write##n(void* p) { hook(p, n, 1); } \
    H void __tsan_unaligned_volatile_read##n(void* p) { hook(p, n, 0); } H void __tsan_unaligned_volatile_write##n(void* p) { hook(p, n, 1); } \
    H void __tsan_read_write##n(void* p) { hook(p, n, 0); hook(p, n, 1); } H void __tsan_unaligned_read_write##n(void* p) { hook(p, n, 0); hook(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
H void __tsan_init() {}
H u64 __tsan_func_entry(void*) { hook0(); S.garbage = mix64(S.garbage); return S.garbage; }
H u64 __tsan_func_exit() { hook0(); S.garbage = mix64(S.garbage); return S.garbage; }   // leaves residue in rax, as any callee may
H void __tsan_read_range(void* p, size_t n) { hook(p, n, 0); }
H void __tsan_write_range(void* p, size_t n) { hook(p, n, 1); }
H void __tsan_vptr_update(void** p, void*) { hook(p, 8, 1); }
H void __tsan_vptr_read(void** p) { hook(p, 8, 0); }
H void __tsan_atomic_thread_fence(int o) { hook0(); if (o == 5) sb_drain(); }
H void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
    H T __tsan_atomic##n##_load(const volatile T* p, int) { hook((void*)p, n / 8, 0); return *p; } \
    H void __tsan_atomic##n##_store(volatile T* p, T v, int o) { hook((void*)p, n / 8, 1); if (o == 5) sb_drain(); *p = v; } \
    H T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; *p = v; return o; } \
    H T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; *p = o + v; return o; } \
    H T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; *p = o - v; return o; } \
    H T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; *p = o & v; return o; } \
    H T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; *p = o | v; return o; } \
    H T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; *p = o ^ v; return o; } \
    H T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; *p = ~(o & v); return o; } \
    H int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    H int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    H T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { hook((void*)p, n / 8, 1); sb_drain(); T o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)

static void* sim_copy(void* d, const void* s, size_t n, bool move)
{
    if (!S.active) return memmove(d, s, n);
    bool back = move && (u8*)d > (const u8*)s && (u8*)d < (const u8*)s + n;
    for (size_t i = 0; i < n; i += 8) {                        // 8-byte chunks; every chunk a point before its read and its write
        size_t m = std::min<size_t>(8, n - i), o = back ? n - i - m : i; u8 t[8];
        hook((const u8*)s + o, m, 0); memcpy(t, (const u8*)s + o, m); hook((u8*)d + o, m, 1); memcpy((u8*)d + o, t, m);
    }
    return d;
}
H void* __tsan_memcpy(void* d, const void* s, size_t n) { return sim_copy(d, s, n, false); }
H void* __tsan_memmove(void* d, const void* s, size_t n) { return sim_copy(d, s, n, true); }
H void* __tsan_memset(void* d, int c, size_t n) { for (size_t i = 0; i < n; i += 8) { size_t m = std::min<size_t>(8, n - i); hook((u8*)d + i, m, 1); memset((u8*)d + i, c, m); } return d; }
// names the library's undefined symbols are renamed to (tools/build.py, SEAMS)
H void* nsim_memcpy(void* d, const void* s, size_t n) { return sim_copy(d, s, n, false); }
H void* nsim_memmove(void* d, const void* s, size_t n) { return sim_copy(d, s, n, true); }
H void* nsim_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
H void* nsim_memcpy_chk(void* d, const void* s, size_t n, size_t) { return sim_copy(d, s, n, false); }
H void* nsim_memmove_chk(void* d, const void* s, size_t n, size_t) { return sim_copy(d, s, n, true); }
H void* nsim_memset_chk(void* d, int c, size_t n, size_t) { return __tsan_memset(d, c, n); }
H int nsim_memcmp(const void* a, const void* b, size_t n) { hook(a, n, 0); hook(b, n, 0); return memcmp(a, b, n); }

struct Out { bool a; Frame* f; Out() : a(S.active), f(S.frame) { S.active = false; sb_drain(); } ~Out() { S.frame = f; S.active = a; } };   // leave the library

// ------------------------------------------------------------------ blocking
static bool lock_free(Co* c) { LockSt& l = S.locks[c->waitp]; return l.owner < 0 && l.readers == 0; }
static bool heap_free_(Co*) { return S.heapowner < 0; }
static void block_until(bool (*ready)(Co*), void* p)
{
    Co* c = S.cur; c->waitp = p;
    while (!ready(c)) { ST.blocked++; c->st = C_BLOCK; c->ready = ready; c->inlib = true; S.want = -1; mixh(0xB10C); LOG("  [t%d] blocks inside the library", c->idx); yield_main(); c->st = C_RUN; c->inlib = false; }
}
static void wait_violation(const char* what)
{   // C04: "no call waits": every wait primitive that would have to wait while uncontended is fine; sleeping never is
    if (S.sc && S.sc->prop == 4 && S.frame) viol("waits", S.frame, "call waits for time to pass (%s)", what);
}
static int me() { return S.solo ? 99 : S.cur->idx; }
static bool recursive(void* m) { return m == (void*)stderr || m == (void*)stdout || (((pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
H int nsim_mutex_lock(void* m)
{
    if (!S.active) return 0;
    hook(m, 8, 1); Out o; LockSt& l = S.locks[m];
    if (l.owner == me()) { if (recursive(m)) { l.count++; return 0; } op_exit(o.f, O_HANG); }
    if (!S.solo) block_until(lock_free, m);
    LockSt& l2 = S.locks[m]; l2.owner = me(); return 0;
}
H int nsim_mutex_trylock(void* m) { if (!S.active) return 0; hook(m, 8, 1); Out o; LockSt& l = S.locks[m]; if (l.owner == me() && recursive(m)) { l.count++; return 0; } if (l.owner >= 0 || l.readers) return EBUSY; l.owner = S.solo ? 99 : S.cur->idx; return 0; }
H int nsim_mutex_unlock(void* m) { if (!S.active) return 0; hook(m, 8, 1); Out o; LockSt& l = S.locks[m]; if (l.count > 0) { l.count--; return 0; } l.owner = -1; return 0; }
H int nsim_mutex_init(void* m, void* a) { Out o; S.locks.erase(m); pthread_mutex_init((pthread_mutex_t*)m, (pthread_mutexattr_t*)a); return 0; }
H int nsim_mutex_destroy(void* m) { Out o; S.locks.erase(m); return 0; }
static bool rd_free(Co* c) { return S.locks[c->waitp].owner < 0; }
H int nsim_rwlock_rdlock(void* m) { if (!S.active) return 0; hook(m, 8, 1); Out o; if (S.locks[m].owner >= 0 && S.locks[m].owner == (S.solo ? 99 : S.cur->idx)) op_exit(o.f, O_HANG); if (!S.solo) block_until(rd_free, m); S.locks[m].readers++; return 0; }
H int nsim_rwlock_unlock(void* m) { if (!S.active) return 0; hook(m, 8, 1); Out o; LockSt& l = S.locks[m]; if (l.readers) l.readers--; else l.owner = -1; return 0; }
H int nsim_spin_lock(void* m) { return nsim_mutex_lock(m); }
H int nsim_pthread_once(void* ctl, void (*fn)())
{
    if (!S.active) { if (!*(int*)ctl) { *(int*)ctl = 2; fn(); } return 0; }
    hook(ctl, 4, 0);
    { Out o; if (*(int*)ctl == 2) return 0; LockSt& l = S.locks[ctl]; if (l.owner >= 0 && l.owner == (S.solo ? 99 : S.cur->idx)) op_exit(o.f, O_HANG);
      if (!S.solo) block_until(lock_free, ctl); if (*(int*)ctl == 2) return 0; S.locks[ctl].owner = S.solo ? 99 : S.cur->idx; }
    fn(); hook(ctl, 4, 1); *(int*)ctl = 2; { Out o; S.locks[ctl].owner = -1; } return 0;
}
H int nsim_guard_acquire(u8* g)
{
    if (!S.active) return *g == 0;
    hook(g, 1, 0);
    Out o; if (*g) return 0; LockSt& l = S.locks[g]; if (l.owner >= 0 && l.owner == (S.solo ? 99 : S.cur->idx)) op_exit(o.f, O_HANG);
    if (!S.solo) block_until(lock_free, g);
    if (*g) return 0;
    S.locks[g].owner = S.solo ? 99 : S.cur->idx; return 1;
}
H void nsim_guard_release(u8* g) { hook(g, 1, 1); *g = 1; if (S.active) { Out o; S.locks[g].owner = -1; } }
H void nsim_guard_abort(u8* g) { if (S.active) { Out o; S.locks[g].owner = -1; } }
static bool cond_ready(Co* c) { return S.locks[c->waitp].signals > 0; }
H int nsim_cond_wait(void* cv, void* m) { if (!S.active) return 0; nsim_mutex_unlock(m); { Out o; wait_violation("condition wait"); if (S.solo) op_exit(o.f, O_HANG); block_until(cond_ready, cv); S.locks[cv].signals--; } return nsim_mutex_lock(m); }
H int nsim_cond_signal(void* cv) { Out o; S.locks[cv].signals = 1; return 0; }
H int nsim_cond_broadcast(void* cv) { Out o; S.locks[cv].signals = NCO; return 0; }
// waits with a time limit, semaphores, barriers: to have to wait at all is the violation
H int nsim_mutex_timedlock(void* m, void*) { if (!S.active) return 0; int r = nsim_mutex_trylock(m); if (r) { Out o; S.clock += 1000000000ull; wait_violation("timed lock"); return ETIMEDOUT; } return 0; }
H int nsim_mutex_clocklock(void* m, int, void* t) { return nsim_mutex_timedlock(m, t); }
H int nsim_cond_timedwait(void*, void*, void*) { if (!S.active) return 0; Out o; S.clock += 1000000000ull; wait_violation("timed condition wait"); return ETIMEDOUT; }
static bool sem_ready(Co* c) { return S.locks[c->waitp].signals > 0; }
H int nsim_sem_init(void* s, int, unsigned v) { Out o; S.locks[s] = LockSt(); S.locks[s].signals = v; return 0; }
H int nsim_sem_post(void* s) { if (!S.active) return 0; hook(s, 8, 1); Out o; S.locks[s].signals++; return 0; }
H int nsim_sem_trywait(void* s) { if (!S.active) return 0; hook(s, 8, 1); Out o; LockSt& l = S.locks[s]; if (!l.signals) { errno = EAGAIN; return -1; } l.signals--; return 0; }
H int nsim_sem_wait(void* s) { if (!S.active) return 0; hook(s, 8, 1); Out o; if (!S.locks[s].signals) { if (S.solo) op_exit(o.f, O_HANG); block_until(sem_ready, s); } S.locks[s].signals--; return 0; }
H int nsim_wait_forever(...) { if (!S.active) return 0; Out o; wait_violation("barrier, join or signal wait"); op_exit(o.f, O_HANG); }
H int nsim_wait_timed(...) { if (!S.active) return 0; { Out o; S.clock += 1000000ull; wait_violation("poll or select"); } return 0; }
static void do_yield() { if (!S.active) return; hook0(); Out o; if (!S.solo && others_runnable()) { S.want = -1; mixh(0x71E1D); yield_main(); } }
H int nsim_sched_yield() { do_yield(); return 0; }
H int nsim_sleep_ns(u64 ns, const char* w) { if (g_warm) wait_violation(w); if (S.active) { { Out o; S.clock += ns; wait_violation(w); } do_yield(); } return 0; }
H int nsim_nanosleep(const timespec* t, timespec*) { return nsim_sleep_ns(t->tv_sec * 1000000000ull + t->tv_nsec, "nanosleep"); }
H int nsim_clock_nanosleep(int, int, const timespec* t, timespec*) { return nsim_sleep_ns(t->tv_sec * 1000000000ull + t->tv_nsec, "clock_nanosleep"); }
H int nsim_usleep(unsigned u) { return nsim_sleep_ns(u * 1000ull, "usleep"); }
H unsigned nsim_sleep(unsigned s) { nsim_sleep_ns(s * 1000000000ull, "sleep"); return 0; }
H void nsim_sleep_for(long s, long ns) { nsim_sleep_ns(s * 1000000000ull + ns, "sleep_for"); }
// a process's threads: pthread_t values may come back for a new thread, thread numbers do not
H unsigned long nsim_pthread_self() { if (S.solo || !S.cur) return 0x7f1122334740; u64 z = mix64(S.sc->seed + 77); return 0x7f0000000740 + (z & 0xfff000) + (((mix64(z + S.cur->idx + 16 * (z & 1 ? S.cur->gen : 0)) & 0xfffff) << 4 | S.cur->idx) << (z & 2 ? 12 : 6)); }
H int nsim_getpid() { return (S.solo || !S.sc ? 4242 : 300 + (int)(mix64(S.sc->seed + 78) % 30000)) + 7 * S.forks; }
H int nsim_gettid() { return nsim_getpid() + (S.solo || !S.cur || (!S.cur->idx && !S.cur->gen) ? 0 : 1 + (int)(mix64(S.sc->seed + 79) & 3) + (S.cur->gen * NCO + S.cur->idx) * (1 + (int)(mix64(S.sc->seed + 79) >> 2 & 63))); }
H int nsim_getcpu() { Out o; S.rnd = mix64(S.rnd); return S.solo ? 0 : (int)(S.rnd & 7); }
H int nsim_ambient() { Out o; S.rnd = mix64(S.rnd); return S.solo ? 0 : (int)(S.rnd & 1); }   // what is true of the surroundings: user, terminal, files
H unsigned nsim_ncpu() { Out o; S.rnd = mix64(S.rnd); return S.solo ? 4 : 1u << (S.rnd & 7); }
H long nsim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return nsim_ncpu(); return sysconf(n); }
static unsigned g_nkeys = 1; static std::map<unsigned, void (*)(void*)> g_keydtor;
H int nsim_key_create(unsigned* k, void (*d)(void*)) { Out o; *k = g_nkeys++; g_keydtor[*k] = d; S.handles++; return 0; }
H int nsim_key_delete(unsigned k) { Out o; g_keydtor.erase(k); S.handles--; return 0; }
H void* nsim_malloc(size_t); H void nsim_free(void*); static void lack_of_memory();
H int nsim_cxa_thread_atexit(void (*d)(void*), void* p, void*)
{   // the C library ends the process if there is no memory to remember the destructor
    if (S.active && !S.solo) { void* q = nsim_malloc(40); if (!q) lack_of_memory(); nsim_free(q); }
    Out o; if (S.cur && !S.solo) S.cur->tdtor.push_back({d, p}); return 0;
}
H void* nsim_getspecific(unsigned k) { Out o; return S.cur ? S.cur->keys[k] : 0; }
H int nsim_setspecific(unsigned k, const void* v) { Out o; if (S.cur) S.cur->keys[k] = (void*)v; return 0; }

// ------------------------------------------------------------------ heap
static void heap_lock()
{   // one global non-reentrant lock, held across two points
    if (S.solo || !S.active || !S.cur) return;
    hook0(); Out o; Co* c = S.cur;
    if (S.heapowner == c->idx) { LOG("  [t%d] allocator re-entered by a signal handler while this thread holds its lock", c->idx); op_exit(o.f, O_HANG); }
    block_until(heap_free_, 0); S.heapowner = c->idx;
}
static void heap_unlock() { if (S.solo || !S.active || !S.cur) return; hook0(); S.heapowner = -1; }
static void* heap_raw(size_t n)
{
    Out o; n = (n + 15) & ~15ull; if (!n) n = 16; u64 p;
    size_t cl = n / 16;
    if (cl < 260 && !S.freel[cl].empty()) { p = HEAP + (u64)S.freel[cl].back() * 16; S.freel[cl].pop_back(); }
    else { if (S.heapbump + n + 16 > HEAP_SZ) return 0; p = HEAP + S.heapbump + 16; S.heapbump += n + 16; }
    ((u64*)p)[-2] = n; ((u64*)p)[-1] = 0x11FE; S.live++; S.liveb += n; { Frame* f = S.frame ? S.frame : S.cur ? S.cur->frame : 0; int fn = f && !S.solo ? f->op->fn : 599; ((u64*)p)[-1] |= (u64)fn << 16; S.livefn[fn]++; }
    u64 pat = S.solo ? 0 : mix64((S.sc ? S.sc->heapfill : 0) + S.points); for (size_t i = 0; i + 8 <= n && i < 1024; i += 8) memcpy((void*)(p + i), &pat, 8);
    return (void*)p;
}
static void* heap_alloc(size_t n)
{
    if (!S.active && S.phase == 0) return malloc(n);            // harness
    ST.allocs++;
    heap_lock();
    if (S.active && !S.solo && S.frame && S.sc->allocfail) {
        u32 i = S.frame->allocs++;
        if (S.sc->allocfail == 0xffffffffu || (S.sc->allocfail >> (i & 31) & 1)) { ST.allocFails++; mixh(0xA110C); LOG("  [t%d %s#%d] allocation of %zu bytes fails", S.cur->idx, S.frame->d->name, S.frame->op->id, n); heap_unlock(); errno = ENOMEM; return 0; }
    }
    void* p = heap_raw(n); heap_unlock(); return p;
}
static void heap_release(void* p)
{
    if (!p) return;
    if ((u64)p - HEAP >= HEAP_SZ) { free(p); return; }
    heap_lock();
    { Out o; u64* h = (u64*)p; if ((h[-1] & 0xffff) == 0x11FE) { S.livefn[h[-1] >> 16 & 0x3ff]--; h[-1] = 0xDEAD; S.live--; S.liveb -= h[-2]; if (h[-2] / 16 < 260) S.freel[h[-2] / 16].push_back((u32)(((u64)p - HEAP) / 16)); memset(p, 0xDD, std::min<u64>(h[-2], 1024)); } }
    heap_unlock();
}
static inline bool libside() { return S.active || S.phase; }
H void* nsim_malloc(size_t n) { return heap_alloc(n); }
H void* nsim_calloc(size_t a, size_t b) { void* p = heap_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
H void nsim_free(void* p) { heap_release(p); }
H void* nsim_realloc(void* p, size_t n) { if (!p) return heap_alloc(n); void* q = heap_alloc(n); if (q) { size_t m = (u64)p - HEAP < HEAP_SZ ? ((u64*)p)[-2] : n; memcpy(q, p, std::min(m, n)); heap_release(p); } return q; }
H void* nsim_aligned_alloc(size_t al, size_t n) { u8* p = (u8*)heap_alloc(n + al); return p ? (void*)(((u64)p + al - 1) / al * al) : 0; }
H int nsim_posix_memalign(void** r, size_t al, size_t n) { *r = nsim_aligned_alloc(al, n); return *r ? 0 : ENOMEM; }
H char* nsim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)heap_alloc(n); if (p) memcpy(p, s, n); return p; }
void* operator new(size_t n) { void* p = libside() ? heap_alloc(n) : malloc(n); if (!p) { bool a = S.active; S.active = false; struct R { bool a; ~R() { S.active = a; } } r{a}; throw std::bad_alloc(); } return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return libside() ? heap_alloc(n) : malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return libside() ? heap_alloc(n) : malloc(n); }
void operator delete(void* p) noexcept { heap_release(p); }
void operator delete[](void* p) noexcept { heap_release(p); }
void operator delete(void* p, size_t) noexcept { heap_release(p); }
void operator delete[](void* p, size_t) noexcept { heap_release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_release(p); }

// ------------------------------------------------------------------ streams, process end, clocks, side effects
static long sim_output(FILE* fp, int fd, const char* b, size_t n)
{   // one simulated write to a stream; returns bytes written or -1
    if (g_warm) { if (S.sc->prop == 12 || S.sc->prop == 9) viol("output", S.frame, "valid call of a long history writes %zu byte(s)", n); return n; }
    if (!S.active) return n;
    hook0(); Out o; Frame* f = S.frame; bool se = fp == stderr || fd == 2;
    mixh(0x0107 + n);
    for (size_t i = 0; i < n; i++) mixh((u8)b[i]);
    if (!S.solo) { ST.stderrWrites++; LOG("  [t%d %s#%d] writes to %s: %.*s", S.cur->idx, f->d->name, f->op->id, se ? "stderr" : fp == stdout || fd == 1 ? "stdout" : "a stream", (int)std::min<size_t>(n, 80), b); }
    f->diagtry++;
    if (!f->op->invalid && S.sc && !S.solo && (S.sc->prop == 12 || S.sc->prop == 9)) viol("output", f, "valid call writes %zu byte(s) to %s", n, se ? "stderr" : "another stream");
    if (se && S.sc && !S.solo) switch (S.sc->stderrmode) {
        case SE_FAIL: S.sefail++; ST.stderrFails++; S.cur->err = errno = EIO; return -1;
        case SE_EPIPE: S.sefail++; ST.stderrFails++; errno = EPIPE; return -1;
        case SE_EINTR: if (S.sechits++ == 0) { S.sefail++; ST.stderrFails++; errno = EINTR; return -1; } break;
        case SE_SHORT: S.sefail++; ST.stderrFails++; if (n) f->diag++; return n / 2;
    }
    if (se && n) f->diag++;
    return n;
}
static int vout(FILE* fp, int fd, const char* fmt, va_list ap) { char b[512]; bool a = S.active; S.active = false; int n = vsnprintf(b, sizeof b, fmt, ap); S.active = a; if (n > 511) n = 511; return (int)sim_output(fp, fd, b, n); }
#define VO(fp, fd) va_list ap; va_start(ap, fmt); int r = vout(fp, fd, fmt, ap); va_end(ap); return r
H int nsim_fprintf(FILE* f, const char* fmt, ...) { VO(f, -1); }
H int nsim_fprintf_chk(FILE* f, int, const char* fmt, ...) { VO(f, -1); }
H int nsim_printf(const char* fmt, ...) { VO(stdout, -1); }
H int nsim_printf_chk(int, const char* fmt, ...) { VO(stdout, -1); }
H int nsim_dprintf(int fd, const char* fmt, ...) { VO(0, fd); }
H int nsim_dprintf_chk(int fd, int, const char* fmt, ...) { VO(0, fd); }
H int nsim_vfprintf(FILE* f, const char* fmt, va_list ap) { return vout(f, -1, fmt, ap); }
H int nsim_vfprintf_chk(FILE* f, int, const char* fmt, va_list ap) { return vout(f, -1, fmt, ap); }
H int nsim_vprintf(const char* fmt, va_list ap) { return vout(stdout, -1, fmt, ap); }
H int nsim_fputs(const char* s, FILE* f) { return (int)sim_output(f, -1, s, strlen(s)); }
H int nsim_puts(const char* s) { return (int)sim_output(stdout, -1, s, strlen(s)); }
H int nsim_fputc(int c, FILE* f) { char b = (char)c; return sim_output(f, -1, &b, 1) < 0 ? EOF : c; }
H int nsim_putchar(int c) { return nsim_fputc(c, stdout); }
H size_t nsim_fwrite(const void* p, size_t s, size_t n, FILE* f) { long r = sim_output(f, -1, (const char*)p, s * n); return r < 0 ? 0 : r / (s ? s : 1); }
H ssize_t nsim_write(int fd, const void* p, size_t n) { return sim_output(0, fd, (const char*)p, n); }
H ssize_t nsim_writev(int fd, const struct iovec* v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = nsim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
H void nsim_warn(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vout(stderr, -1, fmt ? fmt : "", ap); va_end(ap); }
H void nsim_vwarn(const char* fmt, va_list ap) { vout(stderr, -1, fmt ? fmt : "", ap); }
H void nsim_psignal(int, const char* m) { sim_output(stderr, -1, m ? m : "", m ? strlen(m) : 0); }
H int nsim_vasprintf(char** out, const char* fmt, va_list ap) { va_list c; va_copy(c, ap); int n; { Out o; n = vsnprintf(0, 0, fmt, c); } va_end(c); char* p = n < 0 ? 0 : (char*)nsim_malloc(n + 1); if (!p) return -1; { Out o; vsnprintf(p, n + 1, fmt, ap); } *out = p; return n; }
H int nsim_asprintf(char** out, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = nsim_vasprintf(out, fmt, ap); va_end(ap); return n; }
H int nsim_vasprintf_chk(char** out, int, const char* fmt, va_list ap) { return nsim_vasprintf(out, fmt, ap); }
H int nsim_asprintf_chk(char** out, int, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = nsim_vasprintf(out, fmt, ap); va_end(ap); return n; }
H char* nsim_strndup(const char* s, size_t n) { size_t k = strnlen(s, n); char* p = (char*)nsim_malloc(k + 1); if (p) { memcpy(p, s, k); p[k] = 0; } return p; }
H void* nsim_valloc(size_t n) { return nsim_aligned_alloc(4096, n); }
H void* nsim_reallocarray(void* p, size_t n, size_t m) { return nsim_realloc(p, n * m); }
H void nsim_perror(const char* s) { sim_output(stderr, -1, s ? s : "", s ? strlen(s) : 0); }
H int nsim_fflush(FILE*) { return 0; }
struct SimBuf : std::streambuf {
    bool err; explicit SimBuf(bool e) : err(e) {}
    std::streamsize xsputn(const char* s, std::streamsize n) override { return S.active ? std::max(0l, sim_output(err ? stderr : stdout, -1, s, n)) : n; }
    int overflow(int c) override { char b = (char)c; if (S.active && c != EOF) return sim_output(err ? stderr : stdout, -1, &b, 1) < 0 ? EOF : c; return c; }
};
static void end_process(int out, Frame* f) { op_exit(f, out); }
#define ENDS(out) do { if (S.active || g_warm) { Frame* f = S.frame; S.active = false; mixh(0xE0D + out); end_process(out, f); } } while (0)
H void nsim_abort() { hook0(); ENDS(O_ABORT); _exit(97); }
H void nsim_terminate() { ENDS(O_ABORT); _exit(97); }
H void nsim_exit(int) { ENDS(O_EXIT); _exit(97); }
H void nsim_assert_fail(const char* e, const char*, unsigned, const char*) { sim_output(stderr, -1, e, strlen(e)); nsim_abort(); }
H void nsim_stack_chk_fail() { ENDS(O_SMASH); _exit(97); }
static void lack_of_memory() { ENDS(O_ABORT); }
static void side(const char* what) { if (g_warm) viol("side-effect", S.frame, "valid call of a long history invokes %s", what); if (!S.active) return; mixh(0x51DE); Out o; if (S.sc && !S.solo && S.sc->prop == 12 && !o.f->op->invalid) viol("side-effect", o.f, "valid call invokes %s", what); }
// the caller's process may ignore SIGABRT, or handle it and carry on: then only abort() itself ends it
H int nsim_raise(int s) { hook0(); if (s == SIGABRT && S.active && !S.solo && S.sc->prop == 9 && (mix64(S.sc->seed + 80) & 1)) return 0; if (s == SIGABRT) ENDS(O_ABORT); else ENDS(O_EXIT); return 0; }
H int nsim_kill(int, int s) { return nsim_raise(s); }
// process state a call may change and put back: judged when the call ends
struct Chg { Frame* f; std::string key, orig; };
static std::map<std::string, std::string> g_state; static std::vector<Chg> g_chg; static std::set<std::string> g_left;
static std::string state_get(const std::string& k) { auto i = g_state.find(k); return i == g_state.end() ? std::string() : i->second; }
#define SYS bool live = S.active; if (live) hook0(); Out o_   /* a call into the system: a point before it, none inside */
static void state_set(const std::string& k, const std::string& v, bool live)
{
    if (!live || S.solo) return;
    Out o; if (S.sc->prop == 12) { bool have = false; for (auto& c : g_chg) have |= c.f == o.f && c.key == k; if (!have) g_chg.push_back({o.f, k, state_get(k)}); }
    g_state[k] = v; mixh(0x57A7E);
}
static void state_end(Frame* f, bool judge)
{
    for (size_t i = 0; i < g_chg.size();) if (g_chg[i].f == f) {
        Chg c = g_chg[i]; g_chg.erase(g_chg.begin() + i); std::string now = state_get(c.key); bool others = false; for (auto& o : g_chg) others |= o.key == c.key;
        if (judge && now != c.orig) viol("side-effect", f, "%s differs after the call", c.key.c_str());
        else if (judge && !others && !g_left.count(c.key) && now != "") viol("side-effect", f, "%s is not put back although no call is in progress", c.key.c_str());   // overlapping calls put back each other's setting
        if (now != "" && (!judge || now != c.orig)) g_left.insert(c.key);
    } else i++;
}
static u64 tick() { ST.clockReads++; return S.clock += S.sc && S.sc->prop == 4 && S.sc->seed & 1 ? 0 : 1000; }   // C04: the clock stands still in half of the runs
H long nsim_time(long* t) { Out o; long r = (long)(tick() / 1000000000ull); if (t) *t = r; return r; }
H long nsim_clock() { Out o; return (long)(tick() / 1000); }
H int nsim_gettimeofday(timeval* tv, void*) { Out o; u64 t = tick(); tv->tv_sec = t / 1000000000ull; tv->tv_usec = t / 1000 % 1000000; return 0; }
H int nsim_clock_gettime(int, timespec* ts) { Out o; u64 t = tick(); ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0; }
H i64 nsim_chrono_now() { Out o; return (i64)tick(); }
static u64 rnd() { S.rnd = mix64(S.rnd + 1); return S.rnd; }
H int nsim_rand() { side("rand (consumes the caller's random sequence)"); return (int)(rnd() >> 33); }
H long nsim_random() { side("random"); return (long)(rnd() >> 33); }
H void nsim_srand(unsigned) { side("srand"); }
H int nsim_rand_r(unsigned* s) { Out o; *s = (unsigned)mix64(*s); return *s >> 1; }
H double nsim_drand48() { side("drand48"); return (rnd() >> 11) * 0x1p-53; }
H long nsim_lrand48() { side("lrand48"); return (long)(rnd() >> 33); }
H ssize_t nsim_getrandom(void* p, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((u8*)p)[i] = (u8)rnd(); return n; }
H char* nsim_setlocale(int c, const char* l) { if (g_warm && l) side("setlocale"); SYS; static char buf[64]; std::string k = "locale category " + std::to_string(c), v = state_get(k); snprintf(buf, sizeof buf, "%s", v.empty() ? "C.user" : v.c_str()); if (l) { if (v == l) return buf; state_set(k, strcmp(l, "C.user") ? l : "", live); } return buf; }
H int nsim_setenv(const char* n, const char* v, int) { if (g_warm) side("setenv"); SYS; state_set(std::string("environment variable ") + n, v, live); return 0; }
H int nsim_putenv(char*) { side("putenv"); return 0; }
H int nsim_unsetenv(const char* n) { if (g_warm) side("unsetenv"); SYS; state_set(std::string("environment variable ") + n, "", live); return 0; }
H char* nsim_getenv(const char*) { Out o; static char v[2] = "1"; return S.solo ? 0 : (S.rnd & 1) ? v : 0; }
static std::string hexs(const void* p, size_t n) { std::string o; char b[4]; bool nz = false; for (size_t i = 0; i < n; i++) { u8 x = ((const u8*)p)[i]; nz |= x; snprintf(b, 4, "%02x", x); o += b; } return nz ? o : ""; }
static void unhex(const std::string& s, void* p, size_t n) { memset(p, 0, n); for (size_t i = 0; i < n && 2 * i + 1 < s.size(); i++) ((u8*)p)[i] = (u8)strtoul(s.substr(2 * i, 2).c_str(), 0, 16); }
H void* nsim_signal(int n, void* h) { if (g_warm) side("signal"); SYS; std::string k = "disposition of signal " + std::to_string(n); struct sigaction a; unhex(state_get(k), &a, sizeof a); void* old = (void*)a.sa_handler; a.sa_handler = (sighandler_t)h; state_set(k, hexs(&a, sizeof a), live); return old; }
H int nsim_sigaction(int n, const void* a, void* old) { if (g_warm && a) side("sigaction"); SYS; std::string k = "disposition of signal " + std::to_string(n); if (old) unhex(state_get(k), old, sizeof(struct sigaction)); if (a) state_set(k, hexs(a, sizeof(struct sigaction)), live); return 0; }
H int nsim_sigprocmask(int how, const void* s, void* old)
{
    if (g_warm && s) side("sigprocmask");
    SYS;
    std::string k = "signal mask of thread " + std::to_string(S.cur ? S.cur->idx : 0), v = state_get(k); sigset_t m, n; unhex(v, &m, sizeof m); ((u64*)&m)[0] ^= 0x210;   // the caller blocks two signals of its own
    if (old) memcpy(old, &m, sizeof m);
    if (s) { memcpy(&n, s, sizeof n); for (size_t i = 0; i < sizeof n / 8; i++) { u64& x = ((u64*)&m)[i]; u64 y = ((u64*)&n)[i]; x = how == SIG_BLOCK ? x | y : how == SIG_UNBLOCK ? x & ~y : y; } ((u64*)&m)[0] ^= 0x210; state_set(k, hexs(&m, sizeof m), live); }
    return 0;
}
H int nsim_chdir(const char*) { side("chdir"); return 0; }
H unsigned nsim_umask(unsigned m) { if (g_warm) side("umask"); SYS; std::string v = state_get("umask"); state_set("umask", m == 022 ? "" : std::to_string(m), live); return v.empty() ? 022 : atoi(v.c_str()); }
// files to read: half of them exist, with contents of the simulator's making (the reference execution finds none); the descriptors count as held
struct SimFile { std::string text; size_t off; }; static std::map<int, SimFile> g_files; struct SimFp { std::string* t; void* buf; }; static std::map<FILE*, SimFp> g_fps; static int g_nextfd = 1000;
static void files_reset() { for (auto& x : g_fps) { x.second.t->~basic_string(); free(x.second.t); } g_fps.clear(); g_files.clear(); g_nextfd = 1000; }
static bool sim_file(const char* path, std::string& t, bool in)
{
    if (!S.sc || S.solo || S.phase || (!in && !g_warm)) return false;
    u64 h = S.sc->seed + 17; for (const char* q = path; *q; q++) h = mix64(h ^ (u8)*q); if (h & 1) return false;
    h >>= 1; char b[64]; if (h & 1) snprintf(b, sizeof b, "%d\n%d\n", (int)(mix64(h) % (h & 2 ? 8 : 200)), (int)(mix64(h + 1) % 99)), t = b; else for (int i = 0; i < 64; i++) t += (char)mix64(h + i);
    return true;
}
H int nsim_open(const char* path, int fl, ...)
{
    if (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) side("open for writing");
    hook0(); Out o; std::string t; if ((fl & 3) || !sim_file(path, t, o.a)) { errno = ENOENT; return -1; }
    S.handles++; mixh(0xF11E); g_files[g_nextfd] = {t, 0}; return g_nextfd++;
}
H int nsim_openat(int, const char* p, int fl, ...) { return nsim_open(p, fl); }
H int nsim_creat(const char* p, int) { return nsim_open(p, O_CREAT | O_WRONLY); }
H ssize_t nsim_pread(int fd, void* p, size_t n, long at) { hook0(); Out o; auto i = g_files.find(fd); if (i == g_files.end()) { errno = EBADF; return -1; } size_t z = i->second.text.size(); if ((size_t)at >= z) return 0; n = std::min(n, z - at); memcpy(p, i->second.text.data() + at, n); return n; }
H ssize_t nsim_read(int fd, void* p, size_t n) { auto i = g_files.find(fd); ssize_t r = nsim_pread(fd, p, n, i == g_files.end() ? 0 : i->second.off); if (r > 0) g_files[fd].off += r; return r; }
H long nsim_lseek(int fd, long at, int wh) { Out o; auto i = g_files.find(fd); if (i == g_files.end()) { errno = EBADF; return -1; } SimFile& f = i->second; return f.off = wh == SEEK_SET ? at : wh == SEEK_CUR ? f.off + at : f.text.size() + at; }
H int nsim_fstat(int fd, struct stat* st) { Out o; memset(st, 0, sizeof *st); auto i = g_files.find(fd); if (i != g_files.end()) st->st_size = i->second.text.size(); st->st_mode = S_IFREG | 0444; return 0; }
H int nsim_stat(const char* path, struct stat* st) { Out o; std::string t; if (!sim_file(path, t, o.a)) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_size = t.size(); st->st_mode = S_IFREG | 0444; return 0; }
H FILE* nsim_fopen(const char* path, const char* m)
{
    if (strpbrk(m, "wa+")) side("fopen for writing");
    hook0(); void* h = nsim_malloc(64); Out o; std::string t; if (!h || !sim_file(path, t, o.a)) { if (h) { nsim_free(h); errno = ENOENT; } return 0; }
    std::string* k = new (malloc(sizeof(std::string))) std::string(t); FILE* f = fmemopen(&(*k)[0], k->size(), "r"); g_fps[f] = {k, h}; S.handles++; return f;
}
H int nsim_close(int fd) { hook0(); bool had; { Out o; had = g_files.erase(fd); } if (had) { S.handles--; return 0; } if (fd >= 0) { side("close"); S.handles--; } return 0; }
H int nsim_fclose(FILE* fp) { auto i = g_fps.find(fp); if (i != g_fps.end()) { nsim_free(i->second.buf); Out o; fclose(fp); i->second.t->~basic_string(); free(i->second.t); g_fps.erase(i); S.handles--; return 0; } side("fclose"); return 0; }
H int nsim_unlink(const char*) { side("unlink/remove"); return 0; }
H int nsim_system(const char*) { side("system"); return 0; }
H int nsim_pthread_create(void*, void*, void*, void*) { side("pthread_create"); return EAGAIN; }
H unsigned nsim_alarm(unsigned) { side("alarm/setitimer"); return 0; }
static void add_dtor(void (*f)(void*), void* p)
{   // destructors and exit handlers the library registers
    static void* ios = dlsym(RTLD_DEFAULT, "_ZNSt8ios_base4InitD1Ev"); if ((void*)f == ios || S.solo) return;
    Out o; S.dtors.push_back({f, p});
}
H int nsim_atexit(void* f) { side("atexit"); S.handles++; add_dtor((void (*)(void*))f, 0); return 0; }
H int nsim_cxa_atexit(void* f, void* p, void*) { add_dtor((void (*)(void*))f, p); return 0; }
H int nsim_unlisted_side(const char* what) { side(what); return 0; }
H int nsim_unlisted_handle(const char* what) { side(what); S.handles++; return -1; }
H void* nsim_newlocale(int, const char*, void*) { side("newlocale"); S.handles++; return (void*)&g_nextfd; }
H void nsim_freelocale(void*) { S.handles--; }
H void* nsim_backtrace_symbols(void*, int) { return nsim_malloc(64); }
H int nsim_dummy() { return 0; }
H unsigned nsim_rd_getval(void*) { Out o; return (unsigned)rnd(); }
H void* nsim_mmap(void*, size_t n, int, int, int, long) { if (!S.active && !S.phase) return MAP_FAILED; void* p = nsim_aligned_alloc(4096, n); if (!p) return MAP_FAILED; memset(p, 0, n); S.handles++; return p; }
H int nsim_munmap(void*, size_t) { S.handles--; return 0; }
H long nsim_syscall(long n, long a, long b, long c, long, long, long)
{
    switch (n) {
    case SYS_gettid: return nsim_gettid();
    case SYS_getpid: return nsim_getpid();
    case SYS_sched_yield: return nsim_sched_yield();
    case SYS_getrandom: return nsim_getrandom((void*)a, b, 0);
    case SYS_clock_gettime: return nsim_clock_gettime((int)a, (timespec*)b);
    case SYS_write: return nsim_write((int)a, (void*)b, c);
    case SYS_getcpu: if (a) *(int*)a = nsim_getcpu(); return 0;
    case SYS_futex: if ((b & 127) == 0 || (b & 127) == 9) { if (!S.active) return 0; if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; } { Out o; wait_violation("futex wait"); } do_yield(); return 0; } return 0;
    case SYS_nanosleep: return nsim_nanosleep((timespec*)a, 0);
    case SYS_tgkill: case SYS_tkill: case SYS_kill: return nsim_raise((int)(n == SYS_tgkill ? c : b));
    case SYS_exit: case SYS_exit_group: nsim_exit(0); return 0;
    }
    side("a system call"); return -1;
}
#define REAL(T, n, ...) typedef T (*fn_##n)(__VA_ARGS__); static fn_##n real_##n; if (!real_##n) real_##n = (fn_##n)dlsym(RTLD_NEXT, #n);
H FILE* fopen(const char* p, const char* m) { if (S.active) return nsim_fopen(p, m); REAL(FILE*, fopen, const char*, const char*) return real_fopen(p, m); }
H FILE* fopen64(const char* p, const char* m) { if (S.active) return nsim_fopen(p, m); REAL(FILE*, fopen64, const char*, const char*) return real_fopen64(p, m); }
H char* setlocale(int c, const char* l) { if (S.active) return nsim_setlocale(c, l); REAL(char*, setlocale, int, const char*) return real_setlocale(c, l); }

// ------------------------------------------------------------------ running one call
static void __attribute__((noinline)) fill_stack(u64 pat, size_t n) { volatile u64* p = (volatile u64*)__builtin_alloca(n); for (size_t i = 0; i < n / 8; i++) p[i] = pat; }
static u32 g_so; static u64 g_res; static size_t g_fill;
extern "C" __attribute__((used, noinline)) int thunk_catch(Thunk t, void* f, void* ret, const u8* args)
{
    volatile u8* pad = (volatile u8*)__builtin_alloca(16 + g_so * 16); pad[0] = 1;
    fill_stack(g_res, g_fill);
    Frame* fr = S.frame;
    try { setmx(fr->mx0); S.active = !g_warm; t(f, ret, args); S.active = false; }
    catch (...) { S.active = false; S.frame = fr; return O_EXC; }
    return O_OK;
}
static void frame_setup(Frame* f, const Op* op, OpRt* rt)
{
    memset(f, 0, sizeof *f); f->op = op; f->d = &OPS[op->fn]; f->rt = rt;
    f->load = f->d->dir == M_LD; f->store = f->d->dir == M_ST; f->fplen = f->d->fp;
}
static std::vector<u8> bind_args(const Op* op, u8* mem)
{
    const OpDesc& d = OPS[op->fn]; std::vector<u8> a = op->args; a.resize(d.argbytes + 8);
    size_t off = 0;
    for (int i = 0; i < d.nargs; i++) { if (d.args[i].k == T_PTR) { u64 p = (u64)mem; memcpy(&a[off], &p, 8); } off += (d.args[i].size + 7) / 8 * 8; }
    return a;
}
static void fill_pre(u8* p, size_t n, u32 seed)
{   // seeds that differ in the top bit only give the same elements in another order
    size_t rot = !(seed >> 31) ? 0 : n % 3 == 0 ? n / 3 : n / 2; seed &= 0x7fffffff;
    for (size_t j = 0; j < n; j++) { size_t i = (j + rot) % n; p[j] = (u8)mix64(seed * 1315423911ull + i / 8 * 8) >> 0 ^ (u8)(mix64(seed + 77ull * i)); }
}

static void vary_args(std::vector<u8>& a, const OpDesc& d, u32 rep)
{
    size_t off = 0;
    for (int i = 0; i < d.nargs; i++) { if (d.args[i].k == T_VEC || d.args[i].k == T_SCA) for (int j = 0; j < d.args[i].size; j++) a[off + j] ^= (u8)(mix64(rep * 0x51ED27ull + j / 8) >> (j % 8 * 8)); off += (d.args[i].size + 7) / 8 * 8; }
}
// runs one call of the current program; returns its outcome
static int run_op1(Co* c, int oi, u32 burst)
{
    const Op* op = &S.sc->ops[oi]; OpRt* rt = &S.rt[oi];
    if (rt->skip) { rt->done = true; return O_OK; }
    u8* mem = regp(op->reg) + op->off; u8 ret[256]; int out; Frame fr; Frame* f = &fr; const OpDesc& d = OPS[op->fn];
    int tries = 0;
again:
    frame_setup(f, op, rt); f->burst = burst; f->prev = c->frame; f->level = f->prev ? f->prev->level + 1 : 0; f->fp = (u64)mem; rt->execs++;
    c->frame = f;
    u8* sh = S.shadow + op->reg * REGBYTES + op->off; u8 pre[64];
    bool big = d.fp > 0;
    if (big && !S.model) { fill_pre(mem, d.fp, op->pre); }
    if (big && S.model) {
        memcpy(f->oldb, sh, d.fp); memcpy(f->newb, sh, d.fp);
        if (f->store && S.sc->prop == 7) { if (!rt->det.empty()) for (int i = 0; i < d.fp && i < (int)rt->mem.size(); i++) if (rt->det[i]) f->newb[i] = rt->mem[i]; }
        else if (f->store && !op->invalid) model_store(d, f->newb, op->args);
        if (f->load && !op->invalid) model_load(d, sh, op->args, f->ret);
        if (op->eq && f->store && rt->execs == 1 && !op->invalid && !(S.absent | S.rdonly))
            for (int i = 0; i < d.fp; i++) if (op->eq == 1 || (mix64(op->pre + i / 3) & 1)) f->oldb[i] = sh[i] = mem[i] = f->newb[i];
    } else if (big && f->store) { memcpy(f->oldb, mem, d.fp); if (!rt->mem.empty()) memcpy(f->newb, rt->mem.data(), d.fp); }
    (void)pre;
    set_next(f);
    S.frame = f;
    LOG("[t%d] call %s #%d%s", c->idx, d.name, op->id, tries ? " (again)" : "");
    if (f->next == 0 && rt->acts.size() && !burst) { while (f->ai < rt->acts.size() && (rt->fired[f->ai] || rt->acts[f->ai].k == 0)) { if (rt->fired[f->ai]) { f->ai++; continue; } rt->fired[f->ai] = 1; const Act& a = rt->acts[f->ai++]; do_act(f, a); c->frame = f; S.frame = f; } set_next(f); }
    std::vector<u8> a = bind_args(op, mem); memset(ret, 0, sizeof ret);
    bool judge = true; if (burst && op->bvary) { vary_args(a, d, burst * 7919 + c->rep); judge = false; }
    if (S.sc->vary && c->rep) vary_args(a, d, c->rep);
    u32 mode = f->prev ? 0x1f80 : S.sc->fpmode[c->prog]; f->mx0 = mode | (op->res >> 9 & 3 ? 0 : op->res >> 11 & 0x3f & mode >> 7); if (mode != 0x1f80) ST.fpNonDefault++;   // sticky flags: whatever earlier code raised
    u16 xcw = 0x37f; xcw = (u16)((xcw & ~0xc3f) | (mode >> 3 & 0xc00) | (mode >> 7 & 0x3d) | 2);   // x87 unit: same rounding and traps
    bool tiny = S.sc->tiny[c->prog]; if (tiny) ST.tinyCalls++;
    if (c->prog >= S.sc->nthreads || f->prev) ST.handlerCalls++;
    c->nsb = 0; g_so = tiny ? op->so & 63 : op->so; g_res = mix64(op->res) | 0x0101010101010101ull; g_fill = f->prev ? 2048 : tiny ? 2048 : 5120; S.garbage = op->res;
    int err0 = op->res & 0x70000 ? 1 + op->res % 90 : 0; errno = err0; u16 cw0 = getcw(); asm volatile("fldcw %0" : : "m"(xcw)); ST.calls++; u64 hl = S.live;
    (void)hl; std::ios::fmtflags ios0[2] = {std::cout.flags(), std::cerr.flags()};
    f->started = true;
    out = call_op(f->jb, d.thunk, S.lib->fn[op->fn], ret, a.data());
    S.active = false; c->nsb = 0; u32 mx1 = getmx(); u16 cw1 = getcw(); int err1 = errno; setmx(0x1f80);
    u16 xtag = 0xffff; u64 eflags = 0; if (S.sc->prop == 12) { u32 env[7]; asm volatile("fnstenv %0" : "=m"(env)); xtag = (u16)env[2]; asm volatile("pushfq; popq %0" : "=r"(eflags)); }
    if (xtag != 0xffff) asm volatile("fninit"); asm volatile("cld; fnclex; fldcw %0" : : "m"(cw0));
    c->frame = f->prev; S.frame = f->prev;
    ST.points += f->k; mixh((u64)out << 40 | f->k);
    if (out == O_RETRY) { LOG("[t%d] %s #%d abandoned at a page fault; page populated, call executed again", c->idx, d.name, op->id); ST.retries++; if (S.tear && f->store) tear_check(f); if (++tries < 8) goto again; }
    rt->out = out;
    for (int i = 0; i < (int)d.ret.size && out == O_OK; i += 8) { u64 x; memcpy(&x, ret + i, 8); mixh(x); }
    LOG("[t%d] %s #%d -> %s", c->idx, d.name, op->id, OUTNAME[out]);
    int P = S.sc->prop;
    bool fatal = out == O_ABORT || out == O_EXIT || out == O_FAULT || out == O_TRAP || out == O_HANG || out == O_SMASH;
    if (P == 12 && out != O_OK) state_end(f, false);
    if (op->invalid) {                                          // C09, rejected argument
        ST.aborts += out == O_ABORT;
        if (out == O_OK || out == O_EXC) viol("not-rejected", f, "out-of-range argument: call %s instead of ending the process", out == O_OK ? "returns a result" : "throws");
        else if (fatal && out != O_ABORT) viol("wrong-end", f, "out-of-range argument: process ends by %s, not by abort", OUTNAME[out]);
        else if (out == O_ABORT) {
            if (f->diagtry == 0 && !S.sefail) viol("no-diagnostic", f, "aborts without writing to standard error"); // a stream that failed for an earlier call may stay in its error state
            else if (S.sc->stderrmode == SE_OK && f->diag == 0) viol("no-diagnostic", f, "no diagnostic reached standard error");
        }
        if (big && memcmp(mem, S.model ? f->oldb : mem, d.fp)) viol("touched-memory", f, "rejected call modified its memory operand");
        S.ended = true; S.endout = out; S.endop = op; return out;
    }
    if (out == O_ABANDON) {
        for (int p = 0; p < MAXPROG; p++) if (S.busy[p] == c->idx && S.busylv[p] >= f->level) S.busy[p] = -1;
        if (P == 3 && ((mx1 ^ f->mx0) & ~0x3fu)) viol("fp-control", f, "floating-point control was %04x before the abandoned call and is %04x after", f->mx0, mx1);
        if (S.model && f->store) { if (S.tear) tear_check(f); memcpy(sh, mem, d.fp); }
        rt->done = true; return out;
    }
    if (out == O_EXC || fatal) {
        if (out == O_HANG) viol("no-progress", f, "call does not complete (%u accesses)", f->k);
        else viol("bad-end", f, "valid call ends by %s", OUTNAME[out]);
        if (fatal) { S.ended = true; S.endout = out; S.endop = op; }
        rt->done = true; return out;
    }
    // completed
    if (P == 4 && f->runmax > 64 + 2 * rt->run && (others_inside(c) || (f->prev && f->prev->started))) viol("waits", f, "looks at the same shared word %u times in a row while another call is suspended (%u times when alone)", f->runmax, rt->run);
    const u8* er = S.model ? f->ret : rt->ret.data(); bool cmpret = S.model ? f->load : !rt->ret.empty() && judge;
    if (cmpret && d.ret.size && memcmp(er, ret, d.ret.size)) {
        int i = 0; while (er[i] == ret[i]) i++; 
        char x[140] = "", y[140] = ""; for (int j = 0; j < (int)d.ret.size && j < 64; j++) { sprintf(x + 2 * j, "%02x", er[j]); sprintf(y + 2 * j, "%02x", ret[j]); }
        viol("mismatch", f, "result byte %d differs: expected %s got %s", i, x, y);
    }
    if (big && judge && !S.model && !rt->mem.empty() && memcmp(rt->mem.data(), mem, d.fp)) viol("mismatch", f, "memory operand differs from what the call alone leaves");
    if (big && S.model) {
        if (f->store && memcmp(f->newb, mem, d.fp)) {
            int i = 0; while (f->newb[i] == mem[i]) i++;
            if (P == 7) { if (rt->execs > 1) viol("redo", f, "executed again, the store leaves %02x in destination byte %d where an uninterrupted store leaves %02x", mem[i], i, f->newb[i]); }
            else viol("wrong-store", f, "destination byte %d is %02x after the store, must be %02x", i, mem[i], f->newb[i]);
        }
        if (f->store && P == 5 && !S.lib->step) for (int i = 0; i < d.fp; i++) if (mem[i] == f->oldb[i] && !(f->wr >> i & 1)) {
            if (mem[i] != f->newb[i]) viol("not-written", f, "destination byte %d is not written", i);
            else if (S.late.size() < 4) { std::vector<u8> x(f->newb, f->newb + d.fp); for (u8& b : x) b ^= 0xff; x.push_back((u8)i); S.late.push_back({(size_t)oi, x}); }
            break;
        }
        if (f->store && f->nt) viol("unfenced", f, "returns with %u non-temporal store(s) not yet ordered before later stores of this thread", f->nt);
        if (f->load && memcmp(f->oldb, mem, d.fp)) viol("load-writes", f, "source operand changed by the load");
        if (f->store) memcpy(sh, mem, d.fp);
        if (f->load && P == 6 && S.late.size() < 4 && memcmp(f->ret, ret, d.ret.size)) { std::vector<u8> x(f->oldb, f->oldb + d.fp); x.insert(x.end(), ret, ret + d.ret.size); S.late.push_back({(size_t)oi, x}); }
    }
    if (P == 12) {
        state_end(f, true);
        if (err1 != err0) viol("errno", f, "errno was %d before the call and is %d after", err0, err1);
        if (std::cout.flags() != ios0[0] || std::cerr.flags() != ios0[1]) { viol("side-effect", f, "formatting state of a standard stream changed"); std::cout.flags(ios0[0]); std::cerr.flags(ios0[1]); }
        if (xtag != 0xffff) viol("fp-control", f, "x87/MMX registers left in use, tag word %04x", xtag);
        if (eflags & 0x40400) viol("side-effect", f, "direction or alignment-check flag left set");
        if (cw1 != xcw) viol("fp-control", f, "x87 control word changed %04x -> %04x", xcw, cw1);
    }
    if ((P == 12 || P == 3 || P == 11) && ((mx1 ^ f->mx0) & ~0x3fu)) viol("fp-control", f, "floating-point control changed %04x -> %04x", f->mx0, mx1);
    rt->done = true;
    return out;
}
static int run_op(Co* c, int oi)
{
    const Op* op = &S.sc->ops[oi]; bool vb = S.verbose; if (op->burst > 8) S.verbose = false;
    for (u32 b = 0; b < op->burst && !S.rt[oi].skip && S.v.size() < 10; b++) { ST.burstCalls++; run_op1(c, oi, b + 1); if (S.ended) { S.verbose = vb; return S.endout; } }
    S.verbose = vb; if (op->burst > 8) LOG("[t%d] %u calls of %s before #%d", c->idx, op->burst, OPS[op->fn].name, op->id);
    return run_op1(c, oi, 0);
}
static bool deps_ready(Co* c)
{
    if (!S.inited && c->idx) return false;                      // other threads start after the library's initialisers
    auto& pr = S.prog[c->prog]; if (c->pos >= pr.size()) return true;
    for (int dep : S.sc->ops[pr[c->pos]].deps) { auto it = S.id2op.find(dep); if (it != S.id2op.end() && !S.rt[it->second].done) return false; }
    return true;
}
static void run_handler(int prog)
{
    Co* c = S.cur; Frame* f = c->frame;
    if (prog < S.sc->nthreads || prog >= S.sc->nprogs || f->level >= 18 || S.busy[prog] >= 0) return;   // a handler program runs once at a time (its operands are its own)
    S.busy[prog] = c->idx; S.busylv[prog] = f->level;
    for (int oi : S.prog[prog]) { run_op(c, oi); if (S.ended) for (;;) yield_main(); }
    S.busy[prog] = -1; c->frame = f; S.frame = f;
}
static void run_init()
{   // the library's own static initialisers, in order
    S.phase = "boot"; for (auto f : S.lib->init) try { f(); } catch (...) { }
    S.phase = 0; S.inited = true; ST.lateInits++;
}
static void thread_dtors(Co* c)
{   // the thread's thread-local objects and keys are destroyed, as when it ends
    S.phase = "thread-exit"; c->frame = 0; S.frame = 0;
    while (!c->tdtor.empty()) { auto d = c->tdtor.back(); c->tdtor.pop_back(); d.first(d.second); }
    for (int it = 0; it < 4; it++) { auto k = c->keys; c->keys.clear(); for (auto& e : k) { auto d = g_keydtor.find(e.first); if (e.second && d != g_keydtor.end() && d->second) d->second(e.second); } }
    S.phase = 0;
}
static void run_exit(Co* c, int n)
{   // exit(): thread-local objects of the calling thread, then exit handlers and static destructors newest first (n of them, 0: all), then the fini functions
    Frame* k = S.frame; if (n == 0 || n == 1) { thread_dtors(c); }
    S.frame = 0; S.phase = "exit"; int done = 0;
    while (!S.dtors.empty() && (n == 0 || done < n)) { auto d = S.dtors.back(); S.dtors.pop_back(); done++; ST.exitDtors++; try { d.f(d.p); } catch (...) { } }
    if (S.dtors.empty() && !S.finied && n == 0) { S.finied = true; for (auto i = S.lib->fini.rbegin(); i != S.lib->fini.rend(); ++i) { ST.exitDtors++; try { (*i)(); } catch (...) { } } }
    S.phase = 0; c->frame = k; S.frame = k;
}
static void thread_exit(Co* c)
{   // the simulated thread ends and the next repetition runs in a new one
    thread_dtors(c); ST.threadExits++;
    if (S.lib->tlssize) memcpy(S.lib->tls, S.lib->tlsimg.data(), S.lib->tlssize);
    void** g = (void**)abi::__cxa_get_globals(); g[0] = g[1] = 0;
}
static void warm_up(const Op& op, const OpRt& rt)
{   // a long history: the first call made sc.warm times without scheduling points, as one thread would; every result and side effect judged
    const OpDesc& d = OPS[op.fn]; void* fn = S.lib->fn[op.fn]; if (!fn || rt.skip) return;
    u8* mem = regp(NREG - 1) + 64; u8 keep[64], pre[64], ret[256]; memcpy(keep, mem, 64); if (d.fp) fill_pre(pre, d.fp, op.pre); std::vector<u8> a = bind_args(&op, mem), b = a;
    Frame fr; Frame* f = &fr; frame_setup(f, &op, 0); f->mx0 = 0x1f80; S.frame = f; u32 mxl = 0x1f80; S.phase = "warm"; g_warm = true; g_so = 0; g_fill = 64; int P = S.sc->prop;
    for (u32 i = 0; i < S.sc->warm; i++) {
        if (S.sc->vary) { b = a; vary_args(b, d, i); }
        if (d.fp) memcpy(mem, pre, d.fp);
        f->mx0 = i & 1 ? mxl : 0x1f80;
        errno = 33; int out = call_op(f->jb, d.thunk, fn, ret, b.data()); int err1 = errno; u32 mx1 = getmx(); setmx(0x1f80); S.frame = f; mxl = 0x1f80 | (mx1 & 0x3f);
        if (out != O_OK) { if (out == O_HANG) viol("no-progress", f, "call %u of a long history does not complete", i); else viol("bad-end", f, "call %u of a long history ends by %s", i, OUTNAME[out]); S.ended = true; break; }
        if (P == 12 && err1 != 33) viol("errno", f, "errno changed by call %u of a long history", i);
        if ((mx1 ^ 0x1f80) & ~0x3fu) viol("fp-control", f, "floating-point control changed by call %u of a long history", i);
        if (!S.sc->vary && ((rt.ret.size() == d.ret.size && memcmp(rt.ret.data(), ret, d.ret.size)) || (d.fp && rt.mem.size() == d.fp && memcmp(rt.mem.data(), mem, d.fp)))) viol("mismatch", f, "call %u of a long history does not do what the call alone does", i);
        if (S.v.size()) break;
    }
    g_warm = false; S.phase = 0; S.frame = 0; memcpy(mem, keep, 64); ST.warmCalls += S.sc->warm;
}
extern "C" __attribute__((used)) void co_main(Co* c)
{
    auto& pr = S.prog[c->prog];
    if (S.sc->warm && c->idx == 0 && c->rep == 0 && c->pos == 0 && !pr.empty()) { warm_up(S.sc->ops[pr[0]], S.rt[pr[0]]); if (S.ended) for (;;) yield_main(); if (S.sc->start) { S.want = S.sc->start; yield_main(); } }
    for (; c->rep < S.sc->repeat; c->rep++, c->pos = 0) {
        for (; c->pos < pr.size(); c->pos++) {
            if (!S.inited && c->idx == 0) { if (c->pos >= S.sc->early) { LOG("-- the library's own initialisers run"); run_init(); } else ST.earlyCalls++; }
            if (!deps_ready(c)) { c->st = C_DEPS; c->ready = deps_ready; c->waitp = 0; S.want = -1; while (!deps_ready(c)) yield_main(); c->st = C_RUN; }
            run_op(c, pr[c->pos]);
            if (S.ended) { for (;;) yield_main(); }
        }
        if (!S.inited && c->idx == 0) run_init();
        if (S.sc->newthreads) { thread_exit(c); c->gen++; }
        if (S.sc->prop == 13 && c->idx == 0) { S.livemarks.push_back(S.live + S.handles); S.livebytes.push_back(S.liveb); u64 n = S.livemarks.size(), R = S.sc->repeat; if (n == R / 2 || n == R) S.livefnmarks.push_back(std::vector<u32>(S.livefn, S.livefn + 600)); }
        if (S.sc->repeat > 1) { for (int oi : pr) { std::fill(S.rt[oi].fired.begin(), S.rt[oi].fired.end(), 0); } if (S.sc->prop == 13) for (int p = S.sc->nthreads; p < S.sc->nprogs; p++) for (int oi : S.prog[p]) std::fill(S.rt[oi].fired.begin(), S.rt[oi].fired.end(), 0); }
    }
    c->st = C_DONE; for (;;) yield_main();
}

// ------------------------------------------------------------------ solo execution (the call alone in a fresh process)
extern "C" void co_solo();
static struct { const Op* op; std::vector<u8> ret, mem; int out; u32 k, run; const u8* src; bool flip; u64 wr; } SO;
static void solo_body()
{
    const Op* op = SO.op; const OpDesc& d = OPS[op->fn]; Frame fr; Frame* f = &fr; Co* c = S.cur;
    frame_setup(f, op, 0); u8* mem = regp(NREG - 1) + 64; f->fp = (u64)mem; f->next = HANG_POINTS; f->mx0 = 0x1f80; c->frame = f; S.frame = f;
    if (d.fp) { if (SO.src) memcpy(mem, SO.src, d.fp); else fill_pre(mem, d.fp, op->pre); if (SO.flip) for (int i = 0; i < d.fp; i++) mem[i] ^= 0xff; }
    std::vector<u8> a = bind_args(op, mem); u8 ret[256]; memset(ret, 0, sizeof ret);
    g_so = 0; g_res = 0; g_fill = 5120; errno = 0; S.garbage = 0;
    SO.out = call_op(f->jb, d.thunk, S.lib->fn[op->fn], ret, a.data());
    S.active = false; setmx(0x1f80);
    SO.k = f->k; SO.run = f->runmax; SO.wr = f->wr; SO.ret.assign(ret, ret + d.ret.size); SO.mem.assign(mem, mem + d.fp); c->frame = 0; S.frame = 0; ST.solo++;
}
static void solo(const Op& op)
{
    image_restore(); S.solo = true; S.rnd = 0; S.clock = 1700000000ull * 1000000000ull; u32 t = S.tear, ch = S.chk; S.tear = S.chk = 0; u64 h = S.hash;
    u64 pts = S.points; S.points = 0; bool vb = S.verbose; S.verbose = false;
    SO.op = &op; co_make(SOLO, -1, false); Co* c = &S.co[SOLO];
    ((u64*)c->sp)[7] = (u64)co_solo;
    enter(c); c->st = C_FREE;
    S.solo = false; S.tear = t; S.chk = ch; S.hash = h; S.points = pts; S.verbose = vb;
}
asm(".text\n.globl co_solo\nco_solo:\n call co_solo_main\n ud2\n");
extern "C" __attribute__((used)) void co_solo_main() { solo_body(); for (;;) yield_main(); }

u32 engine_points(int lib, const Op& op, int)
{
    S.lib = &LIBS[lib]; S.libbase = S.lib->base; S.libsz = S.lib->hi - S.lib->base; S.sc = 0;
    solo(op); return std::max(1u, std::min(SO.k, 5000u));
}
// the call repeated alone n times: which repetitions take another path or give another result than the usual one (guides histories, no verdict)
static struct { u32 n; std::vector<u32>* rare; } HI;
static void history_body()
{
    const Op* op = SO.op; const OpDesc& d = OPS[op->fn]; Frame fr; Frame* f = &fr; Co* c = S.cur; u8* mem = regp(NREG - 1) + 64; u8 pre[64], ret[256], first[256]; if (d.fp) fill_pre(pre, d.fp, op->pre);
    std::vector<u8> a = bind_args(op, mem); std::vector<u16> k(HI.n); std::vector<bool> odd(HI.n); u32 n = 0; std::map<u16, u32> freq; u64 acc = 0;
    for (; n < HI.n && acc < 12000000; n++) {
        frame_setup(f, op, 0); f->fp = (u64)mem; f->next = HANG_POINTS; f->mx0 = 0x1f80; c->frame = f; S.frame = f; if (d.fp) memcpy(mem, pre, d.fp);
        memset(ret, 0, d.ret.size); g_so = 0; g_res = 0; g_fill = 64; errno = 0; S.garbage = 0; int out = call_op(f->jb, d.thunk, S.lib->fn[op->fn], ret, a.data()); S.active = false; setmx(0x1f80);
        k[n] = (u16)std::min(f->k, 65535u); acc += f->k + 10; if (n == 2) memcpy(first, ret, sizeof first); odd[n] = n > 2 && memcmp(first, ret, d.ret.size); freq[k[n]]++; if (out != O_OK) { odd[n] = true; n++; break; }
    }
    u16 usual = 0; u32 most = 0; for (auto& q : freq) if (q.second > most) { most = q.second; usual = q.first; }
    std::vector<u32> all; for (u32 i = 1; i < n; i++) if (odd[i] || k[i] != usual) all.push_back(i);
    for (size_t i = 0; i < all.size(); i++) if (i < 12 || all.size() < 40 || mix64(all[i]) % (all.size() / 20) == 0) HI.rare->push_back(all[i]);
    c->frame = 0; S.frame = 0;
}
extern "C" void co_history();
asm(".text\n.globl co_history\nco_history:\n call co_history_main\n ud2\n");
extern "C" __attribute__((used)) void co_history_main() { history_body(); for (;;) yield_main(); }
std::vector<u32> engine_history(int lib, const Op& op, u32 n)
{
    S.lib = &LIBS[lib]; S.libbase = S.lib->base; S.libsz = S.lib->hi - S.lib->base; S.sc = 0; std::vector<u32> rare; HI.n = n; HI.rare = &rare;
    image_restore(); S.solo = true; S.rnd = 0; S.clock = 1700000000ull * 1000000000ull; u32 t = S.tear, ch = S.chk; S.tear = S.chk = 0; u64 h = S.hash, pts = S.points; S.points = 0; bool vb = S.verbose; S.verbose = false;
    SO.op = &op; co_make(SOLO, -1, false); Co* c = &S.co[SOLO]; ((u64*)c->sp)[7] = (u64)co_history;
    enter(c); c->st = C_FREE;
    S.solo = false; S.tear = t; S.chk = ch; S.hash = h; S.points = pts; S.verbose = vb; return rare;
}
// calls one after another in one process (guides histories, no verdict). Calls with other operands that leave the same unusual words in the
// library's memory are candidates for a weak key; those of which the second then gives another result than alone are returned
static struct { const Op* const* ops; size_t n; bool log; std::vector<std::pair<u64, u32>> words; std::vector<u8> ret, mem; } CL;
static void collide_body()
{
    Co* c = S.cur; u8* mem = regp(NREG - 1) + 64; std::vector<std::pair<u64, u32>> wl;
    for (size_t i = 0; i < CL.n; i++) {
        const Op* op = CL.ops[i]; const OpDesc& d = OPS[op->fn]; Frame fr; Frame* f = &fr; u8 ret[256]; std::vector<u8> a = bind_args(op, mem);
        frame_setup(f, op, 0); f->fp = (u64)mem; f->next = HANG_POINTS; f->mx0 = 0x1f80; c->frame = f; S.frame = f; if (d.fp) fill_pre(mem, d.fp, op->pre);
        memset(ret, 0, d.ret.size); g_so = 0; g_res = 0; g_fill = 64; errno = 0; S.garbage = 0; wl.clear(); S.wl = CL.log ? &wl : 0;
        int out = call_op(f->jb, d.thunk, S.lib->fn[op->fn], ret, a.data()); S.active = false; S.wl = 0; setmx(0x1f80); if (out != O_OK) break;
        for (auto& w : wl) for (u32 n : {4, 8}) for (u32 o = 0; o + n <= w.second && o < 64; o += n) {
            u64 v = 0; memcpy(&v, (void*)(w.first + o), n); if (v + 4096 > 8192 && CL.words.size() < 6000000) CL.words.push_back({v, (u32)i});
        }
        CL.ret.assign(ret, ret + d.ret.size); CL.mem.assign(mem, mem + d.fp);
    }
    c->frame = 0; S.frame = 0;
}
extern "C" void co_collide();
asm(".text\n.globl co_collide\nco_collide:\n call co_collide_main\n ud2\n");
extern "C" __attribute__((used)) void co_collide_main() { collide_body(); for (;;) yield_main(); }
static void sequence(const Op* const* ops, size_t n, bool log)
{
    image_restore(); S.solo = true; S.rnd = 0; S.clock = 1700000000ull * 1000000000ull; u32 t = S.tear, ch = S.chk; S.tear = S.chk = 0; u64 h = S.hash, pts = S.points; S.points = 0; bool vb = S.verbose; S.verbose = false;
    CL.ops = ops; CL.n = n; CL.log = log; co_make(SOLO, -1, false); Co* c = &S.co[SOLO]; ((u64*)c->sp)[7] = (u64)co_collide;
    enter(c); c->st = C_FREE; S.solo = false; S.tear = t; S.chk = ch; S.hash = h; S.points = pts; S.verbose = vb;
}
std::vector<std::pair<u32, u32>> engine_collide(int lib, const std::vector<Op>& ops)
{
    S.lib = &LIBS[lib]; S.libbase = S.lib->base; S.libsz = S.lib->hi - S.lib->base; S.sc = 0; std::vector<std::pair<u32, u32>> bad; std::vector<const Op*> p; for (auto& o : ops) p.push_back(&o);
    CL.words.clear(); sequence(p.data(), p.size(), true); std::vector<std::pair<u64, u32>> w; w.swap(CL.words); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end());
    int tries = 0, groups = 0; for (size_t i = 0, j; i < w.size(); i = j) { for (j = i; j < w.size() && w[j].first == w[i].first; j++) {} if (j - i > 1 && j - i < 7) groups++; }
    for (size_t i = 0, j; i < w.size() && tries < 6000 && bad.size() < 24; i = j) {
        for (j = i; j < w.size() && w[j].first == w[i].first; j++) {}
        if (j - i < 2 || j - i > 6 || (groups > 3000 && mix64(w[i].first) % (groups / 1500))) continue;
        for (size_t k = i; k + 1 < j && k < i + 3; k++) for (int s = 0; s < 2; s++) {
            u32 a = w[k + s].second, b = w[k + 1 - s].second; tries++; if (ops[a].args == ops[b].args && ops[a].pre == ops[b].pre) continue;
            const Op* one = &ops[b]; sequence(&one, 1, false); std::vector<u8> r = CL.ret, m = CL.mem; const Op* two[2] = {&ops[a], &ops[b]}; sequence(two, 2, false);
            if (r != CL.ret || m != CL.mem) bad.push_back({a, b});
        }
    }
    return bad;
}
int lib_index(const std::string& v) { for (size_t i = 0; i < LIBS.size(); i++) if (LIBS[i].variant == v) return (int)i; return -1; }

// ------------------------------------------------------------------ running a scenario
static void protect(bool on)
{
    for (int p = 0; p < NREG * REGPAGES; p++) {
        bool ab = S.absent >> p & 1, ro = S.rdonly >> p & 1; if (!ab && !ro) continue;
        mprotect(regp(p / REGPAGES) + p % REGPAGES * PAGE, PAGE, !on ? PROT_READ | PROT_WRITE : ab ? PROT_NONE : PROT_READ);
    }
}
static void arena_compare(const char* when)
{   // the whole arena, outside operands of calls in flight, must be exactly what completed stores and agents made it
    static u8 skip[NREG * REGBYTES]; bool any = false;
    for (auto& c : S.co) if (c.st != C_FREE) for (Frame* f = c.frame; f; f = f->prev) if (f->fplen) { int o = f->op->reg * REGBYTES + f->op->off; memset(skip + o, 1, f->fplen); any = true; }
    for (int r = 0; r < NREG; r++) {
        if (!any && !memcmp(regp(r), S.shadow + r * REGBYTES, REGBYTES)) continue;
        for (int i = 0; i < REGBYTES; i++) {
            int o = r * REGBYTES + i; if (skip[o] || regp(r)[i] == S.shadow[o]) continue;
            const Op* near = 0; for (auto& op : S.sc->ops) if (op.reg == r && OPS[op.fn].fp && S.rt[&op - &S.sc->ops[0]].execs && abs(op.off - i) < 80 && (!near || abs(near->off - i) > abs(op.off - i))) near = &op;
            Frame fk; memset(&fk, 0, sizeof fk); if (near) { fk.op = near; fk.d = &OPS[near->fn]; }
            viol("lost-or-stray", near ? &fk : 0, "%s: byte %d of region %d holds %02x, must hold %02x", when, i, r, regp(r)[i], S.shadow[o]);
            memset(skip, 0, sizeof skip); return;
        }
    }
    if (any) memset(skip, 0, sizeof skip);
}
static void schedule()
{
    const Scenario& sc = *S.sc; int last = sc.start - 1; u64 guard = 0; bool released = false; if (sc.warm) S.want = 0;   // the history comes first
    for (;;) {
        if (S.ended || S.crash || ++guard > 400000) break;
        if (sc.newthreads && sc.prop != 13) for (int i = 0; i < sc.nthreads; i++) if (S.co[i].st == C_DEAD && S.co[i].rep + 1 < sc.repeat) {   // a new thread goes on with the dead one's next repetition
            u32 rep = S.co[i].rep + 1; for (int p = 0; p < MAXPROG; p++) if (S.busy[p] == i) S.busy[p] = -1;
            co_make(i, i, sc.tiny[i], true); S.co[i].pos = 0; S.co[i].rep = rep; ST.respawns++; S.co[i].gen++; for (int oi : S.prog[i]) std::fill(S.rt[oi].fired.begin(), S.rt[oi].fired.end(), 0); LOG("[t%d] a new thread", i);
        }
        int pick = -1;
        auto ok = [&](int i) { Co& c = S.co[i]; if (i >= sc.nthreads) return false; if (c.st == C_RUN) return true; return (c.st == C_BLOCK || c.st == C_DEPS) && c.ready(&c); };
        if (S.want >= 0 && S.want < sc.nthreads && ok(S.want)) pick = S.want;
        S.want = -1;
        for (int j = 1; pick < 0 && j <= sc.nthreads; j++) { int i = (last + j) % sc.nthreads; if (ok(i)) pick = i; }
        if (pick < 0) {
            bool stalled = false, blocked = false, dead = false; Co* b = 0;
            for (int i = 0; i < sc.nthreads; i++) { CoState s = S.co[i].st; stalled |= s == C_STALL; dead |= s == C_DEAD; if (s == C_BLOCK) { blocked = true; b = &S.co[i]; } }
            if (blocked && (stalled || dead)) { viol("blocked", b->frame, "call in thread %d waits for a thread that is %s inside a call", b->idx, stalled ? "suspended" : "dead"); break; }
            if (blocked) { viol("deadlock", b->frame, "thread %d waits inside a call and no thread can run", b->idx); break; }
            if (stalled) { for (auto& c : S.co) if (c.st == C_STALL) c.st = C_RUN; released = true; continue; }
            break;
        }
        last = pick; Co& c = S.co[pick]; mixh(0x5C4ED000 + pick);
        enter(&c);
    }
    (void)released;
}
static void arena_fill(u64 seed) { Rng r(seed); u64* s = (u64*)S.shadow; for (size_t i = 0; i < sizeof S.shadow / 8; i++) s[i] = r.next(); for (int i = 0; i < NREG; i++) memcpy(regp(i), S.shadow + i * REGBYTES, REGBYTES); }

RunResult engine_run(const Scenario& sc, bool verbose)
{
    RunResult R; int li = lib_index(sc.variant); if (li < 0) { fprintf(stderr, "unknown variant %s\n", sc.variant.c_str()); _exit(3); }
    S.lib = &LIBS[li]; S.libbase = S.lib->base; S.libsz = S.lib->hi - S.lib->base; S.sc = &sc; S.verbose = verbose; S.v.clear(); S.runserial++;
    S.hash = 0x1234567; S.sched = mix64(sc.nthreads); S.points = 0; S.want = -1; S.ended = S.crash = false; S.sechits = S.sefail = 0; S.handles = 0; S.late.clear(); for (int& b : S.busy) b = -1; S.livemarks.clear(); S.livebytes.clear(); S.livefnmarks.clear();
    S.model = sc.prop >= 5 && sc.prop <= 8; bool model9 = sc.prop == 9; if (model9) S.model = true;
    S.poll = sc.prop == 4; S.tear = sc.prop == 7; S.chk = sc.prop == 5 ? 1 : sc.prop == 6 ? 6 : sc.prop == 9 ? 8 : 0; S.tso = false; for (auto& a : sc.acts) S.tso |= a.kind == A_SWITCH && a.b > 0; S.absent = sc.absent; S.rdonly = sc.rdonly;
    ST.runs++;
    S.rt.assign(sc.ops.size(), OpRt()); S.id2op.clear(); S.prog.assign(sc.nprogs, {});
    for (size_t i = 0; i < sc.ops.size(); i++) { S.id2op[sc.ops[i].id] = (int)i; S.prog[sc.ops[i].prog].push_back((int)i); }
    for (auto& a : sc.acts) { auto it = S.id2op.find(a.op); ST.acts[a.kind]++; if (it != S.id2op.end()) S.rt[it->second].acts.push_back(a); }
    for (auto& r : S.rt) { std::stable_sort(r.acts.begin(), r.acts.end(), [](const Act& x, const Act& y) { return x.k < y.k; }); r.fired.assign(r.acts.size(), 0); }
    // expectation of each call: the call alone in a fresh process (memory operands under C05-C08: the reference model)
    for (size_t i = 0; i < sc.ops.size(); i++) {
        const Op& op = sc.ops[i]; OpRt& rt = S.rt[i];
        if (!S.lib->fn[op.fn]) { rt.skip = true; continue; }
        if (op.invalid || (S.model && OPS[op.fn].dir != M_NONE && sc.prop != 7)) continue;
        SO.src = 0; SO.flip = false; solo(op);
        if (SO.out != O_OK) {
            if (sc.prop == 4 && SO.out == O_HANG) { Frame fk; memset(&fk, 0, sizeof fk); fk.op = &op; fk.d = &OPS[op.fn]; viol("no-progress", &fk, "call does not complete, alone in the process"); }
            if (sc.prop == 9) { Frame fk; memset(&fk, 0, sizeof fk); fk.op = &op; fk.d = &OPS[op.fn]; if (SO.out == O_HANG) viol("bad-end", &fk, "valid call does not complete"); else viol("bad-end", &fk, "valid call alone in the process ends by %s", OUTNAME[SO.out]); }
            rt.skip = true; continue;
        }
        rt.ret = SO.ret; rt.mem = SO.mem; rt.run = SO.run;
        if (sc.prop == 7 && OPS[op.fn].dir == M_ST) { SO.flip = true; solo(op); SO.flip = false; rt.det.resize(rt.mem.size()); for (size_t j = 0; j < rt.mem.size(); j++) rt.det[j] = SO.out == O_OK && SO.mem[j] == rt.mem[j]; }
    }
    arena_fill(sc.arena_seed); image_restore(!sc.early); g_state.clear(); g_chg.clear(); g_left.clear(); S.clock = sc.clock0; S.rnd = mix64(sc.seed); for (auto& c : S.co) { c.st = C_FREE; c.frame = 0; c.gen = 0; }
    for (int i = 0; i < sc.nthreads; i++) { co_make(i, i, sc.tiny[i]); S.co[i].pos = 0; S.co[i].rep = 0; }
    for (int i = 0; i < sc.nthreads; i++) if (sc.tiny[i] && S.lib->tlssize > TINYSIZE - 4096) { viol("bad-end", 0, "no thread can be created with a 16 KiB stack: the library's thread-local storage takes %zu bytes of it", S.lib->tlssize); break; }
    if (S.absent | S.rdonly) protect(true);
    for (int life = 0; life < 8; life++) {
        schedule();
        if (!S.crash) break;
        // ---- the process crashed: only the arena (durable) survives
        ST.restarts++; LOG("-- crash: library state, heap, stacks lost; caller memory survives; restart");
        if (S.absent | S.rdonly) protect(false);
        S.verbose = verbose;
        if (S.model) { for (auto& c : S.co) if (c.st != C_FREE) for (Frame* f = c.frame; f; f = f->prev) if (f->store) { u32 k = f->k; f->k = k; tear_check(f); } arena_compare("after the crash"); }
        S.absent = S.rdonly = 0;
        // bytes of interrupted stores: the durable mix becomes the pre-image of the re-executed store
        for (auto& c : S.co) if (c.st != C_FREE) for (Frame* f = c.frame; f; f = f->prev) if (f->store && S.model) memcpy(S.shadow + f->op->reg * REGBYTES + f->op->off, (void*)f->fp, f->fplen);
        S.crash = false; S.want = -1; image_restore(); for (int& b : S.busy) b = -1;
        for (int i = 0; i < sc.nthreads; i++) { size_t pos = S.co[i].pos; u32 rep = S.co[i].rep; bool done = S.co[i].st == C_DONE; co_make(i, i, sc.tiny[i]); S.co[i].pos = pos; S.co[i].rep = rep; if (done) S.co[i].st = C_DONE; }
    }
    if (S.absent | S.rdonly) protect(false);
    if (S.model) arena_compare("at the end");
    for (auto& l : S.late) {                                    // C05, C06. C06: did anything but the source bytes decide the result?
        const Op& op = sc.ops[l.first]; int fp = OPS[op.fn].fp; SO.src = l.second.data(); solo(op); SO.src = 0;
        if (sc.prop == 5) {                                    // C05: a byte that already held its final value and was not seen written. Is the write visible at all when the value changes?
            int i = l.second.back(); u8 want = l.second[i] ^ 0xff;
            if (SO.out == O_OK && SO.mem[i] == want && !(SO.wr >> i & 1)) continue;
            Frame fk; memset(&fk, 0, sizeof fk); fk.op = &op; fk.d = &OPS[op.fn]; viol("not-written", &fk, "destination byte %d is not written when it already holds its final value", i); continue;
        }
        if (SO.out == O_OK && memcmp(SO.ret.data(), l.second.data() + fp, SO.ret.size())) { Frame fk; memset(&fk, 0, sizeof fk); fk.op = &op; fk.d = &OPS[op.fn]; viol("disturbed", &fk, "result differs from what the same load of the same source bytes returns undisturbed"); }
    }
    if (sc.prop == 13 && S.livemarks.size() >= 8) {
        auto& m = S.livemarks; size_t n = m.size(); u64 a = m[n / 2 - 1], b = m[n * 3 / 4 - 1], c = m[n - 1];
        auto& y = S.livebytes; u64 ya = y[n / 16], yb = y[n / 4], yc = y[n - 1]; bool bytes = yc > 512 && ya * 2 < yb && yb * 2 < yc && yc > y[n / 2];
        if ((a < b && b < c) || bytes) {
            int blame = -1; u32 best = 0;
            if (S.livefnmarks.size() == 2) for (int i = 0; i < NOPS; i++) { u32 x = S.livefnmarks[0][i], y = S.livefnmarks[1][i]; if (y > x && y - x > best) { best = y - x; blame = i; } }
            const Op* bo = 0; for (auto& o : sc.ops) if (o.fn == blame) { bo = &o; break; }
            Frame fk; memset(&fk, 0, sizeof fk); if (bo) { fk.op = bo; fk.d = &OPS[blame]; }
            if (!(a < b && b < c)) viol("growth", bo ? &fk : 0, "what the library holds grows with repetition: %llu, %llu, %llu bytes held after 1/16, 1/4 and all of %zu repetitions", (unsigned long long)ya, (unsigned long long)yb, (unsigned long long)yc, n);
            else viol("growth", bo ? &fk : 0, "what the library holds grows with repetition: %llu, %llu, %llu live allocations and handles after 1/2, 3/4 and all of %zu repetitions", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, n);
        }
    }
    R.v = S.v; R.hash = S.hash; R.sched = S.sched; S.sc = 0; S.simsteps += S.points;
    return R;
}

// ------------------------------------------------------------------ signals
static void on_segv(int sig, siginfo_t* si, void* uc_)
{
    ucontext_t* uc = (ucontext_t*)uc_; u64 a = (u64)si->si_addr;
    if (sig == SIGSEGV && a - ARENA < ARENA_SZ) {
        int r = (int)((a - ARENA) / REGSTRIDE); i64 o = (i64)((a - ARENA) % REGSTRIDE) - PAGE;
        if (o >= 0 && o < REGBYTES) {
            int p = r * REGPAGES + (int)(o / PAGE);
            if (S.absent >> p & 1) {
                S.absent &= ~(1u << p); ST.pageFaults++; mprotect(regp(r) + o / PAGE * PAGE, PAGE, PROT_READ | PROT_WRITE); mixh(0xFA017 + p);
                if (S.sc && S.sc->faultserv == FS_RETRY && S.active && S.frame && !S.solo) { S.active = false; Frame* f = S.frame; uc->uc_mcontext.gregs[REG_RIP] = (greg_t)jump_op; uc->uc_mcontext.gregs[REG_RDI] = (greg_t)f->jb; uc->uc_mcontext.gregs[REG_RSI] = O_RETRY; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; }
                return;
            }
        }
    }
    if (S.frame && S.cur) {                                     // inside a library call (or its seam): the call ends
        S.active = false; Frame* f = S.frame; mixh(0x5E6 + sig);
        uc->uc_mcontext.gregs[REG_RIP] = (greg_t)jump_op; uc->uc_mcontext.gregs[REG_RDI] = (greg_t)f->jb;
        uc->uc_mcontext.gregs[REG_RSI] = sig == SIGSEGV || sig == SIGBUS ? O_FAULT : sig == SIGABRT ? O_ABORT : O_TRAP; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return;
    }
    const char m[] = "nsim: fatal signal in harness\n"; ssize_t x = ::write(2, m, sizeof m - 1); (void)x; _exit(70);
}
static volatile u64 g_tickserial, g_tickcount; static u64 g_tickcalls;
static void on_tick(int, siginfo_t*, void* uc_)
{
    u64 calls = ST.calls + ST.solo;
    if (calls != g_tickcalls || !S.active || !S.frame) { g_tickcalls = calls; g_tickcount = 0; return; }
    if (++g_tickcount < 6) return;                              // 3 s of CPU time inside one call without returning
    g_tickcount = 0; ucontext_t* uc = (ucontext_t*)uc_; S.active = false;
    uc->uc_mcontext.gregs[REG_RIP] = (greg_t)jump_op; uc->uc_mcontext.gregs[REG_RDI] = (greg_t)S.frame->jb; uc->uc_mcontext.gregs[REG_RSI] = O_HANG; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100;
}

// ------------------------------------------------------------------ asm variant: the shipped -O2 instructions, a point before every one
// tools/build.py inserts "lea -128(%rsp),%rsp; call nsim_step; lea 128(%rsp),%rsp" into the compiler's assembly output
extern "C" __attribute__((used, target("general-regs-only"))) int step_fast(u64 rip)
{
    if (!S.active) return 0;
    Frame* f = S.frame; f->k++; S.points++; mixh(rip - S.libbase);
    return f->k >= f->next || (S.tear && f->store);
}
extern "C" __attribute__((used)) void step_slow() { Frame* f = S.frame; ST.stepped++; if (S.tear && f->store) tear_check(f); if (f->k >= f->next) slow_point(f); }
asm(R"(
.text
.globl nsim_step
.type nsim_step,@function
nsim_step:
 pushfq
 push %rax; push %rcx; push %rdx; push %rsi; push %rdi; push %r8; push %r9; push %r10; push %r11; push %rbp
 mov %rsp,%rbp
 mov 88(%rsp),%rdi
 and $-16,%rsp
 cld
 call step_fast
 test %eax,%eax
 jnz 2f
3:
 mov %rbp,%rsp
 pop %rbp; pop %r11; pop %r10; pop %r9; pop %r8; pop %rdi; pop %rsi; pop %rdx; pop %rcx; pop %rax
 popfq
 ret
2:
 sub $512,%rsp
 fxsave (%rsp)
 call step_slow
 fxrstor (%rsp)
 jmp 3b
)");

// ------------------------------------------------------------------ instructions that are seams (tools/build.py, asm_seams)
extern "C" __attribute__((used)) u64 seam_tsc() { Out o; return tick(); }
extern "C" __attribute__((used)) u64 seam_rdrand() { Out o; return rnd(); }
extern "C" __attribute__((used)) u64 seam_nt() { if (S.active && S.frame) S.frame->nt++; return 0; }
extern "C" __attribute__((used)) u64 seam_fence() { if (S.active && S.frame) S.frame->nt = 0; return 0; }
#define SEAM_ASM(name, fn, result) asm(".text\n.globl " name "\n.type " name ",@function\n" name ":\n pushfq\n push %rax; push %rdx; push %rcx; push %rsi; push %rdi; push %r8; push %r9; push %r10; push %r11; push %rbp\n" \
    " mov %rsp,%rbp\n and $-16,%rsp\n sub $512,%rsp\n fxsave (%rsp)\n cld\n call " fn "\n fxrstor (%rsp)\n mov %rbp,%rsp\n" result \
    " pop %rbp; pop %r11; pop %r10; pop %r9; pop %r8; pop %rdi; pop %rsi; pop %rcx; pop %rdx; pop %rax\n popfq\n ret\n")
SEAM_ASM("nsim_rdtsc_asm", "seam_tsc", " mov %rax,%rcx\n shr $32,%rcx\n mov %eax,%eax\n mov %rcx,64(%rsp)\n mov %rax,72(%rsp)\n");
SEAM_ASM("nsim_rdtscp_asm", "seam_tsc", " mov %rax,%rcx\n shr $32,%rcx\n mov %eax,%eax\n mov %rcx,64(%rsp)\n mov %rax,72(%rsp)\n movq $0,56(%rsp)\n");
SEAM_ASM("nsim_rdrand_asm", "seam_rdrand", " mov %rax,72(%rsp)\n");
SEAM_ASM("nsim_nt_asm", "seam_nt", "");
SEAM_ASM("nsim_fence_asm", "seam_fence", "");

// ------------------------------------------------------------------ start-up
static void mapfix(u64 a, size_t n, int prot)
{
    if (mmap((void*)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) { perror("mmap"); _exit(3); }
}
void engine_init()
{
    mapfix(ARENA, ARENA_SZ, PROT_NONE); for (int r = 0; r < NREG; r++) mapfix((u64)regp(r), REGBYTES, PROT_READ | PROT_WRITE);
    mapfix(STK, STK_SZ, PROT_NONE);
    for (int i = 0; i < NCO; i++) { mapfix(STK + i * STKSTRIDE + STKSTRIDE / 2, STKSIZE, PROT_READ | PROT_WRITE); mapfix(STK + (NCO + i) * STKSTRIDE + STKSTRIDE / 2, TINYSIZE, PROT_READ | PROT_WRITE); }
    mapfix(HEAP, HEAP_SZ, PROT_READ | PROT_WRITE);
    static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sa.sa_sigaction = on_segv;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
    sa.sa_sigaction = on_tick; sa.sa_flags |= SA_RESTART; sigaction(SIGPROF, &sa, 0);
    itimerval it = {{0, 500000}, {0, 500000}}; setitimer(ITIMER_PROF, &it, 0);
    static SimBuf b0(false), b1(true); std::cout.rdbuf(&b0); std::cerr.rdbuf(&b1); std::clog.rdbuf(&b1);
}
struct PhdrArg { u64 base; Lib* l; };
static int phdr_cb(dl_phdr_info* i, size_t, void* arg)
{
    PhdrArg* a = (PhdrArg*)arg; if (i->dlpi_addr != a->base) return 0;
    Lib* l = a->l; u64 rlo = 0, rhi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_GNU_RELRO) { rlo = a->base + p.p_vaddr; rhi = (rlo + p.p_memsz + PAGE - 1) & ~(u64)(PAGE - 1); rlo &= ~(u64)(PAGE - 1); rhi = (a->base + p.p_vaddr + p.p_memsz) & ~(u64)(PAGE - 1); } }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD) {
            u64 lo = a->base + p.p_vaddr, hi = lo + p.p_memsz; l->hi = std::max(l->hi, hi);
            if (p.p_flags & PF_X) { l->tlo = lo; l->thi = hi; }
            if (p.p_flags & PF_W) { if (rhi > lo && rlo <= lo) lo = std::min(hi, rhi); if (hi > lo) { Lib::Seg s; s.p = (u8*)lo; s.n = hi - lo; s.pre.assign(s.p, s.p + s.n); l->segs.push_back(s); } }
        }
        if (p.p_type == PT_TLS) { l->tlsmod = i->dlpi_tls_modid; l->tlssize = p.p_memsz; }
    }
    return 1;
}
extern "C" void* __tls_get_addr(void*);
bool lib_load(const std::string& variant, const std::string& path, std::string& err)
{
    Lib l; l.variant = variant; l.path = path; l.base = l.lo = l.hi = l.tlo = l.thi = 0; l.tlsmod = l.tlssize = 0; l.tls = 0; l.bootheap = 0; l.step = variant.find("asm") == 0;
    S.lib = 0; heap_reset(); S.phase = "boot"; S.dtors.clear();
    l.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); S.phase = 0;   // its initialisers do not run yet (tools/build.py, defer_init)
    if (!l.h) { err = dlerror(); return false; }
    link_map* lm = 0; dlinfo(l.h, RTLD_DI_LINKMAP, &lm); l.base = lm->l_addr;
    PhdrArg a = {l.base, &l}; dl_iterate_phdr(phdr_cb, &a);
    if (l.tlssize) { size_t idx[2] = {l.tlsmod, 0}; l.tls = (u8*)__tls_get_addr(idx); l.tlsimg.assign(l.tls, l.tls + l.tlssize); }
    { u64 ia = 0, fa = 0, in = 0, fn = 0; for (ElfW(Dyn)* d = lm->l_ld; d->d_tag != DT_NULL; d++) switch (d->d_tag) { case 0x60001019: ia = d->d_un.d_val; break; case 0x6000101b: in = d->d_un.d_val; break; case 0x6000101a: fa = d->d_un.d_val; break; case 0x6000101c: fn = d->d_un.d_val; break; }
      for (u64 i = 0; i < in / 8; i++) { auto f = ((void (**)())(l.base + ia))[i]; if (f && f != (void (*)())-1) l.init.push_back(f); }
      for (u64 i = 0; i < fn / 8; i++) { auto f = ((void (**)())(l.base + fa))[i]; if (f && f != (void (*)())-1) l.fini.push_back(f); } }
    S.phase = "boot"; for (auto f : l.init) f(); S.phase = 0;
    for (auto& s : l.segs) s.img.assign(s.p, s.p + s.n);
    if (l.tlssize) l.maintls.assign(l.tls, l.tls + l.tlssize);
    l.bootdtors = S.dtors; l.bootheap = S.heapbump; l.heapimg.assign((u8*)HEAP, (u8*)HEAP + l.bootheap);
    for (int i = 0; i < NOPS; i++) { void* f = dlsym(l.h, OPS[i].sym); l.fn.push_back(f ? f : dlsym(l.h, (std::string("nsimshim_") + OPS[i].sym).c_str())); }   // the second if the header defines it
    LIBS.push_back(l); return true;
}
