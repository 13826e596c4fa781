#!/usr/bin/env python3
"""sensitivity.py KIND [seconds]: measures, intrinsic by intrinsic, what the search of one property can detect.
A scratch copy of neon_sim.cpp gets the same kind of defect in EVERY intrinsic at once (each behind a wrapper); the search runs over it without
stopping, and the first detecting run of every intrinsic is recorded. Not a check: a measurement of the checks. Prints the intrinsics missed."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); OPS = json.load(open(V + "/spec/ops.json")); SRC = open("/repo/neon_sim.cpp").read()
BY = {}
for o in OPS: BY.setdefault(o["name"].replace("_cxx", ""), []).append(o)
FIX = ("#include <pthread.h>\n#include <errno.h>\n#include <xmmintrin.h>\n#include <vector>\n#include <time.h>\n"
       "template <class T> static inline unsigned char* B_(T& x) { return (unsigned char*)&x; }\n")
# KIND: property, text of the wrapper; C = call of the original, R = result type, A0 = first non-pointer argument, P = pointer, FP = operand bytes, I = immediate
def w_static_arg(f): # C01: operand parked in a shared static
    return "static %s s_; s_ = %s; asm volatile(\"\" ::: \"memory\"); %s" % (f.t0, f.a0, f.callwith("s_")) if f.a0 else "static %s s_; s_ = %s; asm volatile(\"\" ::: \"memory\"); return s_;" % (f.ret, f.call)
def w_static_ret(f): return "static %s s_; s_ = %s; asm volatile(\"\" ::: \"memory\"); return s_;" % (f.ret, f.call) if f.ret != "void" else None
def w_tls_arg(f): return w_static_arg(f).replace("static ", "static thread_local ", 1)
def w_count(n): return lambda f: "static int n_; %s r_ = %s; if (++n_ %% %d == 0) B_(r_)[0] ^= 1; return r_;" % (f.ret, f.call, n) if f.ret != "void" else None
def w_memo16(f): # memo compares only the first byte
    return "static thread_local %s k_; static thread_local %s v_; static thread_local bool on_; if (on_ && B_(k_)[0] == B_(%s)[0] && B_(k_)[1] == B_(%s)[1]) return v_; k_ = %s; v_ = %s; on_ = true; return v_;" % (f.t0, f.ret, f.a0, f.a0, f.a0, f.call) if f.ret != "void" and f.a0 and not f.more else None
def w_uninit(f): return "%s r_ = %s; %s u_; asm volatile(\"\" : \"+m\"(u_)); if (B_(%s)[0] >= 0xf0) B_(r_)[sizeof r_ - 1] = B_(u_)[sizeof u_ - 1]; return r_;" % (f.ret, f.call, f.ret, f.a0) if f.ret != "void" and f.a0 else None
def w_mutex(f): return "static pthread_mutex_t m_ = PTHREAD_MUTEX_INITIALIZER; struct G_ { G_() { pthread_mutex_lock(&m_); } ~G_() { pthread_mutex_unlock(&m_); } } g_; return %s;" % f.call
def w_spinrare(f): return "static volatile int l_; if (B_(%s)[0] == 0xff) { while (__atomic_exchange_n(&l_, 1, __ATOMIC_ACQUIRE)) {} struct G_ { ~G_() { __atomic_store_n(&l_, 0, __ATOMIC_RELEASE); } } g_; return %s; } return %s;" % (f.a0, f.call, f.call) if f.a0 else None
def w_wrback(f): return "%s; volatile char* q_ = (volatile char*)ptr + %d; *q_ = *q_;" % (f.call, f.fp) if f.dir == "st" else None
def w_wrbackrare(f): return "%s; if (((unsigned long)ptr & 15) == 5) { volatile char* q_ = (volatile char*)ptr - 1; *q_ = *q_; }" % f.call if f.dir == "st" else None
def w_skipeq(f): return "%s x_[%d / sizeof(%s)]; memcpy(x_, ptr, sizeof x_); %s; for (int i = 0; i < int(sizeof x_ / sizeof x_[0]); i++) {}" % ("x", 1, "x", f.call) if 0 else None
def w_overread(f): return "volatile char c_ = ((volatile const char*)ptr)[%d]; (void)c_; return %s;" % (f.fp, f.call) if f.dir == "ld" else None
def w_overreadpage(f): return "if (((unsigned long)ptr & 63) + %d < 60) { volatile char c_ = ((volatile const char*)ptr)[%d]; (void)c_; } return %s;" % (f.fp, f.fp, f.call) if f.dir == "ld" else None
def w_zero(f): return "((volatile char*)ptr)[%d] = 0; %s;" % (f.fp - 1, f.call) if f.dir == "st" else None
def w_twice(f): return "char o_[%d]; memcpy(o_, ptr, %d); %s; asm volatile(\"\" ::: \"memory\"); if (B_(%s)[0] == o_[0]) return; ((volatile char*)ptr)[0] ^= 1; ((volatile char*)ptr)[0] ^= 1;" % (f.fp, f.fp, f.call, f.a0) if f.dir == "st" and f.a0 else None
def w_flip_ld(f): return "%s r_ = %s; if ((B_(r_)[0] & 0x1f) == 5) B_(r_)[sizeof r_ - 1] ^= 4; return r_;" % (f.ret, f.call) if f.dir == "ld" else "%s; if ((((unsigned char*)ptr)[0] & 0x1f) == 5) ((unsigned char*)ptr)[%d] ^= 4;" % (f.call, f.fp - 1) if f.dir == "st" else None
def w_flip_addr(f): return "%s r_ = %s; if (((unsigned long)ptr & 4095) > 4096 - %d) B_(r_)[sizeof r_ - 1] ^= 4; return r_;" % (f.ret, f.call, f.fp) if f.dir == "ld" and f.fp > 1 else "%s; if (((unsigned long)ptr & 4095) > 4096 - %d) ((unsigned char*)ptr)[%d] ^= 4;" % (f.call, f.fp, f.fp - 1) if f.dir == "st" and f.fp > 1 else None
def w_accept(k): return lambda f: "const int m_ = %s == %d ? %d : %s; return %s;" % (f.i, {"hi": f.hi + 1, "lo": f.lo - 1}[k], f.hi, f.i, f.call_imm) if f.i and f.validated and not (k == "hi" and f.hi + 1 in f.tol) else None
def w_trunc(f): return "const int m_ = (signed char)%s; return %s;" % (f.i, f.call_imm) if f.i and f.validated else None
def w_reject(f): return "if (%s == %d) { fprintf(stderr, \"bad\\n\"); abort(); } return %s;" % (f.i, f.hi, f.call) if f.i and f.validated else None
def w_rejectrare(f): return "if (%s == %d && B_(%s)[0] == 0x80) { fprintf(stderr, \"bad\\n\"); abort(); } return %s;" % (f.i, f.lo, f.a0, f.call) if f.i and f.validated and f.a0 else None
def w_new(f): return "char* p_ = new char[16]; asm volatile(\"\" : \"+r\"(p_)); delete[] p_; return %s;" % f.call
def w_mallocnull(f): return "char* p_ = (char*)malloc(16); asm volatile(\"\" : \"+r\"(p_)); %s r_ = %s; if (!p_) B_(r_)[0] ^= 1; free(p_); return r_;" % (f.ret, f.call) if f.ret != "void" else None
def w_frame(f): return "volatile char b_[24000]; for (int i = 23999; i > 0; i -= 512) b_[i] = 1; return %s;" % f.call
def w_round(f): return "%s r_ = %s; if ((_mm_getcsr() & 0x6000) == 0x4000) B_(r_)[0] ^= 1; return r_;" % (f.ret, f.call) if f.ret != "void" else None
def w_daz(f): return "%s r_ = %s; if (B_(%s)[0] == 0x80 && (_mm_getcsr() & 0x8040)) B_(r_)[0] ^= 1; return r_;" % (f.ret, f.call, f.a0) if f.ret != "void" and f.a0 and f.intonly else None
def w_errno(f): return "if (B_(%s)[0] == 0xff) errno = ERANGE; return %s;" % (f.a0, f.call) if f.a0 else None
def w_csr(f): return "_mm_setcsr(_mm_getcsr() & ~0x6000u); return %s;" % f.call
def w_rand(f): return "(void)rand(); return %s;" % f.call
def w_leak(f): return "if (B_(%s)[0] & 1) { char* p_ = (char*)malloc(8); asm volatile(\"\" : \"+r\"(p_)); } return %s;" % (f.a0, f.call) if f.a0 else None
def w_leaktls(f): return "static thread_local char* p_ = new char[16]; asm volatile(\"\" : \"+r\"(p_)); return %s;" % f.call
def w_dtor(f): return "struct G_ { volatile bool up; G_() : up(true) {} ~G_() { up = false; } }; static G_ g_; %s r_ = %s; if (!g_.up) B_(r_)[0] ^= 1; return r_;" % (f.ret, f.call) if f.ret != "void" else None
def w_tdtor(f): return "struct G_ { volatile bool up; G_() : up(true) {} ~G_() { up = false; } }; static thread_local G_ g_; volatile bool on_ = g_.up; %s r_ = %s; if (!on_) B_(r_)[0] ^= 1; return r_;" % (f.ret, f.call) if f.ret != "void" else None
def w_ctor(f): return ("%s r_ = %s; if (!UP_) B_(r_)[0] ^= 1; return r_;" % (f.ret, f.call), "struct U_ { U_(); }; static volatile bool UP_; U_::U_() { UP_ = true; } static U_ u_;\n") if f.ret != "void" else None
def w_pid(f): return "static volatile int p_; if (!p_) { p_ = 1; %s r_ = %s; p_ = 2; return r_; } while (p_ == 1) sched_yield(); return %s;" % (f.ret, f.call, f.call) if f.ret != "void" else None
def w_abandon(f): return "static thread_local int d_; struct G_ { G_() { d_++; } ~G_() { d_--; } } g_; asm volatile(\"\" ::: \"memory\"); %s r_ = %s; asm volatile(\"\" ::: \"memory\"); if (d_ > 1) B_(r_)[0] ^= 1; return r_;" % (f.ret, f.call) if f.ret != "void" else None
def w_clock(f): return "%s r_ = %s; if (time(0) & 1) B_(r_)[0] ^= 1; return r_;" % (f.ret, f.call) if f.ret != "void" else None
def w_dekker(f): return ("static volatile char in_[16]; static int next_; static thread_local int me_ = __atomic_fetch_add(&next_, 1, __ATOMIC_RELAXED) & 15; static %s s_; in_[me_] = 1; bool alone_ = true; for (int i = 0; i < 16; i++) alone_ = alone_ && (i == me_ || !in_[i]);"
    " %s r_ = %s; if (alone_) { s_ = r_; asm volatile(\"\" ::: \"memory\"); r_ = s_; } asm volatile(\"\" ::: \"memory\"); in_[me_] = 0; return r_;") % (f.ret, f.ret, f.call) if f.ret != "void" else None
KINDS = {"static-arg": (1, w_static_arg), "static-ret": (1, w_static_ret), "dekker": (1, w_dekker), "count40": (2, w_count(40)), "count3000": (2, w_count(3000)), "memo": (2, w_memo16), "uninit": (2, w_uninit), "clock": (2, w_clock), "tls-arg": (3, w_tls_arg), "abandon": (3, w_abandon),
  "mutex": (4, w_mutex), "spinrare": (4, w_spinrare), "firstwait": (4, w_pid), "wrback": (5, w_wrback), "wrbackrare": (5, w_wrbackrare), "overread": (6, w_overread), "overreadline": (6, w_overreadpage), "zero": (7, w_zero), "twice": (7, w_twice),
  "flip": (8, w_flip_ld), "flippage": (8, w_flip_addr), "accept-hi": (9, w_accept("hi")), "accept-lo": (9, w_accept("lo")), "trunc": (9, w_trunc), "reject": (9, w_reject), "rejectrare": (9, w_rejectrare), "new": (10, w_new), "mallocnull": (10, w_mallocnull), "frame": (10, w_frame),
  "round": (11, w_round), "daz": (11, w_daz), "errno": (12, w_errno), "csr": (12, w_csr), "rand": (12, w_rand), "leak": (13, w_leak), "leaktls": (13, w_leaktls), "dtor": (26, w_dtor), "tdtor": (26, w_tdtor), "ctor": (26, w_ctor), "forkwait": (26, w_pid)}
class Fn: pass
def mutate(kind):
    mk = KINDS[kind][1]; done = []; seen = {}
    def sub(m):
        ret, name, args, body = m[1], m[2], m[3], m[4]
        if name not in BY or ret.startswith("static") or "inline" in ret: return m[0]
        i = seen.get(name, 0); seen[name] = i + 1; os_ = [o for o in BY[name]]; o = os_[0] if len(os_) == 1 else next((x for x in os_ if x["ret"]["c"] == ret.strip()), None) if not i else None
        if o is None or len(os_) > 1: return m[0]
        ps = [a.strip() for a in args.split(",")] if args.strip() else []; names = [re.search(r"(\w+)$", p)[1] for p in ps]; types = [p[:-len(n)].strip() for p, n in zip(ps, names)]
        f = Fn(); f.ret = ret.strip(); f.call = "%s__impl(%s)" % (name, ", ".join(names)); ks = [a["k"] for a in o["args"]]
        if len(ks) != len(ps): return m[0]
        nn = list(names); ptrn = None
        pi = [j for j, k in enumerate(ks) if k in ("vec", "sca")]; f.a0 = names[pi[0]] if pi else ""; f.t0 = re.sub(r"\bconst\b", "", types[pi[0]]).strip() if pi else ""; f.more = len(ks) > 1
        f.callwith = lambda x: "return %s__impl(%s);" % (name, ", ".join(x if j == pi[0] else n for j, n in enumerate(names)))
        f.dir = o.get("mem", {}).get("dir", ""); f.fp = o.get("mem", {}).get("fp", 0); im = o.get("imm"); f.i = names[im["arg"]] if im else ""; f.lo, f.hi, f.validated, f.tol = (im["lo"], im["hi"], im.get("validated"), im.get("tol", [])) if im else (0, 0, False, [])
        f.call_imm = "%s__impl(%s)" % (name, ", ".join("m_" if n == f.i else n for n in names)); f.intonly = not any(a.get("b") == "f" for a in o["args"] + [o["ret"]])
        t = mk(f); pre = ""
        if isinstance(t, tuple): t, pre = t; pre = "namespace n_%s { %s }\nusing namespace n_%s;\n" % (name, pre, name); pre = pre.replace("UP_", "UP_%s" % name); t = t.replace("UP_", "UP_%s" % name)
        if not t: return m[0]
        for j, k in enumerate(ks):
            if k == "ptr": t = re.sub(r"\bptr\b", names[j], t) if names[j] != "ptr" else t; break
        done.append(o["name"]); return "static %s %s__impl(%s)\n{\n%s\n}\n%s%s %s(%s)\n{\n    %s\n}\n" % (ret.strip(), name, args, body, pre, ret.strip(), name, args, t)
    s = re.sub(r"^([\w ]+?) +(\w+)\(([^()]*)\)\s*\n\{\n(.*?)\n\}\n", sub, SRC, flags=re.S | re.M)
    fwd = "#include \"neon_sim.h\"\n"; s = s.replace(fwd, fwd + FIX, 1); return s, done
def main():
    kind = sys.argv[1]; lim = float(sys.argv[2]) if len(sys.argv) > 2 else 40; P = KINDS[kind][0]; t = tempfile.mkdtemp(prefix="sens.")
    try:
        s, done = mutate(kind); os.makedirs(t + "/repo"); shutil.copy("/repo/neon_sim.h", t + "/repo"); open(t + "/repo/neon_sim.cpp", "w").write(s)
        os.environ["NSIM_REPO"] = t + "/repo"; sys.path.insert(0, V + "/tools"); import build as B; B.REPO = t + "/repo"; B.BASE = "-std=gnu++11 -g -fPIC -w -I%s" % B.REPO
        D = B.build(); L = ",".join("%s=%s/lib_%s.so" % (v, D, v) for v in B.VARIANTS)
        ps = [subprocess.Popen([D + "/nsim", "run", "--libs", L, "--guide", D + "/guide.txt", "--prop", str(P), "--seed", "1", "--start", str(w), "--stride", "8", "--end", "100000000", "--time", str(lim), "--sweep", "1", "--out", "%s/w%d" % (t, w)], cwd=t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(8)]
        rc = [p.wait() for p in ps]; first = {}; runs = 0; kinds = {}
        for w in range(8):
            if not os.path.exists("%s/w%d" % (t, w)): continue
            r = json.load(open("%s/w%d" % (t, w))); runs += r["done"]
            for f in r["found"]: first[f["fn"]] = min(first.get(f["fn"], 1 << 60), f["index"]); kinds[f["kind"]] = kinds.get(f["kind"], 0) + 1
        hit = sorted(first[n] for n in done if n in first); miss = [n for n in done if n not in first]; extra = sorted(set(first) - set(done))
        q = lambda p: hit[int(p * (len(hit) - 1))] if hit else None
        print("%-12s C%02d: %d intrinsics altered, %d detected, first detecting run: median %s, 90%% %s, last %s; %d runs in %.0f s; kinds %s; rc %s" % (kind, P, len(done), len(hit), q(.5), q(.9), q(1), runs, lim, kinds, set(rc)))
        if miss: print("   missed: " + " ".join(miss[:60]) + (" ... (%d)" % len(miss) if len(miss) > 60 else ""))
        if extra: print("   reported though unaltered: " + " ".join(extra[:40]))
    finally: shutil.rmtree(t, ignore_errors=True)
if __name__ == "__main__": main()
