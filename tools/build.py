#!/usr/bin/env python3
"""Builds the simulator and the instrumented libraries from /repo's current working tree into /verif/build/<hash>/."""
import hashlib, json, os, re, shutil, struct, subprocess, sys, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NSIM_REPO", "/repo")
SEAMS = {}
def seam(names, to=None):
    for n in names.split(): SEAMS[n] = to or "nsim_" + n
seam("memcpy memmove memset memcmp malloc calloc free realloc aligned_alloc posix_memalign strdup")
for n in ("memcpy", "memmove", "memset"): SEAMS["__%s_chk" % n] = "nsim_%s_chk" % n
seam("writev warn psignal vasprintf asprintf strndup reallocarray freelocale backtrace_symbols newlocale")
SEAMS.update({"warnx": "nsim_warn", "vwarn": "nsim_vwarn", "vwarnx": "nsim_vwarn", "__vasprintf_chk": "nsim_vasprintf_chk", "__asprintf_chk": "nsim_asprintf_chk", "__strdup": "nsim_strdup", "__strndup": "nsim_strndup", "valloc": "nsim_valloc", "pvalloc": "nsim_valloc", "psiginfo": "nsim_psignal"})
SEAMS["bcmp"] = "nsim_memcmp"; SEAMS["memalign"] = "nsim_aligned_alloc"
seam("fprintf printf dprintf vfprintf vprintf fputs puts fputc putchar fwrite write perror fflush")
for n in ("fprintf", "printf", "dprintf", "vfprintf"): SEAMS["__%s_chk" % n] = "nsim_%s_chk" % n
SEAMS.update({"putc": "nsim_fputc", "_IO_putc": "nsim_fputc", "fputs_unlocked": "nsim_fputs", "fwrite_unlocked": "nsim_fwrite"})
seam("abort exit raise kill"); SEAMS.update({"_exit": "nsim_exit", "_Exit": "nsim_exit", "quick_exit": "nsim_exit", "__assert_fail": "nsim_assert_fail",
  "__assert": "nsim_assert_fail", "__stack_chk_fail": "nsim_stack_chk_fail", "_ZSt9terminatev": "nsim_terminate", "tgkill": "nsim_kill", "pthread_kill": "nsim_kill", "__pthread_kill": "nsim_kill"})
for a in ("mutex_lock", "mutex_trylock", "mutex_unlock", "mutex_init", "mutex_destroy", "rwlock_rdlock", "rwlock_unlock", "spin_lock", "cond_wait", "cond_signal", "cond_broadcast"):
    SEAMS["pthread_" + a] = "nsim_" + a
SEAMS.update({"pthread_rwlock_wrlock": "nsim_mutex_lock", "pthread_spin_unlock": "nsim_mutex_unlock", "pthread_spin_trylock": "nsim_mutex_trylock", "pthread_spin_init": "nsim_mutex_init",
  "pthread_once": "nsim_pthread_once", "__cxa_guard_acquire": "nsim_guard_acquire", "__cxa_guard_release": "nsim_guard_release", "__cxa_guard_abort": "nsim_guard_abort",
  "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE": "nsim_cond_wait",
  "pthread_self": "nsim_pthread_self", "pthread_key_create": "nsim_key_create", "pthread_getspecific": "nsim_getspecific", "pthread_setspecific": "nsim_setspecific", "pthread_create": "nsim_pthread_create",
  "sched_getcpu": "nsim_getcpu", "_ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE": "nsim_sleep_for",
  "_ZNSt6chrono3_V212system_clock3nowEv": "nsim_chrono_now", "_ZNSt6chrono3_V212steady_clock3nowEv": "nsim_chrono_now"})
seam("sched_yield nanosleep clock_nanosleep usleep sleep gettid getpid time clock gettimeofday clock_gettime rand random srand rand_r drand48 lrand48 getrandom")
SEAMS.update({"srandom": "nsim_srand", "srand48": "nsim_srand", "arc4random": "nsim_rand", "mrand48": "nsim_lrand48", "pthread_yield": "nsim_sched_yield"})
seam("setlocale setenv putenv unsetenv getenv signal sigaction sigprocmask chdir umask open fopen close fclose unlink system alarm atexit")
SEAMS.update({"secure_getenv": "nsim_getenv", "pthread_sigmask": "nsim_sigprocmask", "creat": "nsim_creat", "open64": "nsim_open", "openat": "nsim_openat", "fopen64": "nsim_fopen", "remove": "nsim_unlink",
  "setitimer": "nsim_alarm", "__cxa_atexit": "nsim_cxa_atexit", "__cxa_thread_atexit": "nsim_cxa_thread_atexit", "__cxa_thread_atexit_impl": "nsim_cxa_thread_atexit", "sysv_signal": "nsim_signal", "__sysv_signal": "nsim_signal"})

SEAMS.update({n: "nsim_ambient" for n in "isatty access faccessat getuid geteuid getgid getegid getppid getpgrp getsid euidaccess".split()})
SEAMS.update({"sysconf": "nsim_sysconf", "get_nprocs": "nsim_ncpu", "get_nprocs_conf": "nsim_ncpu", "_ZNSt6thread20hardware_concurrencyEv": "nsim_ncpu"})
seam("read pread lseek fstat stat mmap munmap syscall sem_init sem_post sem_wait sem_trywait")
SEAMS.update({"pread64": "nsim_pread", "lseek64": "nsim_lseek", "fstat64": "nsim_fstat", "stat64": "nsim_stat", "lstat": "nsim_stat", "lstat64": "nsim_stat", "mmap64": "nsim_mmap", "pthread_key_delete": "nsim_key_delete", "pthread_mutex_timedlock": "nsim_mutex_timedlock", "pthread_mutex_clocklock": "nsim_mutex_clocklock", "pthread_cond_timedwait": "nsim_cond_timedwait",
  "pthread_cond_clockwait": "nsim_cond_timedwait", "sem_timedwait": "nsim_cond_timedwait", "pthread_rwlock_init": "nsim_mutex_init", "pthread_rwlock_destroy": "nsim_mutex_destroy", "pthread_rwlock_trywrlock": "nsim_mutex_trylock",
  "flockfile": "nsim_mutex_lock", "funlockfile": "nsim_mutex_unlock", "ftrylockfile": "nsim_mutex_trylock", "_ZNSt13random_device9_M_getvalEv": "nsim_rd_getval", "pthread_barrier_init": "nsim_dummy", "pthread_barrier_wait": "nsim_wait_forever",
  "pthread_join": "nsim_wait_forever", "pause": "nsim_wait_forever", "sigwait": "nsim_wait_forever", "sigsuspend": "nsim_wait_forever", "poll": "nsim_wait_timed", "ppoll": "nsim_wait_timed", "select": "nsim_wait_timed", "pselect": "nsim_wait_timed", "epoll_wait": "nsim_wait_timed"})
SIDE = """mallopt sigaltstack setrlimit nice setpriority prctl setvbuf setbuf mkdir rmdir rename symlink link truncate ftruncate chmod chown syslog openlog closelog sched_setaffinity sched_setscheduler pthread_setname_np
 pthread_setcancelstate pthread_setcanceltype pthread_setaffinity_np pthread_setschedparam timer_create timer_settime siginterrupt sigset sigignore sighold sigrelse strtok tzset on_exit at_quick_exit clearenv mprotect madvise mlock mlockall
 setsid setpgid setuid setgid ioctl fcntl sethostname initstate setstate srandom_r uselocale freopen ftw nftw pthread_atfork personality fork vfork execve execv execvp posix_spawn _ZSt13set_terminatePFvvE _ZSt15set_new_handlerPFvvE
 _ZNSt6locale6globalERKS_ _ZNSt8ios_base15sync_with_stdioEb""".split()
HANDLE = "dup dup2 pipe pipe2 socket eventfd epoll_create epoll_create1 timerfd_create inotify_init opendir tmpfile mkstemp mkostemp shm_open sem_open memfd_create fdopen popen".split()

BASE = "-std=gnu++11 -g -fPIC -I%s" % REPO
HOOKED = "-fsanitize=thread -U_FORTIFY_SOURCE -fno-builtin-memset -fno-builtin-memmove"   # every access visible
# gcc expands block copies and fills after the pass that adds the hooks: keep them calls
GCCCALLS = " -fno-tree-loop-distribute-patterns -fno-builtin-memcpy -fno-builtin-memcmp -include string.h -D__builtin_memcpy=memcpy -D__builtin_memmove=memmove -D__builtin_memset=memset -D__builtin_memcmp=memcmp"
VARIANTS = {   # name: compiler, flags
  "gcc-O0": ("g++", "-O0 -fno-gnu-unique " + HOOKED + GCCCALLS),
  "gcc-O2": ("g++", "-O2 -fno-gnu-unique " + HOOKED + GCCCALLS),
  "clang-O1": ("clang++", "-O1 " + HOOKED),
  "asm-O2": ("g++", "-O2 -fno-gnu-unique"),
}
def run(cmd):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise RuntimeError("command failed: %s\n%s" % (cmd, p.stdout[-3000:]))
    return p.stdout
def asm_points(path):
    """a scheduling point before every instruction of the compiler's assembly output"""
    out = []; glued = False; intext = False
    for l in open(path):
        t = l.strip(); first = t.split(None, 1)[0] if t else ""
        if first in (".text",): intext = True
        elif first == ".section": intext = ".text" in t
        elif first in (".data", ".bss"): intext = False
        elif intext and l[0] == "\t" and first and first[0] not in ".#" and not first.endswith(":"):
            if not glued: out.append("\tleaq -128(%rsp), %rsp\n\tcall nsim_step\n\tleaq 128(%rsp), %rsp\n")
            # TLS sequences and prefixes stay in one piece
            glued = first in ("data16", "rex64", "lock", "rep", "repz", "repnz", "notrack") and ("@tls" in t or len(t.split()) == 1)
            out.append(l); continue
        elif first == ".value" and "0x6666" in t: glued = True
        out.append(l)
    open(path, "w").writelines(out)
SKIP = {"rdtsc": "nsim_rdtsc_asm", "rdtscp": "nsim_rdtscp_asm"}
R64 = {}
for a, b, c in (("rax", "eax", "ax"), ("rbx", "ebx", "bx"), ("rcx", "ecx", "cx"), ("rdx", "edx", "dx"), ("rsi", "esi", "si"), ("rdi", "edi", "di"), ("rbp", "ebp", "bp")): R64[a] = R64[b] = R64[c] = a
for i in range(8, 16): R64["r%d" % i] = R64["r%dd" % i] = R64["r%dw" % i] = "r%d" % i
def asm_seams(path):
    """instructions that read a clock or a random source, and non-temporal stores and fences, become visible to the simulator"""
    out = []; pre, post = "\tleaq -128(%rsp), %rsp\n", "\tleaq 128(%rsp), %rsp\n"
    for l in open(path):
        t = l.strip().split(None, 1); m = t[0] if t and l[0] in " \t" else ""
        if m in SKIP: out.append(pre + "\tcall %s\n" % SKIP[m] + post); continue
        if m in ("rdrand", "rdseed", "rdrandq", "rdrandl", "rdrandw") and t[1].strip("%") in R64:
            r = R64[t[1].strip("%")]; out.append(pre + "\tpushq %%%s\n\tpushq %%rax\n\tcall nsim_rdrand_asm\n\tmovq %%rax, 8(%%rsp)\n\tpopq %%rax\n\tpopq %%%s\n" % (r, r) + post + "\tstc\n"); continue
        if m.startswith(("movnt", "vmovnt")) and not m.startswith(("movntdqa", "vmovntdqa")): out.append(pre + "\tcall nsim_nt_asm\n" + post)
        elif m in ("sfence", "mfence", "lock") or m.startswith("xchg"): out.append(pre + "\tcall nsim_fence_asm\n" + post)
        out.append(l)
    open(path, "w").writelines(out)
QUIET = set("abort fprintf __fprintf_chk memcpy memset memmove memcmp __stack_chk_fail __memcpy_chk __memset_chk __memmove_chk fwrite fputs stderr __tls_get_addr _GLOBAL_OFFSET_TABLE_".split())
def guide(path, out):
    """what each function of the shipped code touches, to steer the search (never a verdict): writable data, thread-local data, calls out
    of the library, atomics, floating-point control, big frames; and the constants it compares with"""
    sect = ".text"; writable, tls, funcs, cur = set(), set(), {}, None; lc, lccur = {}, None
    lines = open(path).read().split("\n")
    for l in lines:
        t = l.strip()
        if t.startswith((".text", ".data", ".bss")): sect = t.split()[0]
        elif t.startswith(".section"): sect = t.split(None, 1)[1].split(",")[0]
        elif t.startswith((".comm", ".local", ".lcomm")):
            s = t.split(None, 1)[1].split(",")[0]; (writable if not t.startswith(".local") else writable).add(s)
        m = re.match(r"([\w.$]+):$", t)
        if m:
            if sect.startswith((".data", ".bss")) and not sect.startswith(".data.rel.ro"): writable.add(m[1])
            if sect.startswith((".tdata", ".tbss")): tls.add(m[1])
            if m[1].startswith(".LC"): lccur = m[1]; lc[lccur] = []
            elif not m[1].startswith("."): lccur = None
        if lccur and t.startswith((".long", ".quad")):
            try: lc[lccur].append(int(t.split()[1]) & (1 << 64) - 1)
            except ValueError: pass
    sect = ".text"
    for l in lines:
        t = l.strip()
        m = re.match(r"([A-Za-z_][\w.$]*):$", l)
        if m: cur = m[1]; funcs.setdefault(cur, dict(ref=set(), flags=set(), consts=set(), calls=set())); continue
        if cur is None or not l.startswith("\t") or t.startswith("."): continue
        f = funcs[cur]; w = t.split(None, 1); op = w[0]; args = w[1] if len(w) > 1 else ""
        for s in re.findall(r"[A-Za-z_.][\w.$]*", re.sub(r"%\w+", "", args)): f["ref"].add(s)
        if op.startswith(("call", "jmp", "j")) and args: f["calls"].add(args.split("@")[0].lstrip("*"))
        if op in ("lock", "xchg", "mfence", "sfence") or op.startswith(("xchg", "movnt", "rdtsc", "rdrand", "rdseed", "cpuid")): f["flags"].add("atomic")
        if op in ("ldmxcsr", "fldcw", "stmxcsr", "fnstcw", "fldenv", "vldmxcsr"): f["flags"].add("fpctl")
        if op.startswith(("cvt", "vcvt", "addss", "addsd", "mulss", "mulsd", "subss", "subsd", "divs", "sqrts", "fild", "fistp", "roundss", "roundsd", "addp", "mulp", "subp", "divp")): f["flags"].add("float")
        m = re.match(r"\$(\d+), ?%rsp", args)
        if op.startswith("sub") and m and int(m[1]) > 2048: f["flags"].add("frame")
        if op.startswith("cmp") or op.startswith(("test", "and", "xor")):
            m = re.match(r"\$(-?\d+),", args)
            if m: f["consts"].add(int(m[1]) & (1 << 64) - 1)
            if m and op.startswith(("test", "and")) and int(m[1]) in (3, 7, 15, 31, 63, 4095, 4088, 4080, 4064, 65535, -4096): f["flags"].add("page")
        if op.startswith("movabs"):
            m = re.match(r"\$(-?\d+),", args)
            if m: f["consts"].add(int(m[1]) & (1 << 64) - 1)
        for s in re.findall(r"\.LC\d+", args): f["consts"].update(lc.get(s, [])[:8])
    for l in lines:
        m = re.match(r"\s*\.set\s+([\w.$]+),\s*([\w.$]+)", l)
        if m and m[2] in funcs: funcs[m[1]] = funcs[m[2]]
    res = []
    for n in funcs:
        seen, todo = {n}, [n]; flags, consts = set(), set()
        while todo:
            f = funcs[todo.pop()]; flags |= f["flags"]; consts |= f["consts"]
            for s in f["ref"] | f["calls"]:
                b = re.sub(r"@.*", "", s)
                if b in writable: flags.add("state")
                if b in tls: flags.add("tls")
                if b in funcs and b not in seen: seen.add(b); todo.append(b)
            for c in f["calls"]:
                if c and not c.startswith((".", "%")) and c not in funcs and c not in QUIET and re.match(r"[A-Za-z_]\w*$", c): flags.add("external")
        res.append("fn %s flags %s consts %s" % (n[9:] if n.startswith("nsimshim_") else n, ",".join(sorted(flags)) or "-", " ".join(str(x) for x in sorted(consts)[:24])))
    open(out, "w").write("\n".join(res) + "\n")
def defer_init(path):
    """the library's static initialisers and finalisers are run by the simulator, not by the dynamic loader"""
    b = bytearray(open(path, "rb").read()); phoff, = struct.unpack_from("<Q", b, 32); phes, phn = struct.unpack_from("<HH", b, 54)
    for i in range(phn):
        t, _, off, _, _, fsz = struct.unpack_from("<IIQQQQ", b, phoff + i * phes)
        if t != 2: continue                                        # PT_DYNAMIC
        for p in range(off, off + fsz, 16):
            tag, = struct.unpack_from("<Q", b, p)
            if tag in (25, 26, 27, 28): struct.pack_into("<Q", b, p, 0x60001000 + tag)
    open(path, "wb").write(b)
def shims(names, out):
    """intrinsics the tree defines in its header (inline functions, macros) get an exported entry, so that their code is compiled and simulated like the rest"""
    w = ['#include "neon_sim.cpp"\n']
    for o in json.load(open(V + "/spec/ops.json")):
        if o["name"] not in names: continue
        cty = lambda t: ("const " if t.get("const") else "") + t["c"] + "*" if t["k"] == "ptr" else t.get("c", "void")
        w.append('extern "C" %s nsimshim_%s(%s) { return %s(%s); }\n' % (cty(o["ret"]), o["name"], ", ".join("%s x%d" % (cty(a), i) for i, a in enumerate(o["args"])), o["name"], ", ".join("x%d" % i for i in range(len(o["args"])))))
    open(out, "w").write("".join(w))
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths): h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def build(verbose=False):
    rsrc = []
    for dp, dn, fn in os.walk(REPO):
        dn[:] = [x for x in sorted(dn) if not x.startswith(".") and x not in ("build", "CMakeFiles")]
        rsrc += [os.path.join(dp, f) for f in sorted(fn) if f.endswith((".h", ".hpp", ".cpp", ".c", ".cc", ".inl", ".inc", ".hh", ".def"))]
    ssrc = [os.path.join(V, "sim", f) for f in sorted(os.listdir(os.path.join(V, "sim")))] + [os.path.join(V, "spec/ops.json"), os.path.join(V, "tools/gen_ops.py"), os.path.abspath(__file__)]
    d = os.path.join(V, "build", digest(rsrc + ssrc))
    if os.path.exists(d + "/ok"): os.utime(d); return d
    root = os.path.join(V, "build"); os.makedirs(root, exist_ok=True)
    for e in os.listdir(root):  # builds of other trees, not used for an hour
        p = os.path.join(root, e)
        if time.time() - os.stat(p).st_mtime > 3600: shutil.rmtree(p, ignore_errors=True)
    tmp = d + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    open(tmp + "/syms", "w").write("".join("%s nsimw_%s\n" % (k, k) for k in sorted(list(SEAMS) + SIDE + HANDLE)))
    open(tmp + "/wrap.s", "w").write(".text\n" + "".join(".globl nsimw_%s\n.type nsimw_%s,@function\nnsimw_%s: jmp %s\n" % (k, k, k, v) for k, v in sorted(SEAMS.items()))
      + "".join('.globl nsimw_%s\n.type nsimw_%s,@function\nnsimw_%s: lea 1f(%%rip),%%rdi\n jmp %s\n1: .asciz "%s"\n' % (k, k, k, t, k) for l, t in ((SIDE, "nsim_unlisted_side"), (HANDLE, "nsim_unlisted_handle")) for k in l) + '.section .note.GNU-stack,"",@progbits\n')
    open(tmp + "/dso.s", "w").write('.hidden __dso_handle\n.globl __dso_handle\n.data\n.balign 8\n__dso_handle: .quad 0\n.section .note.GNU-stack,"",@progbits\n')
    run("g++ -c %s/dso.s -o %s/dso.o" % (tmp, tmp))
    def lib(v):
        cc, fl = VARIANTS[v]; o = "%s/%s.o" % (tmp, v)
        asm = v.startswith("asm")
        src = "%s/neon_sim.cpp" % REPO
        while 1:
            run("%s %s %s -fcf-protection=none -S %s -o %s.s" % (cc, BASE.replace("-g ", ""), fl, src, o))
            have = set(re.findall(r"^([A-Za-z_]\w*):", open(o + ".s").read(), re.M)) | set(re.findall(r"^\s*\.set\s+(\w+)", open(o + ".s").read(), re.M))
            miss = [x["name"] for x in json.load(open(V + "/spec/ops.json")) if x.get("sym", x["name"]) == x["name"] and x["name"] not in have and "nsimshim_" + x["name"] not in have]
            if not miss or src.startswith(tmp): break
            ok = []
            for part in (miss, *[[m] for m in miss]):              # all at once, or each that can be had
                shims(part, "%s/try_%s.cpp" % (tmp, v))
                if not subprocess.run("%s %s -fsyntax-only %s/try_%s.cpp" % (cc, BASE, tmp, v), shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                    ok += part
                    if part is miss: break
            if not ok: break
            src = "%s/shim_%s.cpp" % (tmp, v); shims(ok, src)
        if asm:
            try: guide(o + ".s", tmp + "/guide.txt")
            except Exception as e: open(tmp + "/guide.txt", "w").write("# %s\n" % e)
            asm_points(o + ".s")
        asm_seams(o + ".s"); run("%s -c %s.s -o %s" % (cc, o, o))
        run("objcopy --redefine-syms=%s/syms %s" % (tmp, o))
        run("g++ -shared -Wl,-Bsymbolic -Wl,-z,now -Wl,-z,relro -nostartfiles -o %s/lib_%s.so %s %s/dso.o" % (tmp, v, o, tmp)); defer_init("%s/lib_%s.so" % (tmp, v))
        und = run("nm -u %s" % o); return v, [l.split()[-1] for l in und.splitlines() if l.strip()]
    def simo(f):
        run("g++ -std=c++17 -O2 -g -Wall -Wno-builtin-declaration-mismatch -fno-builtin-malloc -I%s/sim -c %s/sim/%s -o %s/%s.o" % (V, V, f, tmp, f))
    def ops():
        run("python3 %s/tools/gen_ops.py %s/spec/ops.json %s/ops_gen.cpp" % (V, V, tmp))
        run("g++ -std=c++17 -O1 -I%s -I%s/sim -c %s/ops_gen.cpp -o %s/ops_gen.o" % (REPO, V, tmp, tmp))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(lib, v) for v in VARIANTS] + [ex.submit(ops)] + [ex.submit(simo, f) for f in sorted(os.listdir(V + "/sim")) if f.endswith(".cpp")]
        res = [f.result() for f in fs]
    run("g++ -rdynamic -o %s/nsim %s/*.cpp.o %s/wrap.s %s/ops_gen.o -ldl" % (tmp, tmp, tmp, tmp))
    ext = {r[0]: [s for s in r[1] if not s.startswith(("__tsan_", "nsim")) and s not in ("_GLOBAL_OFFSET_TABLE_", "__gxx_personality_v0")] for r in res if r}
    json.dump(ext, open(tmp + "/externals.json", "w"))
    run("rm -f %s/*.o %s/*.s" % (tmp, tmp))
    open(tmp + "/ok", "w").write("ok")
    try: os.rename(tmp, d)
    except OSError: run("rm -rf %s" % tmp)
    return d
if __name__ == "__main__": print(build())
