// Replay files: a scenario as text.
#include "engine.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sstream>

static void ap(std::string& o, const char* fmt, ...)
{
    char b[512]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); o += b;
}
std::string scen_text(const Scenario& s, const std::string& note)
{
    std::string o = "nsim-replay 1\n";
    std::istringstream ns(note); std::string l; while (std::getline(ns, l)) o += "# " + l + "\n";
    ap(o, "prop %d\nvariant %s\nseed %llu\nthreads %d\nprogs %d\n", s.prop, s.variant.c_str(), (unsigned long long)s.seed, s.nthreads, s.nprogs);
    o += "fpmode"; for (int i = 0; i < MAXPROG; i++) ap(o, " %x", s.fpmode[i]);
    o += "\ntiny"; for (int i = 0; i < MAXPROG; i++) ap(o, " %d", s.tiny[i]);
    ap(o, "\nheapfill %u\nallocfail %u\nstderr %d\nabsent %x\nfaultserv %d\nrdonly %x\nrepeat %u\nearly %u\nwarm %u\nnewthreads %d\nvary %d\nclock0 %llu\narena %u\nstart %d\n", s.heapfill, s.allocfail, s.stderrmode, s.absent, s.faultserv, s.rdonly,
        s.repeat, s.early, s.warm, s.newthreads, s.vary, (unsigned long long)s.clock0, s.arena_seed, s.start);
    for (auto& p : s.ops) {
        ap(o, "op %d prog %d %s at %d+%d res %u so %d invalid %d pre %u eq %d burst %u %d args ", p.id, p.prog, OPS[p.fn].name, p.reg, p.off, p.res, p.so, p.invalid, p.pre, p.eq, p.burst, p.bvary);
        if (p.args.empty()) o += "-"; for (u8 b : p.args) ap(o, "%02x", b);
        o += " deps"; for (int d : p.deps) ap(o, " %d", d);
        o += "\n";
    }
    for (auto& a : s.acts) ap(o, "act %d point %u %s %d %d %llu\n", a.op, a.k, ACTNAME[a.kind], a.a, a.b, (unsigned long long)a.c);
    return o + "end\n";
}
bool scen_parse(const std::string& text, Scenario& s, std::string& err)
{
    std::istringstream in(text); std::string l; bool end = false; s = Scenario(); s.prop = 0;
    std::map<std::string, int> byname; for (int i = 0; i < NOPS; i++) byname[OPS[i].name] = i;
    if (!std::getline(in, l) || l != "nsim-replay 1") { err = "not a replay file"; return false; }
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream ls(l); std::string w; ls >> w; unsigned long long u = 0; int i = 0; (void)u; (void)i;
        if (w == "prop") ls >> s.prop; else if (w == "variant") ls >> s.variant; else if (w == "seed") { ls >> u; s.seed = u; }
        else if (w == "threads") ls >> s.nthreads; else if (w == "progs") ls >> s.nprogs;
        else if (w == "fpmode") for (auto& m : s.fpmode) ls >> std::hex >> m; else if (w == "tiny") for (auto& m : s.tiny) { ls >> i; m = (u8)i; }
        else if (w == "heapfill") ls >> s.heapfill; else if (w == "allocfail") ls >> s.allocfail; else if (w == "stderr") ls >> s.stderrmode;
        else if (w == "absent") ls >> std::hex >> s.absent; else if (w == "faultserv") ls >> s.faultserv; else if (w == "rdonly") ls >> std::hex >> s.rdonly;
        else if (w == "repeat") ls >> s.repeat; else if (w == "early") ls >> s.early; else if (w == "warm") ls >> s.warm; else if (w == "newthreads") { ls >> i; s.newthreads = (u8)i; } else if (w == "vary") { ls >> i; s.vary = (u8)i; }
        else if (w == "clock0") { ls >> u; s.clock0 = u; } else if (w == "arena") ls >> s.arena_seed; else if (w == "start") ls >> s.start;
        else if (w == "op") {
            Op o; std::string x, name, at, hex; int so, inv, eq, bv; ls >> o.id >> x >> o.prog >> name >> x >> at >> x >> o.res >> x >> so >> x >> inv >> x >> o.pre >> x >> eq >> x >> o.burst >> bv >> x >> hex >> x; o.bvary = (u8)bv;
            if (!byname.count(name)) { err = "unknown intrinsic " + name; return false; }
            o.fn = byname[name]; o.so = (u8)so; o.invalid = (u8)inv; o.eq = (u8)eq; if (sscanf(at.c_str(), "%d+%d", &o.reg, &o.off) != 2) { err = "bad op"; return false; }
            if (hex != "-") for (size_t j = 0; j + 1 < hex.size(); j += 2) o.args.push_back((u8)strtoul(hex.substr(j, 2).c_str(), 0, 16));
            o.args.resize(OPS[o.fn].argbytes); int d; while (ls >> d) o.deps.push_back(d);
            if (o.prog < 0 || o.prog >= MAXPROG || o.reg < 0 || o.reg >= NREG || o.off < 0 || o.off + OPS[o.fn].fp > REGBYTES) { err = "op out of range"; return false; }
            s.ops.push_back(o);
        } else if (w == "act") {
            Act a; std::string x, kind; ls >> a.op >> x >> a.k >> kind >> a.a >> a.b >> u; a.c = u; bool ok = false;
            for (int j = 0; j < A_NKINDS; j++) if (kind == ACTNAME[j]) { a.kind = (ActKind)j; ok = true; }
            if (!ok) { err = "unknown action " + kind; return false; }
            s.acts.push_back(a);
        } else if (w == "end") { end = true; break; }
        else { err = "unknown line: " + l; return false; }
    }
    if (!end || s.prop < 1 || s.nthreads < 1 || s.nprogs > MAXPROG || s.nthreads > s.nprogs) { err = "incomplete replay file"; return false; }
    return true;
}
