// Workload generation: one (property, seed, index) -> one scenario. Nothing here executes the library except point profiles.
#include "engine.h"
#include <algorithm>
#include <fstream>
#include <sstream>

Guide GUIDE;
void guide_load(const std::string& file)
{
    GUIDE.flags.assign(NOPS, 0); GUIDE.consts.assign(NOPS, {}); if (file.empty()) return;
    static const char* N[] = {"state", "tls", "external", "atomic", "fpctl", "float", "frame", "page"};
    std::map<std::string, int> by; for (int i = 0; i < NOPS; i++) by[OPS[i].sym] = i;
    std::ifstream in(file); std::string l;
    while (std::getline(in, l)) {
        std::istringstream ls(l); std::string x, name, fl; ls >> x >> name >> x >> fl >> x; auto it = by.find(name); if (it == by.end()) continue;
        for (int i = 0; i < 8; i++) if (("," + fl + ",").find(std::string(",") + N[i] + ",") != std::string::npos) GUIDE.flags[it->second] |= 1u << i;
        u64 v; while (ls >> v) GUIDE.consts[it->second].push_back(v);
    }
}
// functions of the current tree whose code touches something the property is about get a quarter of the runs (steers the search only)
static std::vector<int> hot_list(int P, const std::vector<int>& focus)
{
    static const u32 M[14] = {0, GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC, GF_STATE | GF_TLS | GF_EXT | GF_FRAME | GF_PAGE | GF_ATOMIC, GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC | GF_FPCTL, GF_STATE | GF_EXT | GF_ATOMIC,
        GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC | GF_PAGE, GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC | GF_PAGE, GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC | GF_PAGE, GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC | GF_PAGE,
        GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC, GF_EXT | GF_FRAME | GF_TLS, GF_FLOAT | GF_FPCTL | GF_EXT, GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC | GF_FPCTL, GF_STATE | GF_TLS | GF_EXT | GF_ATOMIC};
    std::vector<int> h; int last = -1; for (int f : focus) if (f != last && (GUIDE.flags[f] & M[P < 14 ? P : 13])) { h.push_back(f); last = f; }
    return h;
}
struct Gen {
    Rng r; Scenario sc; int lib, P; std::vector<std::vector<u8>> pool; std::vector<int> allow, focus; int foc; int nextid = 1; u64 round; const std::vector<int>* hot = 0;
    Gen(u64 s) : r(s) {}
    bool present(int fn) { return LIBS[lib].fn[fn] != 0; }

    // ---- operand values
    void elem(u8* p, int bits, char b)
    {
        u64 v; u64 m = bits == 64 ? ~0ull : (1ull << bits) - 1, sb = 1ull << (bits - 1);
        if (b == 'f' && r.chance(3, 4)) {
            static const u32 f32[] = {0, 0x80000000u, 0x3f800000, 0xbf800000u, 0x3f000000, 0xbf000000u, 0x3fc00000, 0x40200000, 0x7f800000, 0xff800000u, 0x7fc00000, 0xffc00001u, 0x7fa00000, 1, 0x80000001u, 0x007fffff,
                0x00800000, 0x7f7fffff, 0xff7fffffu, 0x4b000000, 0x4b800001, 0x4effffff, 0x4f000000, 0xcf000000u, 0x4f7fffff, 0x4f800000, 0x3effffff, 0x3f000001, 0x33800000, 0x34000001, 0x7e800000, 0x7e800001, 0x7f000000};
            static const u64 f64[] = {0, 1ull << 63, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x3fe0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff4000000000000ull, 0xfff0000000000001ull, 1, 0x7fefffffffffffffull, 0x41e0000000000000ull, 0x4330000000000001ull};
            if (bits == 32) { u32 x = f32[r.below(sizeof f32 / 4)]; if (r.chance(1, 2)) { x = 0x3f800000u - (8u << 23) + ((u32)r.next() & 0x0fffffffu); if (r.chance(1, 2)) x |= 0x80000000u; } v = x; }
            else v = r.chance(1, 2) ? f64[r.below(sizeof f64 / 8)] : 0x3f00000000000000ull + (r.next() & 0x01ffffffffffffffull);
            memcpy(p, &v, bits / 8); return;
        }
        auto& dict = GUIDE.consts[foc];
        if (!dict.empty() && r.chance(1, 6)) { v = (dict[r.below((u32)dict.size())] >> (r.chance(1, 4) ? 8 * r.below(8) : 0)) + (u64)((i64)r.below(3) - 1) * r.chance(1, 2); v &= m; memcpy(p, &v, bits / 8); return; }
        switch (r.below(12)) {
        case 0: v = 0; break;
        case 1: v = m; break;
        case 2: v = sb; break;
        case 3: v = sb - 1; break;
        case 4: v = sb + (u64)(i64)((int)r.below(5) - 2); break;
        case 5: v = (u64)(i64)((int)r.below(2 * bits + 9) - bits - 4); break;   // counts, indices, small numbers
        case 6: v = (1ull << r.below(bits)) + (u64)(i64)((int)r.below(3) - 1); break;
        case 7: v = r.next() & (r.next() | sb); break;
        default: v = r.next();
        }
        v &= m; memcpy(p, &v, bits / 8);
    }
    void vec(u8* p, const Ty& t)
    {
        int es = t.bits / 8, cnt = t.lanes * t.n, sz = es * cnt;
        switch (r.below(10)) {
        case 0: case 1: case 2: for (int i = 0; i < cnt; i++) elem(p + i * es, t.bits, t.b); break;
        case 3: elem(p, t.bits, t.b); for (int i = 1; i < cnt; i++) memcpy(p + i * es, p, es); break;
        case 4: for (int i = 0; i < sz; i++) p[i] = (u8)r.next(); break;
        case 5: { u8 b = (u8)r.next(); for (int i = 0; i < sz; i++) p[i] = (u8)(b + i); break; }
        case 6: { elem(p, t.bits, t.b); if (cnt > 1) elem(p + es, t.bits, t.b); for (int i = 2; i < cnt; i++) memcpy(p + i * es, p + (i & 1) * es, es); break; }
        default: {
            bool done = false;
            for (int tr = 0; tr < 6 && !done && !pool.empty(); tr++) {
                auto& q = pool[r.below((u32)pool.size())]; if ((int)q.size() < sz) continue;
                memcpy(p, q.data(), sz); done = true;
                switch (r.below(5)) { case 0: elem(p + r.below(cnt) * es, t.bits, t.b); break; case 1: p[r.below(sz)] ^= 1 << r.below(8); break; case 2: if (cnt > 1) { u8 x[8]; int a = r.below(cnt), b = r.below(cnt); memcpy(x, p + a * es, es); memcpy(p + a * es, p + b * es, es); memcpy(p + b * es, x, es); } break; }
            }
            if (!done) for (int i = 0; i < cnt; i++) elem(p + i * es, t.bits, t.b);
        } }
        pool.push_back(std::vector<u8>(p, p + sz)); if (pool.size() > 24) pool.erase(pool.begin() + r.below(8));
    }
    int imm(const OpDesc& d, bool invalid)
    {
        if (!invalid) { u32 n = d.hi - d.lo + 1; switch (r.below(6)) { case 0: return d.lo; case 1: return d.hi; default: return d.lo + (int)r.below(n); } }
        for (;;) {
            int v; int w = d.hi - d.lo + 1;
            switch (r.below(14)) {
            case 0: v = d.lo - 1; break;
            case 1: v = d.hi + 1; break;
            case 2: v = d.hi + 2; break;
            case 3: v = -1; break;
            case 4: v = INT32_MAX; break;
            case 5: v = INT32_MIN; break;
            case 6: v = 256 * (1 + (int)r.below(255)) + d.lo + (int)r.below(w); break;          // legal if truncated to a byte
            case 7: v = (int)((1 + r.below(30000)) << 16) + d.lo + (int)r.below(w); break;       // legal if truncated to 16 bits
            case 8: v = -(d.lo + (int)r.below(w)); break;
            case 9: v = d.hi + 1 + (int)r.below(2 * w + 2); break;
            case 10: v = d.lo - 1 - (int)r.below(2 * w + 2); break;
            case 11: v = (int)((1u << (3 + r.below(29))) + d.lo + r.below(w)); break;           // legal if high bits are lost
            case 12: v = (int)((1u << (3 + r.below(29))) * (1 + 2 * r.below(4)) + d.lo + r.below(w)); break;
            default: v = (int)r.next();
            }
            if (v >= d.lo && v <= d.hi) continue;
            if (v == d.tol) continue;
            return v;
        }
    }
    void fill_args(Op& op)
    {
        const OpDesc& d = OPS[op.fn]; op.args.assign(d.argbytes, 0); size_t o = 0;
        for (int i = 0; i < d.nargs; i++) {
            const Ty& t = d.args[i];
            if (t.k == T_VEC) vec(&op.args[o], t);
            else if (t.k == T_SCA) elem(&op.args[o], t.bits, t.b);
            else if (t.k == T_INT) { int v = imm(d, op.invalid); memcpy(&op.args[o], &v, 4); }
            o += (t.size + 7) / 8 * 8;
        }
    }
    void relate(Op& op)
    {   // turn the operands of an earlier call into ones a careless key takes for the same: exchanged, rearranged, or different in one bit
        const OpDesc& d = OPS[op.fn]; std::vector<int> at, ix; int o = 0;
        for (int i = 0; i < d.nargs; i++) { if (d.args[i].k == T_VEC || d.args[i].k == T_SCA) { at.push_back(o); ix.push_back(i); } o += (d.args[i].size + 7) / 8 * 8; }
        if (d.dir == M_LD && r.chance(1, 2)) { op.pre ^= 0x80000000u; if (r.chance(1, 2)) return; }
        if (ix.empty()) return;
        u32 mode = r.below(4);
        if (mode == 0 && ix.size() > 1) {
            int a = r.below((u32)ix.size()), b = r.below((u32)ix.size()); const Ty &x = d.args[ix[a]], &y = d.args[ix[b]];
            if (a != b && x.size == y.size) { std::swap_ranges(op.args.begin() + at[a], op.args.begin() + at[a] + x.size, op.args.begin() + at[b]); return; }
            mode = 1;
        }
        if (mode == 1) {        // the same rearrangement in every operand
            u32 k = r.next() & 0xffff; bool rev = r.chance(1, 2);
            for (size_t i = 0; i < ix.size(); i++) {
                const Ty& t = d.args[ix[i]]; int es = t.bits / 8, cnt = t.lanes * t.n; if (t.k != T_VEC || cnt < 2) continue; u8* p = &op.args[at[i]]; std::vector<u8> q(p, p + es * cnt);
                for (int j = 0; j < cnt; j++) memcpy(p + j * es, &q[(rev ? cnt - 1 - j : (j + 1 + k % (cnt - 1)) % cnt) * es], es);
            }
            return;
        }
        int i = r.below((u32)ix.size()); const Ty& t = d.args[ix[i]]; u8* p = &op.args[at[i]]; int es = t.bits / 8, cnt = t.size / es;
        if (mode == 2 && cnt > 1) { int a = r.below(cnt), b = r.below(cnt); for (int j = 0; j < es; j++) std::swap(p[a * es + j], p[b * es + j]); }
        else p[r.below(t.size)] ^= 1 << r.below(8);
    }
    // ---- placement
    int place(int fp)
    {
        int m = REGBYTES - fp;
        switch (r.below(8)) {
        case 0: return 0;
        case 1: return m;
        case 2: return PAGE;
        case 3: return PAGE - fp;
        case 4: { int o = PAGE - (int)r.below(fp + 1); return std::max(0, std::min(m, o)); }
        case 5: return (int)r.below(m + 1) / 16 * 16;
        default: return (int)r.below(m + 1);
        }
    }
    int pick_fn()
    {
        u32 x = r.below(100);
        if (x < 60) return foc;
        if (hot && hot->size() > 1 && x < 80) { for (int t = 0; t < 8; t++) { int f = (*hot)[r.below((u32)hot->size())]; if (f != foc && present(f)) { for (int q : allow) if (q == f) return f; } } }
        if (x < 85) { for (int t = 0; t < 30; t++) { int f = allow[r.below((u32)allow.size())]; if (OPS[f].stem == OPS[foc].stem) return f; } return foc; }
        return allow[r.below((u32)allow.size())];
    }
    Op& add(int prog, int fn, bool invalid = false)
    {
        Op op; op.id = nextid++; op.prog = prog; op.fn = fn; op.reg = prog < NREG - 1 ? prog : NREG - 2; op.off = place(std::max<int>(OPS[fn].fp, 1)); op.res = (u32)r.next(); op.so = (u8)r.below(256); op.invalid = invalid; op.pre = (u32)r.next();
        // sometimes the very same call again: same intrinsic, same operands, elsewhere
        bool same = false;
        if (!invalid && !sc.ops.empty() && r.chance(1, P == 2 ? 2 : 5)) { const Op& q = sc.ops[r.below((u32)sc.ops.size())]; if (!q.invalid && (q.fn == fn || r.chance(1, 2))) { op.fn = q.fn; op.args = q.args; op.pre = q.pre; same = true; if (r.chance(1, 3)) op.off = q.off; if (op.off + OPS[op.fn].fp > REGBYTES) op.off = 0; if (r.chance(1, 4)) relate(op); } }
        if (!same) fill_args(op);
        else if (op.off + OPS[op.fn].fp > REGBYTES) op.off = 0;
        sc.ops.push_back(op); return sc.ops.back();
    }
    struct Prof { u32 m, n[6]; };
    const Prof& profile(const Op& op)
    {   // points of a call run alone: from canonical operands, so that it does not depend on what this process generated before
        static std::map<int, Prof> prof; int key = (lib * 1024 + op.fn) * 2 + (op.invalid != 0); auto it = prof.find(key); if (it != prof.end()) return it->second;
        Gen g(mix64(op.fn * 2 + (op.invalid != 0))); g.lib = lib; g.P = 1; g.foc = op.fn; Prof p; p.m = 1;
        for (int i = 0; i < 6; i++) { Op o; o.id = 1; o.prog = 0; o.fn = op.fn; o.reg = o.off = 0; o.res = 0; o.so = 0; o.invalid = op.invalid; o.pre = 7 + i; g.fill_args(o); p.n[i] = engine_points(lib, o, P); p.m = std::max(p.m, p.n[i]); }
        return prof[key] = p;
    }
    // numbers of earlier calls after which the call takes an unusual path or gives another result, and distances between them
    struct Hist { std::vector<u32> at, gap; };
    const Hist& history(int fn, bool deep)
    {
        static std::map<int, Hist> hist; int key = (lib * 1024 + fn) * 2 + deep; auto it = hist.find(key); if (it != hist.end()) return it->second;
        Gen g(mix64(fn)); g.lib = lib; g.P = 1; g.foc = fn; Op o; o.id = 1; o.prog = 0; o.fn = fn; o.reg = o.off = 0; o.res = 0; o.so = 0; o.invalid = 0; o.pre = 7; g.fill_args(o);
        Hist h; h.at = engine_history(lib, o, deep ? 1200000 : 140000); for (size_t i = 1; i < h.at.size(); i++) h.gap.push_back(h.at[i] - h.at[i - 1]);
        return hist[key] = h;
    }
    // pairs of calls with other operands that the code takes for the same
    const std::vector<std::pair<Op, Op>>& twins(int fn)
    {
        static std::map<int, std::vector<std::pair<Op, Op>>> tw; auto it = tw.find(fn); if (it != tw.end()) return it->second;
        auto& out = tw[fn]; int l = lib_index("gcc-O2"); if (l < 0) return out;
        Gen g(mix64(fn + 7777)); g.lib = l; g.P = 1; g.foc = fn; if (!g.present(fn)) return out;
        Op o; o.id = 1; o.prog = 0; o.fn = fn; o.reg = o.off = 0; o.res = 0; o.so = 0; o.invalid = 0; o.pre = 7; g.fill_args(o); Op base = o; const OpDesc& d = OPS[fn];
        std::vector<Op> ops; u32 n = std::min(160000u, 24000000u / g.npoints_of(fn));
        for (u32 i = 0; i < n; i++) {
            if (i % 3 == 0) g.fill_args(o);
            else {   // few elements differ from the base's
                o = base; std::vector<std::pair<int, int>> at; int a = 0; for (int q = 0; q < d.nargs; q++) { const Ty& t = d.args[q]; if (t.k == T_VEC || t.k == T_SCA) for (int e = 0; e + t.bits / 8 <= (int)t.size; e += t.bits / 8) at.push_back({a + e, t.bits / 8}); a += (t.size + 7) / 8 * 8; }
                for (int q = 0, c = 1 + (int)g.r.below(3), b = at.empty() ? 0 : (int)g.r.below((u32)at.size()); q < c && !at.empty(); q++) { auto& e = at[q == 0 || g.r.chance(1, 3) ? (b + q) % at.size() : g.r.below((u32)at.size())]; u64 x = g.r.chance(1, 3) ? g.r.next() : g.r.below(200); memcpy(&o.args[e.first], &x, e.second); }
            }
            o.pre = d.dir == M_LD ? (u32)g.r.next() : 7; ops.push_back(o);
        }
        for (auto& p : engine_collide(l, ops)) out.push_back({ops[p.first], ops[p.second]});
        return out;
    }
    u32 npoints(const Op& op) { return profile(op).m; }
    void act(const Op& op, u32 k, ActKind kind, int a = 0, int b = 0, u64 c = 0) { Act x; x.op = op.id; x.k = k; x.kind = kind; x.a = a; x.b = b; x.c = c; sc.acts.push_back(x); }
    Op& anyop(int lo, int hi)
    {   // a call of programs [lo,hi)
        std::vector<int> c; for (size_t i = 0; i < sc.ops.size(); i++) if (sc.ops[i].prog >= lo && sc.ops[i].prog < hi) c.push_back((int)i);
        return sc.ops[c[r.below((u32)c.size())]];
    }
    u32 kof(const Op& op)
    {   // anywhere; more often at the very start, at the end, and on shorter paths than the profiled ones
        const Prof& p = profile(op); u32 n = p.m;
        switch (r.below(10)) { case 0: return r.below(3); case 1: { u32 e = p.n[r.below(6)]; return e - r.below(std::min(e, 12u) + 1); } case 2: return r.below(std::min(n, 4u << r.below(7)) + 1); default: return r.below(n + 1); }
    }
    bool crowd(bool intr)
    {   // a call repeated, and in the middle of the repetition a certain number of other calls
        static const u32 K[] = {1, 2, 3, 7, 15, 31, 63, 127, 255, 511, 127, 255, 1023, 63, 255, 65535}; if (npoints_of(foc) > 4000) return false;
        sc.nthreads = intr ? 1 : 2; sc.nprogs = 2; Op& o = add(0, foc); Op c = o; for (int i = 0, n = 1 + (int)r.below(2); i < n; i++) { c.id = nextid++; sc.ops.push_back(c); }
        Op& x = add(1, foc); u32 k = K[r.below(r.chance(1, 30) ? 16 : 15)]; { auto& h = history(foc, false); if (!h.gap.empty() && r.chance(1, 3)) k = h.gap[r.below((u32)std::min<size_t>(h.gap.size(), 4))]; } k = std::min<u32>(k, 3000000 / npoints_of(foc)); if (r.chance(1, 3)) k += r.below(3); x.burst = k; x.bvary = r.chance(4, 5);
        Op& t = sc.ops[sc.ops.size() - 2]; act(t, kof(t), intr ? A_INTR : A_SWITCH, 1, intr ? 0 : buffered()); if (r.chance(1, 4)) { Op& q = anyop(0, 2); act(q, kof(q), A_SWITCH, q.prog && !intr ? 0 : 1); }
        if (r.chance(1, 3)) { Op d = c; d.id = nextid++; sc.ops.push_back(d); } sc.start = 0; return true;
    }
    void tower(bool intr)
    {   // many calls inside at once: each interrupted by the next handler, or by a switch to the next thread
        int n = 4 + (int)r.below(r.chance(1, 3) ? 15 : 6); if (npoints_of(foc) > 20000) n = 4; sc.nthreads = intr ? 1 : n; sc.nprogs = n; sc.start = 0; u32 k = 0;
        for (int p = 0; p < n; p++) {
            Op& o = add(p, r.chance(5, 6) ? foc : pick_fn()); if (p >= NREG - 2) o.off = 128 * (p - NREG + 2);
            if (!p || r.chance(1, 8)) k = kof(o); if (p + 1 < n) act(o, k, intr ? A_INTR : A_SWITCH, p + 1, intr ? 0 : buffered());
        }
        if (r.chance(1, 2)) { Op& o = anyop(0, n); act(o, kof(o), intr && r.chance(1, 2) ? A_ABANDON : A_SWITCH, (int)r.below(intr ? 2 : n)); }
        if (r.chance(1, 2)) { add(0, foc); }
    }
    u32 npoints_of(int fn) { Op o; o.fn = fn; o.invalid = 0; return npoints(o); }
    int other(int prog) { if (sc.nthreads < 2) return prog; int t = (int)r.below(sc.nthreads - 1); return t >= prog ? t + 1 : t; }
    void switches(int n) { for (int i = 0; i < n; i++) { Op& o = anyop(0, sc.nprogs); act(o, kof(o), A_SWITCH, o.prog < sc.nthreads ? other(o.prog) : (int)r.below(sc.nthreads), buffered()); } }
    int buffered() { return P != 2 && P != 7 && P != 13 && P != 6 && r.chance(1, 3) ? 1 + (int)r.below(4) : 0; }   // stores still in the store buffer of the thread switched away from
    void dense(const Op& o) { u32 n = std::min(npoints(o), 200u); for (u32 k = 0; k <= n; k++) if (r.chance(1, 2)) act(o, k, A_SWITCH, r.chance(4, 5) ? other(o.prog) : (int)r.below(sc.nthreads), buffered()); }

    void conflicts()
    {   // order (by hand-over) every pair of calls of different programs that touch common bytes with at least one store
        for (size_t j = 0; j < sc.ops.size(); j++) for (size_t i = 0; i < j; i++) {
            Op& a = sc.ops[i]; Op& b = sc.ops[j]; const OpDesc& x = OPS[a.fn]; const OpDesc& y = OPS[b.fn];
            if (a.prog == b.prog || !x.fp || !y.fp || a.reg != b.reg || (x.dir == M_LD && y.dir == M_LD)) continue;
            if (a.off < b.off + y.fp && b.off < a.off + x.fp) b.deps.push_back(a.id);
        }
    }
    void agents(int n)
    {   // outside writers change bytes next to an operand while the call runs
        for (int i = 0; i < n; i++) {
            Op& o = anyop(0, sc.nthreads); int fp = OPS[o.fn].fp; if (!fp) continue;
            int off; switch (r.below(4)) { case 0: off = o.off - 1 - (int)r.below(16); break; case 1: off = o.off + fp; break; case 2: off = o.off + fp + (int)r.below(24); break; default: off = o.off - 16 + (int)r.below(fp + 32); }
            act(o, kof(o), A_AGENT, o.reg, off, r.next());
        }
    }
    void pages(bool absent, bool ro)
    {   // absent pages are populated on access; read-only pages must hold no store destination
        for (int p = 0; p < NREG * REGPAGES; p++) {
            int rg = p / REGPAGES, lo = p % REGPAGES * PAGE, hi = lo + PAGE; bool st = false;
            for (auto& o : sc.ops) if (o.reg == rg && OPS[o.fn].dir == M_ST && o.off < hi && o.off + OPS[o.fn].fp > lo) st = true;
            if (absent && r.chance(1, 2)) sc.absent |= 1u << p; else if (ro && !st && r.chance(2, 3)) sc.rdonly |= 1u << p;
        }
    }
    void memory_programs(int threads, int maxops, bool stores, bool loads)
    {
        int base = (int)r.below(NREG - 2), shared = 1 + (int)r.below(2); int anchor = place(64);
        int n = 1 + (int)r.below(maxops * threads);
        for (int i = 0; i < n; i++) {
            int pr = (int)r.below(threads), fn = pick_fn();
            if (P == 8 && r.chance(1, 2)) {                      // pair the focus with any form on the other side
                for (int t = 0; t < 40; t++) { int f = allow[r.below((u32)allow.size())]; if (OPS[f].dir != OPS[foc].dir) { fn = f; break; } }
            }
            Op& o = add(pr, fn); int fp = OPS[o.fn].fp; o.reg = base + (int)r.below(shared); fill_args(o);
            if (i && r.chance(1, 4)) { Op& q = sc.ops[r.below((u32)sc.ops.size() - 1)]; if (q.fn == o.fn) { o.args = q.args; relate(o); } }
            if (OPS[fn].dir == M_ST && (P == 5 || P == 8) && r.chance(1, 5)) o.eq = 1 + (u8)r.below(2);
            if (r.chance(2, 3) && i) {                           // pack against, or onto, an earlier operand
                Op& q = sc.ops[r.below((u32)sc.ops.size() - 1)]; int qf = OPS[q.fn].fp; o.reg = q.reg;
                switch (r.below(P == 8 ? 6 : 4)) { case 0: o.off = q.off + qf; break; case 1: o.off = q.off - fp; break; case 2: o.off = q.off + qf + (int)r.below(9); break; case 3: o.off = q.off - fp - (int)r.below(9); break; case 4: o.off = q.off; break; default: o.off = q.off + (int)r.below(qf + 1) - (int)r.below(fp + 1); }
                o.off = std::max(0, std::min(REGBYTES - fp, o.off));
            } else if (r.chance(1, 4)) o.off = std::max(0, std::min(REGBYTES - fp, anchor));
        }
        (void)stores; (void)loads;
    }
};
static u32 fpmode_a(Rng& r)
{
    u32 m = 0x1f80 | r.below(4) << 13; if (r.chance(1, 2)) m |= 0x8000; if (r.chance(1, 2)) m |= 0x40;
    if (r.chance(1, 2)) m &= ~0x1f80u; else if (r.chance(1, 4)) m &= ~(0x80u << r.below(6));
    return m;
}
// allowed and focus sets per property
static void sets(int P, int lib, int fpc, std::vector<int>& allow, std::vector<int>& focus)
{
    for (int i = 0; i < NOPS; i++) {
        if (!LIBS[lib].fn[i]) continue;
        const OpDesc& d = OPS[i];
        switch (P) {
        case 5: case 7: if (d.dir != M_ST) continue; break;
        case 6: if (d.dir != M_LD) continue; break;
        case 8: if (d.dir == M_NONE) continue; break;
        case 11: if (d.fpclass > fpc) continue; break;
        }
        allow.push_back(i);
        if (P == 9 && d.imm >= 0 && d.validated) { focus.push_back(i); focus.push_back(i); }
        focus.push_back(i);
    }
}
Scenario gen_scenario(int prop, u64 seed, u64 index, int)
{
    static const char* VAR[20] = {"gcc-O2", "gcc-O0", "clang-O1", "gcc-O2", "asm-O2", "clang-O1", "gcc-O2", "gcc-O0", "gcc-O2", "asm-O2", "gcc-O0", "clang-O1", "gcc-O2", "gcc-O0", "asm-O2", "clang-O1", "gcc-O2", "gcc-O0", "gcc-O2", "clang-O1"};
    Gen g(mix64(seed) ^ mix64(index * 64 + prop)); Rng& r = g.r; Scenario& sc = g.sc; int P = g.P = prop;
    int fpc = 2; bool fpA = false;
    if (P == 11) { fpA = r.chance(1, 2); fpc = fpA ? 0 : 1; }
    bool fpmixed = (P == 3 && r.chance(1, 3)) || P == 12;
    std::vector<int> tmpa, tmpf; sets(P, 0, P == 11 ? 1 : 2, tmpa, tmpf);   // the focus rotation depends on the index only
    g.round = index / tmpf.size(); g.foc = tmpf[index % tmpf.size()];
    static std::map<int, std::vector<int>> hots; if (!hots.count(P)) hots[P] = hot_list(P, tmpf);
    auto& hot = hots[P]; bool ishot = !hot.empty() && (index & 3) == 1; u64 vi = index;
    if (ishot) { u64 q = index / 4; g.foc = hot[q % hot.size()]; g.round = q / hot.size(); vi = g.round * 1237; g.hot = &hot; }
    const char* v = VAR[(vi % tmpf.size() + g.round * 7) % 20];
    g.lib = lib_index(v); if (g.lib < 0) g.lib = 0;
    sets(P, g.lib, fpc, g.allow, g.focus);
    if (P == 11 && OPS[g.foc].fpclass > fpc) { fpA = false; fpc = 1; g.allow.clear(); g.focus.clear(); sets(P, g.lib, fpc, g.allow, g.focus); }
    if (P == 3 && fpmixed) { if (OPS[g.foc].fpclass > 1) fpmixed = false; else { std::vector<int> a; for (int f : g.allow) if (OPS[f].fpclass <= 1) a.push_back(f); g.allow = a; } }
    if (ishot && (GUIDE.flags[g.foc] & (GF_STATE | GF_TLS)) && g.round % 64 == 5 && lib_index("gcc-O2") >= 0) g.lib = lib_index("gcc-O2");   // the variant with the fewest points, for long histories
    sc.prop = prop; sc.variant = LIBS[g.lib].variant; sc.seed = r.next(); sc.nthreads = 1; sc.nprogs = 1;
    for (int i = 0; i < MAXPROG; i++) { sc.fpmode[i] = 0x1f80; sc.tiny[i] = 0; }
    sc.heapfill = (u32)r.next(); sc.allocfail = 0; sc.stderrmode = SE_OK; sc.absent = sc.rdonly = 0; sc.faultserv = FS_RESUME; sc.repeat = 1; sc.newthreads = sc.vary = 0;
    sc.clock0 = 1000000000ull * r.below(2000000000); sc.arena_seed = (u32)r.next(); sc.start = 0; sc.order = 0;
        auto progs = [&](int n, int maxops) { for (int p = 0; p < n; p++) { int c = 1 + (int)r.below(maxops); for (int i = 0; i < c; i++) g.add(p, g.pick_fn()); } };
    // a long history before the checked calls, for functions whose code keeps state
    bool stateful = ishot && (GUIDE.flags[g.foc] & (GF_STATE | GF_TLS)), deephot = stateful && g.round % 64 == 5;
    auto deepwarm = [&]() -> u32 {
        static const u32 K[] = {256, 1000, 4096, 65536, 10000, 1u << 20, 100000, 16384, 1u << 17, 1000000, 1u << 16, 1u << 24, 50000, 1u << 18};
        u64 q = g.round / 64; u32 k = K[q % 14]; if (q > 27 && k > 100000) k = 1u << (8 + q % 9);
        Op o; o.id = 1; o.prog = 0; o.fn = g.foc; o.invalid = 0; u64 lim = 2000000000ull / g.npoints(o); if (k > lim) k = (u32)lim; return k - 1 - r.below(40); };
    switch (P) {
    case 1: {
        if (stateful && r.chance(1, 6) && g.crowd(false)) return sc;
        if (r.chance(1, 12)) { g.tower(false); break; }
        sc.nthreads = sc.nprogs = 2 + (int)r.below(r.chance(1, 3) ? 3 : 1); progs(sc.nthreads, 3);
        if (r.chance(1, 4)) { g.dense(g.anyop(0, sc.nthreads)); if (r.chance(1, 2)) g.dense(g.anyop(0, sc.nthreads)); }
        else g.switches(1 + (int)r.below(r.chance(1, 3) ? 14 : 5));
        if (r.chance(1, 4)) { Op& o = g.anyop(0, sc.nthreads); g.act(o, g.kof(o), A_STALL); }
        break; }
    case 2: {
        sc.nthreads = sc.nprogs = 1 + (int)r.below(r.chance(1, 4) ? 3 : 1);
        if (deephot) {
            sc.warm = deepwarm(); sc.vary = r.chance(1, 3); sc.nthreads = sc.nprogs = 1; g.add(0, g.foc); for (int i = 0; i < 60; i++) { Op o = sc.ops[r.below((u32)sc.ops.size())]; o.id = g.nextid++; if (r.chance(1, 3)) g.fill_args(o); sc.ops.push_back(o); }
            sc.repeat = 1; break;
        }
        bool deep = g.round == 11 || g.round % 600 == 599;
        if (deep) { sc.nthreads = sc.nprogs = 1; g.add(0, g.foc); sc.repeat = 66000; if (g.npoints(sc.ops[0]) > 3000) sc.repeat = 3000; }
        else {
            progs(sc.nthreads, r.chance(1, 4) ? 24 : 6);
            if (r.chance(1, 5)) sc.repeat = 2 + r.below(12); else if (r.chance(1, 12)) sc.repeat = 64 + r.below(400);
            for (int i = 0, n = (int)r.below(4); i < n; i++) { Op& o = g.anyop(0, sc.nthreads); g.act(o, r.chance(1, 2) ? 0 : g.kof(o), A_CLOCK, 0, 0, r.chance(1, 2) ? r.next() >> (4 + r.below(50)) : (u64)-(i64)(r.next() >> (8 + r.below(40)))); }
            for (int i = 0, n = sc.nthreads > 1 ? (int)r.below(6) : 0; i < n; i++) { Op& o = g.anyop(0, sc.nthreads); g.act(o, 0, A_SWITCH, (int)r.below(sc.nthreads)); }
        }
        break; }
    case 3: {
        if (stateful && r.chance(1, 8) && g.crowd(true)) return sc;
        if (r.chance(1, 10)) { g.tower(true); break; }
        sc.nthreads = 1 + (int)r.below(2); int h = (int)r.below(3); sc.nprogs = sc.nthreads + 1 + h;
        progs(sc.nprogs, 3);
        for (int t = 0; t < sc.nthreads; t++) g.add(t, g.foc);          // a later call after whatever was abandoned
        int n = 1 + (int)r.below(4);
        for (int i = 0; i < n; i++) {
            Op& o = g.anyop(0, sc.nprogs); u32 x = r.below(10);
            if (x < 5) g.act(o, g.kof(o), A_INTR, sc.nthreads + (int)r.below(sc.nprogs - sc.nthreads));
            else if (x < 9) g.act(o, 1 + g.kof(o), A_ABANDON, (int)r.below(2));
            else if (sc.nthreads > 1) g.act(o, 1 + g.kof(o), A_KILL);
        }
        if (r.chance(1, 8)) { Op& o = g.anyop(0, sc.nthreads); u32 m = std::min(g.npoints(o), 120u); for (u32 k = 0; k <= m; k++) if (r.chance(1, 4)) g.act(o, k, A_INTR, sc.nthreads + (int)r.below(sc.nprogs - sc.nthreads)); }
        { Op& o = g.anyop(0, sc.nthreads); g.act(o, g.kof(o), A_INTR, sc.nthreads); }
        if (sc.nthreads > 1) g.switches((int)r.below(4));
        if (fpmixed) for (int t = 0; t < sc.nthreads; t++) sc.fpmode[t] = 0x1f80 | r.below(4) << 13;
        if (r.chance(1, 10)) sc.repeat = 2 + r.below(6);
        break; }
    case 4: {
        if (r.chance(1, 12)) { g.tower(r.chance(1, 3)); break; }
        sc.nthreads = sc.nprogs = 2 + (int)r.below(3); progs(sc.nthreads, 3); int n = 1 + (int)r.below(sc.nthreads);
        for (int i = 0; i < n; i++) { Op& o = g.anyop(0, sc.nthreads); g.act(o, g.kof(o), r.chance(2, 3) ? A_STALL : A_KILL); }
        g.switches((int)r.below(5));
        if (r.chance(1, 4)) { sc.nprogs++; g.add(sc.nthreads, g.pick_fn()); Op& o = g.anyop(0, sc.nthreads); g.act(o, g.kof(o), A_INTR, sc.nthreads); }
        break; }
    case 5: case 6: case 7: case 8: {
        sc.nthreads = sc.nprogs = 1 + (int)r.below(3);
        g.memory_programs(sc.nthreads, P == 8 ? 5 : 3, true, true);
        if (P == 5 || P == 6) g.agents(1 + (int)r.below(5));
        if (P == 5 && r.chance(1, 3)) g.pages(false, true);
        if (P == 6 && r.chance(1, 2)) { g.pages(r.chance(2, 3), r.chance(1, 2)); if (sc.absent && r.chance(1, 2)) sc.faultserv = FS_RETRY; }
        if (P == 7) {
            int n = 1 + (int)r.below(3);
            for (int i = 0; i < n; i++) { Op& o = g.anyop(0, sc.nthreads); g.act(o, g.kof(o), r.chance(3, 4) ? A_CRASH : r.chance(1, 2) ? A_KILL : A_ABANDON); }
            if (r.chance(1, 4)) { g.pages(true, false); if (r.chance(1, 2)) sc.faultserv = FS_RETRY; }
            if (r.chance(1, 3)) g.agents(2);
        }
        if (sc.nthreads > 1) { if (r.chance(1, 6)) g.dense(g.anyop(0, sc.nthreads)); g.switches((int)r.below(7)); }
        if (r.chance(1, 8) && P != 7) { sc.repeat = 2 + r.below(3); }
        g.conflicts(); if (sc.repeat > 1) for (auto& o : sc.ops) if (!o.deps.empty()) { sc.repeat = 1; break; }
        if (sc.repeat > 1 && P >= 5) { bool multi = sc.nthreads > 1; if (multi) sc.repeat = 1; }
        break; }
    case 9: {
        sc.nthreads = sc.nprogs = 1 + (int)r.below(3); progs(sc.nthreads, 4);
        std::vector<int> val; for (int f : g.allow) if (OPS[f].imm >= 0 && OPS[f].validated) val.push_back(f);
        if (r.chance(3, 5) && !val.empty()) { int f = OPS[g.foc].validated && OPS[g.foc].imm >= 0 ? g.foc : val[r.below((u32)val.size())]; int t = (int)r.below(sc.nthreads); g.add(t, f, true); if (sc.nthreads > 1 && r.chance(1, 4)) { Op& o = g.add(g.other(t), r.chance(2, 3) ? f : val[r.below((u32)val.size())], true); if (r.chance(2, 3)) { Op& q = sc.ops[sc.ops.size() - 2]; g.act(q, g.kof(q), A_SWITCH, o.prog); } } }
        sc.stderrmode = r.chance(1, 2) ? SE_OK : 1 + (int)r.below(4);
        g.switches((int)r.below(6)); if (r.chance(1, 3) && sc.nthreads > 1) { Op& o = g.anyop(0, sc.nthreads); g.act(o, g.kof(o), A_STALL); }
        break; }
    case 10: {
        sc.nthreads = sc.nprogs = 1 + (int)r.below(2); progs(sc.nthreads, 5);
        sc.allocfail = r.chance(1, 4) ? 0 : r.chance(1, 2) ? 0xffffffffu : r.chance(1, 2) ? 1u << r.below(6) : (u32)r.next();
        for (int t = 0; t < sc.nthreads; t++) sc.tiny[t] = sc.allocfail == 0 || r.chance(1, 2);
        if (sc.nthreads > 1) g.switches((int)r.below(4));
        if (r.chance(1, 6)) sc.repeat = 2 + r.below(20);
        break; }
    case 11: {
        sc.nthreads = sc.nprogs = 1 + (int)r.below(3); progs(sc.nthreads, 5);
        for (int t = 0; t < sc.nthreads; t++) sc.fpmode[t] = fpA ? fpmode_a(r) : 0x1f80 | r.below(4) << 13;
        if (sc.nthreads > 1) g.switches((int)r.below(6));
        break; }
    case 12: {
        if (r.chance(1, 8)) { g.tower(r.chance(1, 4)); break; }
        sc.nthreads = 1 + (int)r.below(2); sc.nprogs = sc.nthreads + (int)r.below(2); progs(sc.nprogs, 5);
        for (int t = 0; t < sc.nthreads; t++) if (r.chance(1, 2)) { u32 m = 0x1f80 | r.below(4) << 13; if (r.chance(1, 4)) m |= 0x8000; if (r.chance(1, 4)) m |= 0x40; sc.fpmode[t] = m; }
        if (sc.nthreads > 1) g.switches((int)r.below(4));
        if (sc.nprogs > sc.nthreads) { Op& o = g.anyop(0, sc.nthreads); g.act(o, g.kof(o), A_INTR, sc.nthreads); }
        if (r.chance(1, 6)) sc.allocfail = r.chance(1, 2) ? 0xffffffffu : (u32)r.next();
        if (r.chance(1, 6)) sc.repeat = 2 + r.below(300);
        break; }
    case 13: {
        sc.nthreads = 1 + (int)r.below(2); sc.nprogs = sc.nthreads + (int)r.below(2); progs(sc.nprogs, 3);
        sc.repeat = 24 + r.below(48); sc.vary = r.chance(1, 2); sc.newthreads = r.chance(1, 3);
        int n = (int)r.below(4); for (int i = 0; i < n; i++) { Op& o = g.anyop(0, sc.nprogs); g.act(o, 1 + g.kof(o), A_ABANDON, (int)r.below(2)); }
        if (sc.nprogs > sc.nthreads) { Op& o = g.anyop(0, sc.nthreads); g.act(o, g.kof(o), A_INTR, sc.nthreads); }
        if (sc.nthreads > 1) g.switches((int)r.below(4));
        if (r.chance(1, 5)) sc.allocfail = 1u << r.below(6) | 1u << r.below(12);
        break; }
    }
    if (P == 26) {
        sc.nthreads = sc.nprogs = 1 + (int)r.below(3); progs(sc.nthreads, 4); u32 k = r.below(15) + 1;   // which stages: 1 before initialisation, 2 exit, 4 end of thread, 8 fork
        for (int t = 0; t < sc.nthreads; t++) { int n = 1 + (int)r.below(2); for (int i = 0; i < n; i++) g.add(t, r.chance(3, 4) ? g.foc : sc.ops[r.below((u32)sc.ops.size())].fn); }
        if (k & 1) sc.early = 1 + r.below(3);
        if (k & 2) for (int i = 0, n = 1 + (int)r.below(2); i < n; i++) { Op& o = g.anyop(0, sc.nthreads); g.act(o, 0, A_EXIT, r.chance(1, 2) ? 0 : 1 + (int)r.below(2)); }
        if (k & 4) for (int i = 0, n = 1 + (int)r.below(2); i < n; i++) { Op& o = g.anyop(0, sc.nthreads); g.act(o, 0, A_TEXIT); }
        if ((k & 8) && sc.nthreads > 1) { Op& o = g.anyop(0, sc.nthreads); g.act(o, r.chance(1, 2) ? 0 : g.kof(o), A_FORK); }
        if (sc.nthreads > 1) { g.switches((int)r.below(6)); if (k & 8) { Op& o = g.anyop(0, sc.nthreads); g.dense(o); } }
        if (r.chance(1, 4)) { sc.repeat = 2 + r.below(4); sc.newthreads = r.chance(2, 3); }
    }
    if (stateful && hot.size() <= 40 && (P == 1 || P == 2) && !sc.warm && g.round % 8 == 3 && r.chance(3, 4)) {
        auto& tw = g.twins(g.foc);
        if (!tw.empty()) {
            sc.ops.clear(); sc.acts.clear(); sc.repeat = 1; sc.nthreads = sc.nprogs = P == 1 ? 2 : 1; sc.start = 0;
            for (int i = 0, n = 1 + (int)r.below(4); i < n; i++) { auto& p = tw[r.below((u32)tw.size())]; for (int s = 0; s < 2; s++) { Op& o = g.add(P == 1 ? s : 0, g.foc); o.args = (s ? p.second : p.first).args; o.pre = (s ? p.second : p.first).pre; o.eq = 0; if (sc.ops.size() > 1 && OPS[g.foc].fp && P == 2) o.off = sc.ops[0].off; } }
            if (P == 1) g.switches(1 + (int)r.below(3));
        }
    }
    static const Gen::Hist none; const Gen::Hist& hi = stateful && g.present(g.foc) ? g.history(g.foc, g.round % 64 == 37) : none; auto& at = hi.at;
    auto some = [&](const std::vector<u32>& v) { return v[r.chance(1, 2) ? r.below((u32)std::min<size_t>(v.size(), 4)) : r.below((u32)v.size())]; };
    if (stateful && !sc.warm && P != 13) {
        if (!at.empty() && r.chance(1, 3)) { u32 k = some(at); sc.warm = k - std::min(k, r.chance(2, 3) ? 0 : r.below(4)); sc.vary = r.chance(1, 2); if (sc.ops[0].fn != g.foc) sc.warm = 0; }
        else if (deephot && (P >= 4 && P <= 12) && P != 10 && P != 11) { sc.warm = deepwarm(); sc.vary = 1; } else if (r.chance(1, 8)) sc.warm = r.below(1u << r.below(13));
        if (sc.warm && (sc.ops[0].invalid || sc.ops[0].prog || sc.early)) sc.warm = 0;
        if (sc.warm) { u32 m = ((1u << REGPAGES) - 1) << (NREG - 1) * REGPAGES; sc.absent &= ~m; sc.rdonly &= ~m; }   // the history works there
    }
    if (P == 13 && !at.empty() && r.chance(1, 4)) {   // long enough for the unusual to come several times
        u32 k = 6 * (hi.gap.empty() ? at[0] : some(hi.gap)) + 24, n = g.npoints_of(g.foc) + 20; sc.ops.clear(); sc.acts.clear(); sc.nthreads = sc.nprogs = 1; sc.newthreads = 0; sc.vary = r.chance(1, 2); g.add(0, g.foc); sc.repeat = std::max(24u, std::min(k, 40000000 / n));
    }
    if (stateful && (P <= 4 || P == 9 || P == 10 || P == 11 || P == 12 || P == 26) && r.chance(1, 6)) {   // one call of somebody else repeated many times in the middle
        static const u32 K[] = {3, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 1000, 1024, 4096, 65536};
        Op& o = g.anyop(0, sc.nprogs); if (!o.invalid) {
            u32 k = K[r.below(r.chance(1, 40) ? 18 : 15)]; if (!at.empty() && r.chance(1, 2)) { k = hi.gap.empty() || r.chance(1, 3) ? some(at) : some(hi.gap); if (r.chance(1, 2)) k += 2; if (o.fn != g.foc) k = std::min(k, 4096u); }
            k = std::min<u32>(k, 3000000 / g.npoints(o)); k = std::max(1u, k) - r.below(std::min(3u, std::max(1u, k))); o.burst = k; o.bvary = P == 11 ? 0 : r.chance(2, 3); }
    }
    if (stateful && (P == 2 || P == 5 || P == 6 || P == 8 || P == 9) && r.chance(1, 6))   // history may include calls that never finished
        for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) { Op& o = g.anyop(0, sc.nthreads); if (!o.invalid) g.act(o, 1 + g.kof(o), sc.nthreads == 1 || r.chance(3, 4) ? A_ABANDON : A_KILL, (int)r.below(2)); }
    if (stateful && (P <= 4 || P == 9 || P == 12) && !sc.warm && sc.repeat < 64 && r.chance(1, 6)) { sc.repeat = 8 + r.below(r.chance(1, 8) ? 300 : 70); sc.newthreads = r.chance(2, 3); for (auto& o : sc.ops) o.burst = std::min(o.burst, 8u); }
    sc.start = (int)r.below(sc.nthreads);
    return sc;
}
