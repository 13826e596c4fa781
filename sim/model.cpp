// Reference model of the load/store intrinsics: element placement only, by bytes.
#include "engine.h"
static size_t argoff(const OpDesc& d, int j) { size_t o = 0; for (int i = 0; i < j; i++) o += (d.args[i].size + 7) / 8 * 8; return o; }
static int vecarg(const OpDesc& d) { for (int i = 0; i < d.nargs; i++) if (d.args[i].k == T_VEC) return i; return -1; }
static int lane_of(const OpDesc& d, const std::vector<u8>& a) { int v = 0; if (d.imm >= 0) memcpy(&v, &a[argoff(d, d.imm)], 4); return v; }
// vector register j, lane i lies at byte (j*lanes+i)*es of the vector (array) value
void model_load(const OpDesc& d, const u8* src, const std::vector<u8>& a, u8* ret)
{
    int N = d.mn, L = d.mlanes, es = d.es;
    if (d.form == F_LANE) memcpy(ret, &a[argoff(d, vecarg(d))], N * L * es);
    for (int j = 0; j < N; j++)
        for (int i = 0; i < L; i++) {
            u8* r = ret + (j * L + i) * es;
            if (d.form == F_FULL) memcpy(r, src + (i * N + j) * es, es);
            else if (d.form == F_DUP) memcpy(r, src + j * es, es);
            else if (i == lane_of(d, a)) memcpy(r, src + j * es, es);
        }
}
void model_store(const OpDesc& d, u8* dst, const std::vector<u8>& a)
{
    int N = d.mn, L = d.mlanes, es = d.es; const u8* v = &a[argoff(d, vecarg(d))];
    for (int j = 0; j < N; j++)
        for (int i = 0; i < L; i++) {
            const u8* e = v + (j * L + i) * es;
            if (d.form == F_FULL) memcpy(dst + (i * N + j) * es, e, es);
            else if (i == lane_of(d, a)) memcpy(dst + j * es, e, es);
        }
}
