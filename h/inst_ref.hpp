// The native reference functions.  out[0]: value form, out[1]: destination form where there is one.
#define WANT_IEEE 1
#include "inst_fp.hpp"
#include "thls/tops/fp_flopoco_dot2_pos_rndd.hpp"
#include "thls/tops/fp_flopoco_dot4_pos_rndd.hpp"
#include <stdlib.h>
#include "thls/tops/make_input.hpp"
#define RF2(N, ER, FR, EA, FA, EB, FB) namespace { struct VT_CAT(S_##N, __LINE__) { static void go(const u128 *in, u128 *out) { \
    const auto &a = vt_in<EA, FA>(in[0]); const auto &b = vt_in<EB, FB>(in[1]); \
    out[0] = vt_out(thls::ref_##N<ER, FR>(a, b)); thls::fp_flopoco<ER, FR> d; thls::ref_##N(d, a, b); out[1] = vt_out(d); } }; \
    } static VtReg VT_UNIQ(r_)("r" #N, VT_CAT(S_##N, __LINE__)::go, 6, ER, FR, EA, FA, EB, FB);
#define RF1D(N, ER, FR, EA, FA) namespace { struct VT_CAT(S_##N, __LINE__) { static void go(const u128 *in, u128 *out) { \
    const auto &a = vt_in<EA, FA>(in[0]); \
    out[0] = vt_out(thls::ref_##N<ER, FR>(a)); thls::fp_flopoco<ER, FR> d; thls::ref_##N(d, a); out[1] = vt_out(d); } }; \
    } static VtReg VT_UNIQ(r_)("r" #N, VT_CAT(S_##N, __LINE__)::go, 4, ER, FR, EA, FA);
#define RF1(N, ER, FR, EA, FA) namespace { struct VT_CAT(S_##N, __LINE__) { static void go(const u128 *in, u128 *out) { \
    const auto &a = vt_in<EA, FA>(in[0]); out[1] = out[0] = vt_out(thls::ref_##N<ER, FR>(a)); } }; \
    } static VtReg VT_UNIQ(r_)("r" #N, VT_CAT(S_##N, __LINE__)::go, 4, ER, FR, EA, FA);
#define RFAITH(ER, FR, EA, FA) namespace { struct VT_CAT(S_faith, __LINE__) { static void go(const u128 *in, u128 *out) { \
    const auto &a = vt_in<EA, FA>(in[0]); thls::fp_flopoco<ER, FR> d, u; thls::ref_inv_faithful(d, u, a); out[0] = vt_out(d); out[1] = vt_out(u); } }; \
    } static VtReg VT_UNIQ(r_)("rfaith", VT_CAT(S_faith, __LINE__)::go, 4, ER, FR, EA, FA);
#define RLDEXP(PL, ER, FR, EA, FA) namespace { struct VT_CAT(S_ldexp, __LINE__) { static void go(const u128 *in, u128 *out) { \
    const auto &a = vt_in<EA, FA>(in[0]); out[0] = vt_out(thls::ref_ldexp_const<ER, FR, PL>(a)); thls::fp_flopoco<ER, FR> d; thls::ref_ldexp_const<ER, FR, PL>(d, a); out[1] = vt_out(d); } }; \
    } static VtReg VT_UNIQ(r_)("rldexp", VT_CAT(S_ldexp, __LINE__)::go, 5, ER, FR, EA, FA, PL);
#define RFMA(ER, FR, EA, FA, EB, FB, EC, FC) namespace { struct VT_CAT(S_fma, __LINE__) { static void go(const u128 *in, u128 *out) { \
    const auto &a = vt_in<EA, FA>(in[0]); const auto &b = vt_in<EB, FB>(in[1]); const auto &c = vt_in<EC, FC>(in[2]); \
    out[0] = vt_out(thls::ref_fma<ER, FR>(a, b, c)); thls::fp_flopoco<ER, FR> d; thls::ref_fma(d, a, b, c); out[1] = vt_out(d); } }; \
    } static VtReg VT_UNIQ(r_)("rfma", VT_CAT(S_fma, __LINE__)::go, 8, ER, FR, EA, FA, EB, FB, EC, FC);
#define RFI(N, ER, FR, EA, FA, EB, FB) namespace { struct VT_CAT(S_i##N, __LINE__) { static void go(const u128 *in, u128 *out) { \
    const auto &a = vt_ini<EA, FA>(in[0]); const auto &b = vt_ini<EB, FB>(in[1]); \
    out[0] = (u128)(thls::ref_##N<ER, FR>(a, b)).bits.bits; thls::fp_ieee<ER, FR> d; thls::ref_##N(d, a, b); out[1] = (u128)d.bits.bits; } }; \
    } static VtReg VT_UNIQ(r_)("i" #N, VT_CAT(S_i##N, __LINE__)::go, 6, ER, FR, EA, FA, EB, FB);
#define RDOT2(E, F) namespace { struct VT_CAT(S_d2, __LINE__) { static void go(const u128 *in, u128 *out) { \
    out[1] = out[0] = vt_out(thls::dot2_pos_rndd_ref<E, F>(vt_in<E, F>(in[0]), vt_in<E, F>(in[1]), vt_in<E, F>(in[2]), vt_in<E, F>(in[3]))); } }; \
    } static VtReg VT_UNIQ(r_)("rdot2", VT_CAT(S_d2, __LINE__)::go, 2, E, F);
#define RDOT4(E, F) namespace { struct VT_CAT(S_d4, __LINE__) { static void go(const u128 *in, u128 *out) { \
    out[1] = out[0] = vt_out(thls::dot4_pos_rndd_ref<E, F>(vt_in<E, F>(in[0]), vt_in<E, F>(in[1]), vt_in<E, F>(in[2]), vt_in<E, F>(in[3]), \
        vt_in<E, F>(in[4]), vt_in<E, F>(in[5]), vt_in<E, F>(in[6]), vt_in<E, F>(in[7]))); } }; \
    } static VtReg VT_UNIQ(r_)("rdot4", VT_CAT(S_d4, __LINE__)::go, 2, E, F);
struct VtGen { typedef uint32_t result_type; uint64_t s; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; }
    uint32_t operator()() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (uint32_t)((z ^ (z >> 31)) >> 16); } };
// in: seed, mask of disabled classes, draws; out[0..7]: draws by class and sign (zero+ zero- num+ num- inf+ inf- nan+ nan-),
// out[8]/out[9]: and / or of all numbers, out[10]: bits above the width
#define RSRC(E, F) namespace { struct VT_CAT(S_src, __LINE__) { static void go(const u128 *in, u128 *out) { \
    typedef thls::fp_flopoco_random_test_source<E, F> S; S s; VtGen g; g.s = (uint64_t)in[0]; \
    if (in[1] & 1) s.disable_class(S::PosZero); if (in[1] & 2) s.disable_class(S::NegZero); if (in[1] & 4) s.disable_class(S::PosNormal); if (in[1] & 8) s.disable_class(S::NegNormal); \
    if (in[1] & 16) s.disable_class(S::PosInf); if (in[1] & 32) s.disable_class(S::NegInf); if (in[1] & 64) s.disable_class(S::NaN); \
    for (int i = 0; i < 11; i++) out[i] = 0; out[8] = ~(u128)0; \
    for (int i = 0; i < (int)in[2]; i++) { u128 v = vt_out(s(g)); int k = (int)(v >> (E + F + 1)) & 3, n = (int)(v >> (E + F)) & 1; out[k * 2 + n]++; out[10] |= v >> (E + F + 3); if (k == 1) { out[8] &= v; out[9] |= v; } } } }; \
    } static VtReg VT_UNIQ(r_)("source", VT_CAT(S_src, __LINE__)::go, 2, E, F);
// in: n, length of the prefix already there; out[0] final size, out[1..62] the list from in[2] on
#define RMKIN(E, F) namespace { struct VT_CAT(S_mk, __LINE__) { static void go(const u128 *in, u128 *out) { \
    std::vector<thls::fp_flopoco<E, F> > v; for (int i = 0; i < (int)in[1]; i++) v.push_back(vt_in<E, F>(in[3] + i)); \
    thls::make_input(v, (int)in[0]); out[0] = v.size(); for (size_t i = 0; i < 62; i++) out[1 + i] = (size_t)in[2] + i < v.size() ? vt_out(v[(size_t)in[2] + i]) : ~(u128)0; } }; \
    } static VtReg VT_UNIQ(r_)("operands", VT_CAT(S_mk, __LINE__)::go, 2, E, F);
