// Orderings and classification.
#include "inst_fp.hpp"
#include "thls/tops/fp_flopoco_ordering.hpp"
#define B1(...) ((u128)((__VA_ARGS__).to_int() & 1))
#define INST_CMP(EA, FA, EB, FB) \
    static void VT_CAT(f_cmp_, __LINE__)(const u128 *in, u128 *out) \
    { const auto &x = vt_in<EA, FA>(in[0]); const auto &y = vt_in<EB, FB>(in[1]); \
      out[0] = B1(thls::equal(x, y)) | B1(thls::not_equal(x, y)) << 1 | B1(thls::less_than(x, y)) << 2 | B1(thls::less_than_equal(x, y)) << 3 \
             | B1(thls::greater_than(x, y)) << 4 | B1(thls::greater_than_equal(x, y)) << 5; } \
    static VtReg VT_CAT(r_cmp_, __LINE__)("cmp", VT_CAT(f_cmp_, __LINE__), 6, 0, 0, EA, FA, EB, FB);
#define INST_SAME(E, F) \
    static void VT_CAT(f_eqs_, __LINE__)(const u128 *in, u128 *out) { out[0] = B1(vt_in<E, F>(in[0]).equals(vt_in<E, F>(in[1]))); } \
    static VtReg VT_CAT(r_eqs_, __LINE__)("equals", VT_CAT(f_eqs_, __LINE__), 6, 0, 0, E, F, E, F); \
    static void VT_CAT(f_ulp_, __LINE__)(const u128 *in, u128 *out) { out[0] = B1(vt_in<E, F>(in[0]).within_1ulp(vt_in<E, F>(in[1]))); } \
    static VtReg VT_CAT(r_ulp_, __LINE__)("within_1ulp", VT_CAT(f_ulp_, __LINE__), 6, 0, 0, E, F, E, F);
template<class T> inline u128 vt_preds(const T &x, int &k)
{
    u128 r = 0; k = 0;
    r |= B1(x.is_zero()) << k++; r |= B1(x.is_normal()) << k++; r |= B1(x.is_inf()) << k++; r |= B1(x.is_nan()) << k++;
    r |= B1(x.is_positive()) << k++; r |= B1(x.is_negative()) << k++;
    r |= B1(x.is_pos_normal()) << k++; r |= B1(x.is_neg_normal()) << k++;
    r |= B1(x.is_pos_zero()) << k++; r |= B1(x.is_neg_zero()) << k++;
    r |= B1(x.is_pos_inf()) << k++; r |= B1(x.is_neg_inf()) << k++;
    r |= (u128)x.get_flags().to_int() << k; k += 2;
    return r;
}
template<class T> inline void vt_limits(u128 *o)
{
    typedef std::numeric_limits<T> L;
    int i = 0;
    o[i++] = L::min().bits.bits; o[i++] = L::neg_min().bits.bits; o[i++] = L::max().bits.bits; o[i++] = L::neg_max().bits.bits;
    o[i++] = L::lowest().bits.bits; o[i++] = L::infinity().bits.bits; o[i++] = L::neg_infinity().bits.bits; o[i++] = L::quiet_NaN().bits.bits;
    o[i++] = L::pos_zero().bits.bits; o[i++] = L::neg_zero().bits.bits; o[i++] = L::zero().bits.bits;
    o[i++] = L::one().bits.bits; o[i++] = L::neg_one().bits.bits; o[i++] = L::pos_one().bits.bits;
    int d = L::digits, lo = L::min_exponent, hi = L::max_exponent;
    o[i++] = (u128)(uint64_t)d | (u128)(uint32_t)lo << 32 | (u128)(uint32_t)hi << 64;
    o[i++] = L::denorm_min().bits.bits;
    // traits: one nibble each, read by value (they have no out-of-line definition)
    const int t[] = { L::is_specialized, L::is_signed, L::is_integer, L::is_exact, L::has_infinity, L::has_quiet_NaN, L::is_bounded, L::is_modulo,
                      L::radix, L::traps, L::has_denorm, L::round_style, L::is_iec559 };
    u128 w = 0;
    for (unsigned k = 0; k < sizeof t / sizeof *t; k++) w |= (u128)(uint64_t)(t[k] & 15) << 4 * k;
    o[i++] = w;
    o[i++] = L::has_signaling_NaN ? (u128)L::signalling_NaN().bits.bits : (u128)0;
    o[i++] = (bool)L::has_signaling_NaN;
    o[23] = L::epsilon().bits.bits; o[24] = L::round_error().bits.bits;
}
#define INST_CLASS(E, F) \
    static void VT_CAT(f_cls_, __LINE__)(const u128 *in, u128 *out) \
    { const auto &x = vt_in<E, F>(in[0]); int k; out[0] = vt_preds(x, k); out[0] |= (u128)x.get_equality_class().to_int() << k; \
      out[1] = x.get_sign().bits; out[2] = x.get_exp_bits().bits; out[3] = x.get_frac_bits().bits; \
      out[4] = x.get_exp_frac_bits().bits; out[5] = x.get_flags_exp_frac_bits().bits; \
      out[6] = thls::fp_flopoco<E, F>(x.get_flags(), x.get_sign(), x.get_exp_bits(), x.get_frac_bits()).bits.bits; \
      thls::fp_flopoco<E, F> y(x), z; z = y; out[7] = z.bits.bits; } \
    static VtReg VT_CAT(r_cls_, __LINE__)("class", VT_CAT(f_cls_, __LINE__), 2, E, F); \
    static void VT_CAT(f_lim_, __LINE__)(const u128 *in, u128 *out) \
    { vt_limits<thls::fp_flopoco<E, F> >(out); typedef thls::fp_flopoco<E, F> T; int b = T::bias, lo = T::min_exponent, hi = T::max_exponent, n = std::numeric_limits<T>::bias; \
      out[19] = T().bits.bits; out[20] = (u128)(uint32_t)b | (u128)(uint32_t)lo << 32 | (u128)(uint32_t)hi << 64 | (u128)(uint32_t)n << 96; \
      out[21] = (int)T::exp_bits; out[22] = (int)T::frac_bits; } \
    static VtReg VT_CAT(r_lim_, __LINE__)("limits", VT_CAT(f_lim_, __LINE__), 2, E, F);
#ifdef WANT_IEEE
#define INST_CLASSI(E, F) \
    static void VT_CAT(f_clsi_, __LINE__)(const u128 *in, u128 *out) \
    { const auto &x = vt_ini<E, F>(in[0]); int k; out[0] = vt_preds(x, k); \
      out[1] = x.get_sign().bits; out[2] = x.get_exp_bits().bits; out[3] = x.get_frac_bits().bits; \
      thls::fp_ieee<E, F> y(x), z; z = y; out[4] = z.bits.bits; } \
    static VtReg VT_CAT(r_clsi_, __LINE__)("class_ieee", VT_CAT(f_clsi_, __LINE__), 2, E, F); \
    static void VT_CAT(f_limi_, __LINE__)(const u128 *in, u128 *out) \
    { vt_limits<thls::fp_ieee<E, F> >(out); typedef thls::fp_ieee<E, F> T; int n = std::numeric_limits<T>::bias; \
      out[19] = T().bits.bits; out[20] = (uint32_t)n; out[21] = (int)T::exp_bits; out[22] = (int)T::frac_bits; } \
    static VtReg VT_CAT(r_limi_, __LINE__)("limits_ieee", VT_CAT(f_limi_, __LINE__), 2, E, F);
#define INST_SAMEI(E, F) \
    static void VT_CAT(f_eqsi_, __LINE__)(const u128 *in, u128 *out) { out[0] = B1(vt_ini<E, F>(in[0]).equals(vt_ini<E, F>(in[1]))); } \
    static VtReg VT_CAT(r_eqsi_, __LINE__)("equals_ieee", VT_CAT(f_eqsi_, __LINE__), 6, 0, 0, E, F, E, F);
#endif
