// Arithmetic policies: small programs run through the policy's value type, one raw result per step.
#include "vt.hpp"
#include <assert.h>
#include <string.h>
#include <iostream>
#ifdef WANT_SOFT
#include "thls/tops/policy_softfloat.hpp"
#else
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/policy_ieee_on_flopoco.hpp"
#include "thls/tops/policy_native.hpp"
#endif
template<class V> struct Io;
#ifdef WANT_SOFT
template<> struct Io<float32_t> { static float32_t in(u128 b) { uint32_t x = (uint32_t)b; float32_t v; memcpy(&v, &x, 4); return v; } static u128 out(float32_t v) { uint32_t x; memcpy(&x, &v, 4); return x; } };
template<> struct Io<float64_t> { static float64_t in(u128 b) { uint64_t x = (uint64_t)b; float64_t v; memcpy(&v, &x, 8); return v; } static u128 out(float64_t v) { uint64_t x; memcpy(&x, &v, 8); return x; } };
template<class V> inline void addto(V &a, const V &b) { a = a + b; }
template<class V> inline void multo(V &a, const V &b) { a = a * b; }
#else
template<> struct Io<float> { static float in(u128 b) { uint32_t x = (uint32_t)b; float v; memcpy(&v, &x, 4); return v; } static u128 out(float v) { uint32_t x; memcpy(&x, &v, 4); return x; } };
template<> struct Io<double> { static double in(u128 b) { uint64_t x = (uint64_t)b; double v; memcpy(&v, &x, 8); return v; } static u128 out(double v) { uint64_t x; memcpy(&x, &v, 8); return x; } };
template<int E, int F> struct Io<thls::fp_flopoco_wrapper<E, F> > {
    typedef thls::fp_flopoco_wrapper<E, F> V;
    static V in(u128 b) { return V(thls::fp_flopoco<E, F>(thls::fw_uint<3 + E + F>::from_bits((decltype(thls::fw_uint<3 + E + F>().bits))b))); }
    static u128 out(const V &v) { return (u128)v.raw.bits.bits; }
};
template<int E, int F> struct Io<thls::fp_ieee_on_flopoco_wrapper<E, F> > {
    typedef thls::fp_ieee_on_flopoco_wrapper<E, F> V;
    static V in(u128 b) { return V(thls::fp_ieee<E, F>(thls::fw_uint<1 + E + F>::from_bits((decltype(thls::fw_uint<1 + E + F>().bits))b))); }
    static u128 out(const V &v) { return (u128)v.raw.bits.bits; }
};
template<class V> inline void addto(V &a, const V &b) { a += b; }
template<class V> inline void multo(V &a, const V &b) { a *= b; }
template<int E, int F> inline void addto(thls::fp_ieee_on_flopoco_wrapper<E, F> &a, const thls::fp_ieee_on_flopoco_wrapper<E, F> &b) { a = a + b; }
template<int E, int F> inline void multo(thls::fp_ieee_on_flopoco_wrapper<E, F> &a, const thls::fp_ieee_on_flopoco_wrapper<E, F> &b) { a = a * b; }
#endif
template<class P, int DIG> struct Pol {
    typedef typename P::value_t V;
    // in: 4 registers, step count, instructions op | d<<8 | a<<16 | b<<24; out: one value per step, then the registers
    static void prog(const u128 *in, u128 *out)
    {
        V r[4] = { Io<V>::in(in[0]), Io<V>::in(in[1]), Io<V>::in(in[2]), Io<V>::in(in[3]) };
        int n = (int)in[4], i;
        for (i = 0; i < n; i++) {
            unsigned w = (unsigned)in[5 + i];
            V &d = r[w >> 8 & 3]; const V &a = r[w >> 16 & 3], &b = r[w >> 24 & 3];
            switch (w & 255) {
            case 0: d = a + b; out[i] = Io<V>::out(d); break;
            case 1: d = a * b; out[i] = Io<V>::out(d); break;
            case 2: d = a / b; out[i] = Io<V>::out(d); break;
            case 3: addto(d, b); out[i] = Io<V>::out(d); break;
            case 4: multo(d, b); out[i] = Io<V>::out(d); break;
            case 5: { V t(a); d = t; out[i] = Io<V>::out(d); break; }
            default: out[i] = (u128)(a == b) | (u128)(a != b) << 1 | (u128)(a < b) << 2 | (u128)(a <= b) << 3 | (u128)(a > b) << 4 | (u128)(a >= b) << 5;
            }
        }
        for (int k = 0; k < 4; k++) out[n + k] = Io<V>::out(r[k]);
    }
    // in: two operands; out: the policy's own references of + * /, both operands back from MPFR, exceptions, exponent range kept
    static void refs(const u128 *in, u128 *out)
    {
        mpfr_t a, b, r;
        mpfr_init2(a, DIG); mpfr_init2(b, DIG); mpfr_init2(r, DIG);
        mpfr_exp_t lo = mpfr_get_emin(), hi = mpfr_get_emax();
        out[5] = 0;
        try {
            P::to_mpfr(a, Io<V>::in(in[0])); P::to_mpfr(b, Io<V>::in(in[1]));
            out[3] = Io<V>::out(P::from_mpfr(a)); out[4] = Io<V>::out(P::from_mpfr(b));
            P::ref_add(r, a, b); out[0] = Io<V>::out(P::from_mpfr(r, true));
            P::ref_mul(r, a, b); out[1] = Io<V>::out(P::from_mpfr(r, true));
            P::ref_div(r, a, b); out[2] = Io<V>::out(P::from_mpfr(r, true));
        } catch (std::exception &) { out[5] = 1; }
        out[6] = mpfr_get_emin() == lo && mpfr_get_emax() == hi;
        mpfr_set_emin(lo); mpfr_set_emax(hi);
        mpfr_clear(a); mpfr_clear(b); mpfr_clear(r);
    }
    static void self(const u128 *in, u128 *out)
    {
        out[1] = 0; out[0] = 1;
        std::ostringstream sink;
        try { out[0] = thls::test_policy<P>::test_arithmetic((int)in[0]); } catch (std::exception &) { out[1] = 1; }
    }
};
#define INST_POL(P, DIG, K, E, F) \
    static VtReg VT_UNIQ(r_)("prog", Pol<P, DIG>::prog, 3, E, F, K); static VtReg VT_UNIQ(r_)("refs", Pol<P, DIG>::refs, 3, E, F, K);
#define INST_SELF(P, DIG, K, E, F) static VtReg VT_UNIQ(r_)("self", Pol<P, DIG>::self, 3, E, F, K);
template<class L, class IO> inline void lims(u128 *o)
{
    o[0] = IO::out(L::min()); o[1] = IO::out(L::max()); o[2] = IO::out(L::lowest()); o[3] = IO::out(L::infinity()); o[4] = IO::out(L::quiet_NaN());
    int d = L::digits, r = L::radix; o[5] = d; o[6] = r; o[7] = L::is_signed && L::has_infinity && L::has_quiet_NaN && !L::is_integer && L::is_specialized;
    o[8] = IO::out(L::epsilon()); o[9] = IO::out(L::round_error());
}
template<class V> struct LimP { static void go(const u128 *, u128 *out) { lims<std::numeric_limits<V>, Io<V> >(out); } };
#define INST_LIMP(V, K, E, F) static VtReg VT_UNIQ(r_)("limits", LimP<V >::go, 3, E, F, K);
#ifndef WANT_SOFT
template<int E, int F> struct To {
    typedef thls::fp_flopoco_wrapper<E, F> W;
    static const thls::convert_policy ALL = (thls::convert_policy)15;
    static void tof(const u128 *in, u128 *out) { W w = Io<W>::in(in[0]); out[0] = Io<float>::out(thls::to<float, ALL>(w)); out[1] = Io<W>::out(w); }
    static void fromf(const u128 *in, u128 *out) { float f = Io<float>::in(in[0]); out[0] = Io<W>::out(thls::to<W, ALL>(f)); }
    static void id(const u128 *in, u128 *out) { W w = Io<W>::in(in[0]); out[0] = Io<W>::out(thls::to<W>(w)); }
};
#define INST_TO(E, F) static VtReg VT_UNIQ(r_)("to_float", To<E, F>::tof, 3, E, F, 0); static VtReg VT_UNIQ(r_)("from_float", To<E, F>::fromf, 3, E, F, 0); static VtReg VT_UNIQ(r_)("identity", To<E, F>::id, 3, E, F, 0);
struct ToN {
    static void d2f(const u128 *in, u128 *out) { out[0] = Io<float>::out(thls::to<float, (thls::convert_policy)7>(Io<double>::in(in[0]))); }
    static void f2d(const u128 *in, u128 *out) { out[0] = Io<double>::out(thls::to<double>(Io<float>::in(in[0]))); }
};
#define INST_TON() static VtReg VT_UNIQ(r_)("double_to_float", ToN::d2f, 3, 0, 0, 2); static VtReg VT_UNIQ(r_)("float_to_double", ToN::f2d, 3, 0, 0, 2);
#endif
