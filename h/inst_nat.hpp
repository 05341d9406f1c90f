// Conversions to and from MPFR, double and text.  MPFR variables cross the boundary by address.
#define WANT_IEEE 1
#include "inst_fp.hpp"
#include <sstream>
inline void put_text(u128 *out, const std::string &s)
{
    unsigned char *p = (unsigned char *)out; size_t n = s.size() < 700 ? s.size() : 700;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)s[i];
    p[n] = 0;
}
template<int I, int E, int F> struct NatT { typedef thls::fp_flopoco<E, F> T; static T mk(u128 b) { return vt_in<E, F>(b); } };
template<int E, int F> struct NatT<1, E, F> { typedef thls::fp_ieee<E, F> T; static T mk(u128 b) { return vt_ini<E, F>(b); } };
template<int I, int E, int F> struct Nat {
    typedef typename NatT<I, E, F>::T T;
    static mpfr_ptr P(u128 v) { return (mpfr_ptr)(uintptr_t)v; }
    // in: bits, destination variable, rounding mode (99: the exact form)
    static void get(const u128 *in, u128 *out)
    {
        T x = NatT<I, E, F>::mk(in[0]); out[0] = 0;
        try { if (in[2] == 99) x.get(P(in[1])); else x.get(P(in[1]), (mpfr_rnd_t)(int)in[2]); } catch (std::exception &) { out[0] = 1; }
        out[1] = (u128)x.bits.bits;
    }
    // in: source variable, allow flag (2: default argument)
    static void fromm(const u128 *in, u128 *out)
    {
        out[1] = 0;
        try {
            if (in[1] == 2) { T x(P(in[0])); out[0] = (u128)x.bits.bits; }
            else { T x(P(in[0]), in[1] != 0); out[0] = (u128)x.bits.bits; }
        } catch (std::exception &) { out[1] = 1; }
    }
    static void toda(const u128 *in, u128 *out)
    {
        T x = NatT<I, E, F>::mk(in[0]); double d = x.to_double_approx(); uint64_t b; __builtin_memcpy(&b, &d, 8); out[0] = b; out[1] = (u128)x.bits.bits;
    }
    static void str(const u128 *in, u128 *out)
    {
        T x = NatT<I, E, F>::mk(in[0]); put_text(out, x.str());
    }
};
template<int E, int F> struct NatD {
    static void fromd(const u128 *in, u128 *out) { double d; uint64_t b = (uint64_t)in[0]; __builtin_memcpy(&d, &b, 8); thls::fp_flopoco<E, F> x(d); out[0] = (u128)x.bits.bits; }
    static void stream(const u128 *in, u128 *out) { thls::fp_flopoco<E, F> x = vt_in<E, F>(in[0]); std::stringstream s; s << x; put_text(out, s.str()); }
};
template<int E, int F> struct NatTD {
    static void tod(const u128 *in, u128 *out) { thls::fp_flopoco<E, F> x = vt_in<E, F>(in[0]); double d = x.to_double(); uint64_t b; __builtin_memcpy(&b, &d, 8); out[0] = b; out[1] = (u128)x.bits.bits; }
};
#define INST_NAT(E, F) \
    static VtReg VT_UNIQ(r_)("get", Nat<0, E, F>::get, 3, E, F, 0); static VtReg VT_UNIQ(r_)("from_mpfr", Nat<0, E, F>::fromm, 3, E, F, 0); \
    static VtReg VT_UNIQ(r_)("to_double_approx", Nat<0, E, F>::toda, 3, E, F, 0); static VtReg VT_UNIQ(r_)("str", Nat<0, E, F>::str, 3, E, F, 0); \
    static VtReg VT_UNIQ(r_)("from_double", NatD<E, F>::fromd, 3, E, F, 0); static VtReg VT_UNIQ(r_)("stream", NatD<E, F>::stream, 3, E, F, 0);
#define INST_NATD(E, F) static VtReg VT_UNIQ(r_)("to_double", NatTD<E, F>::tod, 3, E, F, 0);
#define INST_NATI(E, F) \
    static VtReg VT_UNIQ(r_)("get", Nat<1, E, F>::get, 3, E, F, 1); static VtReg VT_UNIQ(r_)("from_mpfr", Nat<1, E, F>::fromm, 3, E, F, 1); \
    static VtReg VT_UNIQ(r_)("to_double_approx", Nat<1, E, F>::toda, 3, E, F, 1); static VtReg VT_UNIQ(r_)("str", Nat<1, E, F>::str, 3, E, F, 1);
