// Conversions to and from MPFR, double and text as closed calls (bits in, bits or text out), so that they can be recorded and replayed.
#define WANT_IEEE 1
#include "inst_fp.hpp"
#include <sstream>
#include <string>
inline void natt_text(u128 *out, const std::string &s)
{
    unsigned char *p = (unsigned char *)out; size_t n = s.size() < 900 ? s.size() : 900;
    for (size_t i = 0; i < 912; i++) p[i] = i < n ? (unsigned char)s[i] : 0;
}
inline void natt_dump(u128 *out, mpfr_t m) { char b[300]; mpfr_snprintf(b, sizeof b, "%c%Ra", mpfr_signbit(m) ? '-' : '+', m); natt_text(out, b); }
template<int I, int E, int F> struct Natt {
    typedef thls::fp_flopoco<E, F> T;
    static const T &in(u128 b) { return vt_in<E, F>(b); }
};
template<int E, int F> struct Natt<1, E, F> {
    typedef thls::fp_ieee<E, F> T;
    static const T &in(u128 b) { return vt_ini<E, F>(b); }
};
template<int I, int E, int F> struct NattGo {
    typedef Natt<I, E, F> N; typedef typename N::T T;
    // in: bits, precision, rounding mode
    static void get(const u128 *in, u128 *out)
    {
        const T &x = N::in(in[0]); mpfr_t m; mpfr_init2(m, (mpfr_prec_t)(int)in[1]);
        if (in[2] == 99) { mpfr_set_prec(m, F + 1); x.get(m); } else x.get(m, (mpfr_rnd_t)(int)in[2]);
        natt_dump(out, m); mpfr_clear(m);
    }
    // in: bits, binades to move it by, allow flag
    static void from(const u128 *in, u128 *out)
    {
        const T &x = N::in(in[0]); mpfr_t m; mpfr_init2(m, F + 1); x.get(m);
        mpfr_mul_2si(m, m, (long)(int)in[1], MPFR_RNDN); out[0] = out[1] = 0;
        try { T y(m, in[2] != 0); out[0] = (u128)y.bits.bits; } catch (std::exception &) { out[1] = 1; }
        mpfr_clear(m);
    }
    static void toda(const u128 *in, u128 *out) { const T &x = N::in(in[0]); double d = x.to_double_approx(); uint64_t b; __builtin_memcpy(&b, &d, 8); out[0] = b; }
    static void str(const u128 *in, u128 *out) { natt_text(out, N::in(in[0]).str()); }
};
template<int E, int F> struct NattD {
    typedef thls::fp_flopoco<E, F> T;
    static void fromd(const u128 *in, u128 *out) { double d; uint64_t b = (uint64_t)in[0]; __builtin_memcpy(&d, &b, 8); T x(d); out[0] = (u128)x.bits.bits; }
    static void stream(const u128 *in, u128 *out) { std::stringstream s; s << vt_in<E, F>(in[0]); natt_text(out, s.str()); }
};
#define INST_NATT(E, F) \
    static VtReg VT_UNIQ(r_)("get", NattGo<0, E, F>::get, 3, E, F, 0); static VtReg VT_UNIQ(r_)("from_mpfr", NattGo<0, E, F>::from, 3, E, F, 0); \
    static VtReg VT_UNIQ(r_)("to_double_approx", NattGo<0, E, F>::toda, 3, E, F, 0); static VtReg VT_UNIQ(r_)("str", NattGo<0, E, F>::str, 3, E, F, 0); \
    static VtReg VT_UNIQ(r_)("from_double", NattD<E, F>::fromd, 3, E, F, 0); static VtReg VT_UNIQ(r_)("stream", NattD<E, F>::stream, 3, E, F, 0);
#define INST_NATTI(E, F) \
    static VtReg VT_UNIQ(r_)("get", NattGo<1, E, F>::get, 3, E, F, 1); static VtReg VT_UNIQ(r_)("from_mpfr", NattGo<1, E, F>::from, 3, E, F, 1); \
    static VtReg VT_UNIQ(r_)("to_double_approx", NattGo<1, E, F>::toda, 3, E, F, 1); static VtReg VT_UNIQ(r_)("str", NattGo<1, E, F>::str, 3, E, F, 1);
