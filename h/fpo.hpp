// Independent model of the FloPoCo-style number formats: decode, exact dyadic arithmetic on GMP
// integers, rounding with an unbounded exponent followed by a range check.  Nothing here uses the library.
#ifndef FPO_HPP
#define FPO_HPP
#include "vtcore.hpp"
#include <gmp.h>

enum { ZERO = 0, NORM = 1, INF = 2, NAN_ = 3 };
struct Fmt { int E, F; int w() const { return 3 + E + F; } long bias() const { return (1L << (E - 1)) - 1; } long emax() const { return (1L << E) - 1; } };
struct Val { int cls, s; long e; u128 f; };     // e is the biased exponent field

inline Val dec(Fmt m, u128 b)
{
    Val v; v.f = b & maskw(m.F); v.e = (long)((b >> m.F) & maskw(m.E));
    v.s = (int)((b >> (m.E + m.F)) & 1); v.cls = (int)((b >> (m.E + m.F + 1)) & 3); return v;
}
inline u128 enc(Fmt m, const Val &v)
{
    return ((u128)v.cls << (m.E + m.F + 1)) | ((u128)v.s << (m.E + m.F)) | ((u128)(v.e & m.emax()) << m.F) | (v.f & maskw(m.F));
}
inline Val mk(int cls, int s = 0, long e = 0, u128 f = 0) { Val v = { cls, s, e, f }; return v; }
std::string show(Fmt m, u128 b);
// class/sign/value equality: payload of specials ignored, sign of NaN ignored
inline bool same(const Val &a, const Val &b)
{
    if (a.cls != b.cls) return false;
    if (a.cls == NAN_) return true;
    if (a.s != b.s) return false;
    if (a.cls != NORM) return true;
    return a.e == b.e && a.f == b.f;
}

void mpz_set_u128(mpz_t z, u128 v);
u128 mpz_get_u128(const mpz_t z);

// exact (or truncated-with-sticky) dyadic number  (-1)^s * m * 2^e
struct Dy {
    mpz_t m; long e; int s; bool sticky;
    Dy() : e(0), s(0), sticky(false) { mpz_init(m); }
    ~Dy() { mpz_clear(m); }
    Dy(const Dy &o) : e(o.e), s(o.s), sticky(o.sticky) { mpz_init_set(m, o.m); }
    Dy &operator=(const Dy &o) { mpz_set(m, o.m); e = o.e; s = o.s; sticky = o.sticky; return *this; }
    void set(Fmt f, const Val &v);             // normal value
    bool zero() const { return mpz_sgn(m) == 0; }
};
void dy_add(Dy &r, const Dy &a, const Dy &b);  // exact
void dy_mul(Dy &r, const Dy &a, const Dy &b);  // exact
int dy_cmp(const Dy &a, const Dy &b);          // exact signed comparison

enum Mode { RNE, RDOWN_MAG };                  // nearest-even, toward zero in magnitude
struct RInfo { bool inexact, tie, over, under, carry; };
Val dy_round(Fmt f, const Dy &x, Mode mode, RInfo *ri = 0);   // x non-zero

// reference results (cls/sign/value), RNE unless said
Val ref_add_(Fmt r, Fmt fa, const Val &a, Fmt fb, const Val &b, RInfo *ri = 0);
Val ref_mul_(Fmt r, Fmt fa, const Val &a, Fmt fb, const Val &b, RInfo *ri = 0);
Val ref_div_(Fmt r, Fmt fa, const Val &a, Fmt fb, const Val &b, RInfo *ri = 0);
Val ref_conv_(Fmt r, Fmt fa, const Val &a, RInfo *ri = 0);
int ref_cmp_(Fmt fa, const Val &a, Fmt fb, const Val &b);     // -1,0,1 or 2 unordered

// ------------------------------------------------------------------ generators
u128 gen_frac(Rng &r, int F);
long gen_exp(Rng &r, Fmt f);
Val gen_special(Rng &r, Fmt f);
Val gen_normal(Rng &r, Fmt f);
Val gen_any(Rng &r, Fmt f, int special_one_in = 8);
void gen_add_pair(Rng &r, Fmt fa, Fmt fb, Val &a, Val &b);
void gen_mul_pair(Rng &r, Fmt fr, Fmt fa, Fmt fb, Val &a, Val &b);
void gen_div_pair(Rng &r, Fmt fr, Fmt fa, Fmt fb, Val &a, Val &b);
void bucket_ri(Ctx &c, const Val &want, const RInfo &ri);

// ------------------------------------------------------------------ IEEE layout
inline Val decI(Fmt m, u128 b)           // IEEE layout as the library defines it: subnormals are zeros
{
    Val v; v.f = b & maskw(m.F); v.e = (long)((b >> m.F) & maskw(m.E)); v.s = (int)((b >> (m.E + m.F)) & 1);
    v.cls = v.e == 0 ? ZERO : v.e == m.emax() ? (v.f ? NAN_ : INF) : NORM;
    return v;
}
inline u128 encI(Fmt m, const Val &v)
{
    u128 s = (u128)v.s << (m.E + m.F);
    if (v.cls == ZERO) return s;
    if (v.cls == INF) return s | ((u128)m.emax() << m.F);
    if (v.cls == NAN_) return s | ((u128)m.emax() << m.F) | maskw(m.F);
    return s | ((u128)v.e << m.F) | v.f;
}
inline u128 gen_ieee(Rng &r, Fmt m)
{
    Val v = gen_any(r, m, 6);
    u128 s = (u128)v.s << (m.E + m.F);
    if (v.cls == NORM) { if (r.one_in(6)) v.e = r.one_in(2) ? 0 : m.emax(); return s | ((u128)v.e << m.F) | v.f; }
    if (v.cls == ZERO && r.one_in(3)) return s | gen_frac(r, m.F);
    return encI(m, v);
}
#endif
