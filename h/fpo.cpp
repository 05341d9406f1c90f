#include "fpo.hpp"

std::string show(Fmt m, u128 b)
{
    static const char *n[4] = { "zero", "num", "inf", "nan" };
    Val v = dec(m, b);
    char t[96];
    snprintf(t, sizeof t, "{%s%s e=%ld f=%s}", v.s ? "-" : "+", n[v.cls], v.e, hex(v.f).c_str());
    return hex(b) + t;
}
void mpz_set_u128(mpz_t z, u128 v)
{
    uint64_t h = (uint64_t)(v >> 64), l = (uint64_t)v;
    mpz_set_ui(z, h); mpz_mul_2exp(z, z, 64); 
    mpz_add_ui(z, z, l);
}
u128 mpz_get_u128(const mpz_t z)
{
    u128 r = mpz_size(z) > 1 ? mpz_getlimbn(z, 1) : 0;
    r <<= 64;
    if (mpz_size(z) > 0) r |= mpz_getlimbn(z, 0);
    return r;
}
void Dy::set(Fmt f, const Val &v)
{
    mpz_set_u128(m, (((u128)1) << f.F) | v.f);
    e = v.e - f.bias() - f.F; s = v.s; sticky = false;
}
void dy_mul(Dy &r, const Dy &a, const Dy &b)
{
    int s = a.s ^ b.s; long e = a.e + b.e;
    mpz_mul(r.m, a.m, b.m); r.s = s; r.e = e; r.sticky = false;
}
void dy_add(Dy &r, const Dy &a, const Dy &b)
{
    if (a.zero()) { r = b; return; }
    if (b.zero()) { r = a; return; }
    long e = a.e < b.e ? a.e : b.e;
    // bound the alignment: beyond 4096 bits apart a sticky one-bit stand-in gives the same rounding and sign
    long d = a.e > b.e ? a.e - b.e : b.e - a.e;
    const Dy *big = a.e > b.e ? &a : &b, *small = a.e > b.e ? &b : &a;
    mpz_t t, u; mpz_init(t); mpz_init(u);
    if (d > 4096) { // small stays as one unit far below
        mpz_mul_2exp(t, big->m, 2048);
        mpz_set_ui(u, 1);
        e = big->e - 2048;
    } else {
        mpz_mul_2exp(t, big->m, (unsigned long)(big->e - e));
        mpz_mul_2exp(u, small->m, (unsigned long)(small->e - e));
    }
    if (big->s) mpz_neg(t, t);
    if (small->s) mpz_neg(u, u);
    mpz_add(t, t, u);
    r.s = mpz_sgn(t) < 0; mpz_abs(r.m, t); r.e = e; r.sticky = false;
    mpz_clear(t); mpz_clear(u);
}
int dy_cmp(const Dy &a, const Dy &b)
{
    Dy nb = b, r; nb.s ^= 1;
    if (nb.zero()) { if (a.zero()) return 0; return a.s ? -1 : 1; }
    dy_add(r, a, nb);
    if (r.zero()) return 0;
    return r.s ? -1 : 1;
}
Val dy_round(Fmt f, const Dy &x, Mode mode, RInfo *ri)
{
    RInfo dummy; if (!ri) ri = &dummy;
    memset(ri, 0, sizeof *ri);
    long n = (long)mpz_sizeinbase(x.m, 2);
    long sh = n - (f.F + 1);
    static thread_local struct T { mpz_t z; T() { mpz_init(z); } ~T() { mpz_clear(z); } } q;
    bool half = false, rest = x.sticky;
    if (sh > 0) {
        half = mpz_tstbit(x.m, (unsigned long)(sh - 1));
        if (sh > 1 && (long)mpz_scan1(x.m, 0) < sh - 1) rest = true;
        mpz_tdiv_q_2exp(q.z, x.m, (unsigned long)sh);
    } else {
        if (x.sticky && sh >= 0) { }
        if (x.sticky && sh < 0) { fprintf(stderr, "oracle: sticky without guard bits\n"); abort(); }
        mpz_mul_2exp(q.z, x.m, (unsigned long)(-sh));
    }
    ri->inexact = half || rest; ri->tie = half && !rest;
    long e = x.e + n - 1;
    if (mode == RNE && half && (rest || mpz_tstbit(q.z, 0))) {
        mpz_add_ui(q.z, q.z, 1);
        if ((long)mpz_sizeinbase(q.z, 2) > f.F + 1) { mpz_tdiv_q_2exp(q.z, q.z, 1); e++; ri->carry = true; }
    }
    e += f.bias();
    if (e < 0) { ri->under = true; return mk(ZERO, x.s); }
    if (e > f.emax()) { ri->over = true; return mk(INF, x.s); }
    return mk(NORM, x.s, e, mpz_get_u128(q.z) & maskw(f.F));
}
static void clr(RInfo *ri) { if (ri) memset(ri, 0, sizeof *ri); }

Val ref_add_(Fmt r, Fmt fa, const Val &a, Fmt fb, const Val &b, RInfo *ri)
{
    clr(ri);
    if (a.cls == NAN_ || b.cls == NAN_) return mk(NAN_);
    if (a.cls == INF) { if (b.cls == INF && a.s != b.s) return mk(NAN_); return mk(INF, a.s); }
    if (b.cls == INF) return mk(INF, b.s);
    if (a.cls == ZERO && b.cls == ZERO) return mk(ZERO, a.s & b.s);
    Dy x, y, z;
    if (a.cls == NORM) x.set(fa, a);
    if (b.cls == NORM) y.set(fb, b);
    dy_add(z, x, y);
    if (z.zero()) return mk(ZERO, 0);
    return dy_round(r, z, RNE, ri);
}
Val ref_mul_(Fmt r, Fmt fa, const Val &a, Fmt fb, const Val &b, RInfo *ri)
{
    clr(ri);
    int s = a.s ^ b.s;
    if (a.cls == NAN_ || b.cls == NAN_) return mk(NAN_);
    if (a.cls == INF || b.cls == INF) { if (a.cls == ZERO || b.cls == ZERO) return mk(NAN_); return mk(INF, s); }
    if (a.cls == ZERO || b.cls == ZERO) return mk(ZERO, s);
    Dy x, y, z; x.set(fa, a); y.set(fb, b); dy_mul(z, x, y);
    return dy_round(r, z, RNE, ri);
}
Val ref_div_(Fmt r, Fmt fa, const Val &a, Fmt fb, const Val &b, RInfo *ri)
{
    clr(ri);
    int s = a.s ^ b.s;
    if (a.cls == NAN_ || b.cls == NAN_) return mk(NAN_);
    if (a.cls == INF) return b.cls == INF ? mk(NAN_) : mk(INF, s);
    if (b.cls == INF) return mk(ZERO, s);
    if (b.cls == ZERO) return a.cls == ZERO ? mk(NAN_) : mk(INF, s);
    if (a.cls == ZERO) return mk(ZERO, s);
    Dy x, y, z; x.set(fa, a); y.set(fb, b);
    long k = r.F + 4 + fb.F + 1;
    mpz_t t, rem; mpz_init(t); mpz_init(rem);
    mpz_mul_2exp(t, x.m, (unsigned long)k);
    mpz_tdiv_qr(z.m, rem, t, y.m);
    z.sticky = mpz_sgn(rem) != 0; z.e = x.e - y.e - k; z.s = s;
    mpz_clear(t); mpz_clear(rem);
    return dy_round(r, z, RNE, ri);
}
Val ref_conv_(Fmt r, Fmt fa, const Val &a, RInfo *ri)
{
    clr(ri);
    if (a.cls != NORM) return mk(a.cls, a.s);
    Dy x; x.set(fa, a);
    return dy_round(r, x, RNE, ri);
}
int ref_cmp_(Fmt fa, const Val &a, Fmt fb, const Val &b)
{
    if (a.cls == NAN_ || b.cls == NAN_) return 2;
    auto rank = [](const Val &v) { return v.cls == ZERO ? 0 : (v.s ? -1 : 1) * (v.cls == INF ? 2 : 1); };
    int ra = rank(a), rb = rank(b);
    if (ra != rb) return ra < rb ? -1 : 1;
    if (a.cls != NORM) return 0;
    Dy x, y; x.set(fa, a); y.set(fb, b);
    return dy_cmp(x, y);
}

// ------------------------------------------------------------------ generators
u128 gen_frac(Rng &r, int F)
{
    u128 m = maskw(F);
    if (F <= 0) return 0;
    switch (r.below(14)) {
    case 0: return 0;
    case 1: return m;
    case 2: return r.below(3) & m;
    case 3: return (m - r.below(3)) & m;
    case 4: return ((u128)1) << r.below(F);
    case 5: return m ^ (((u128)1) << r.below(F));
    case 6: return maskw((int)r.below(F + 1));
    case 7: return m & ~maskw((int)r.below(F + 1));
    case 8: { int k = (int)r.below(F + 1); return r.bits(k) << (F - k); }           // short mantissa
    case 9: { int k = (int)r.below(F + 1); return (r.bits(F) & ~maskw(k)) | (((u128)1 << (k ? k - 1 : 0)) & maskw(k)); }
    case 10: { int k = (int)r.below(F + 1); return (r.bits(F) & ~maskw(k)) | (((u128)1 << (k ? k - 1 : 0)) - (k ? 1 : 0)); }
    default: return r.bits(F);
    }
}
static long clampe(Fmt f, long e) { return e < 0 ? 0 : e > f.emax() ? f.emax() : e; }
long gen_exp(Rng &r, Fmt f)
{
    switch (r.below(9)) {
    case 0: return clampe(f, (long)r.below(4));
    case 1: return clampe(f, f.emax() - (long)r.below(4));
    case 2: return clampe(f, (long)r.below(f.F + 6));
    case 3: return clampe(f, f.emax() - (long)r.below(f.F + 6));
    case 4: return clampe(f, f.bias() + r.range(-3, 3));
    case 5: return clampe(f, f.bias() / 2 + r.range(-3, 3));
    case 6: return clampe(f, f.bias() + f.bias() / 2 + r.range(-3, 3));
    default: return (long)(r.next() & (uint64_t)f.emax());
    }
}
Val gen_special(Rng &r, Fmt f)
{
    static const int k[8] = { ZERO, ZERO, ZERO, INF, INF, INF, NAN_, NAN_ };
    Val v = mk(k[r.below(8)], (int)r.below(2));
    switch (r.below(5)) {          // payload: none, all ones, looks like a number, random
    case 0: break;
    case 1: v.e = f.emax(); v.f = maskw(f.F); break;
    case 2: v.e = f.bias(); break;
    default: v.e = gen_exp(r, f); v.f = gen_frac(r, f.F);
    }
    return v;
}
Val gen_normal(Rng &r, Fmt f) { return mk(NORM, (int)r.below(2), gen_exp(r, f), gen_frac(r, f.F)); }
Val gen_any(Rng &r, Fmt f, int n) { return r.one_in(n) ? gen_special(r, f) : gen_normal(r, f); }

// y near real exponent e (unbiased) in format f
static long be(Fmt f, long unb) { return clampe(f, unb + f.bias()); }
void gen_add_pair(Rng &r, Fmt fa, Fmt fb, Val &a, Val &b)
{
    a = gen_any(r, fa, 14); b = gen_any(r, fb, 14);
    if (a.cls != NORM || b.cls != NORM) return;
    int Fm = fa.F > fb.F ? fa.F : fb.F;
    switch (r.below(10)) {
    case 0: case 1: case 2: {                                   // every alignment distance
        long d = r.range(-(Fm + 5), Fm + 5);
        b.e = be(fb, a.e - fa.bias() + d); break; }
    case 3: case 4: {                                           // alignment with tie-like low bits of the smaller one
        long d = r.range(1, Fm + 4);
        b.e = be(fb, a.e - fa.bias() - d);
        int k = (int)(d < fb.F ? d : fb.F);
        static const int dl[5] = { 0, 1, -1, 0, 0 };
        u128 low = k > 0 ? (((u128)1 << (k - 1)) + dl[r.below(5)]) & maskw(k) : 0;
        b.f = ((r.one_in(2) ? r.bits(fb.F) : gen_frac(r, fb.F)) & ~maskw(k)) | low;
        break; }
    case 5: case 6: {                                           // cancellation
        b.s = a.s ^ 1; b.e = be(fb, a.e - fa.bias());
        u128 f = fb.F >= fa.F ? a.f << (fb.F - fa.F) : a.f >> (fa.F - fb.F);
        switch (r.below(5)) {
        case 0: break;
        case 1: f = (f + r.below(5)) & maskw(fb.F); break;
        case 2: f = (f - r.below(5)) & maskw(fb.F); break;
        case 3: f ^= ((u128)1) << r.below(fb.F); f &= maskw(fb.F); break;
        case 4: { int k = (int)r.below(fb.F + 1); f = (f & ~maskw(k)) | r.bits(k); break; }
        }
        b.f = f; break; }
    case 7: {                                                   // neighbouring binades, opposite sign: 1.00x - 1.11x/2
        b.s = a.s ^ 1; long d = r.one_in(2) ? 1 : -1;
        b.e = be(fb, a.e - fa.bias() + d);
        if (d < 0) { a.f = gen_frac(r, fa.F) & maskw((int)r.below(fa.F + 1)); b.f = ~gen_frac(r, fb.F) & maskw(fb.F); b.f |= maskw(fb.F) & ~maskw((int)r.below(fb.F + 1)); }
        else { b.f = gen_frac(r, fb.F) & maskw((int)r.below(fb.F + 1)); a.f |= maskw(fa.F) & ~maskw((int)r.below(fa.F + 1)); }
        break; }
    case 8:                                                     // overflow / underflow borders
        if (r.one_in(2)) { a.e = fa.emax() - (long)r.below(2); b.e = be(fb, a.e - fa.bias() - (long)r.below(Fm + 4)); b.s = r.one_in(3) ? a.s ^ 1 : a.s; if (r.one_in(2)) a.f = maskw(fa.F) - r.below(3); }
        else { a.e = clampe(fa, (long)r.below(Fm + 3)); b.e = be(fb, a.e - fa.bias() - (long)r.below(3)); b.s = a.s ^ 1; }
        a.f &= maskw(fa.F); break;
    default: break;
    }
    if (fa.E == fb.E && fa.F == fb.F && r.one_in(2)) { Val t = a; a = b; b = t; }
}

static u128 inv_mod_2k(u128 x, int k)   // x odd
{
    u128 y = x;                           // 3 bits
    for (int i = 0; i < 7; i++) y *= 2 - x * y;
    return y & maskw(k);
}
void gen_mul_pair(Rng &r, Fmt fr, Fmt fa, Fmt fb, Val &a, Val &b)
{
    a = gen_any(r, fa, 14); b = gen_any(r, fb, 14);
    if (a.cls != NORM || b.cls != NORM) return;
    switch (r.below(8)) {
    case 0: case 1: {   // exact ties: both odd with bit lengths adding to precision + 1 (or + 2)
        int tot = fr.F + 2 + (int)r.below(2);
        int ka = (int)r.range(1, fa.F + 1); int kb = tot - ka;
        if (kb < 1 || kb > fb.F + 1) break;
        a.f = ((r.bits(ka) | 1) << (fa.F + 1 - ka)) & maskw(fa.F);
        b.f = ((r.bits(kb) | 1) << (fb.F + 1 - kb)) & maskw(fb.F);
        break; }
    case 2: case 3: {   // product within a few units of a rounding boundary: solve for b modulo 2^k
        int drop = fa.F + fb.F - fr.F + (int)r.below(2);
        if (drop < 1 || drop > fb.F + 1 || drop > 126) break;
        u128 mx = (((u128)1) << fa.F) | a.f | 1;
        a.f = mx & maskw(fa.F);
        u128 tgt = r.one_in(5) ? (u128)0 : ((u128)1 << (drop - 1));
        tgt = (tgt + (u128)(long long)r.range(-2, 2)) & maskw(drop);
        u128 y = (tgt * inv_mod_2k(mx, drop)) & maskw(drop);
        b.f = ((r.bits(fb.F) & ~maskw(drop)) | y) & maskw(fb.F);
        break; }
    case 4: {           // mantissa product near 2: b ~ 2/a
        u128 mx = (((u128)1) << fa.F) | a.f;
        mpz_t n, d; mpz_init(n); mpz_init(d);
        mpz_set_ui(n, 1); mpz_mul_2exp(n, n, (unsigned long)(fa.F + fb.F + 1)); mpz_set_u128(d, mx);
        mpz_tdiv_q(n, n, d);
        u128 q = mpz_get_u128(n) + (u128)(long long)r.range(-2, 2);
        mpz_clear(n); mpz_clear(d);
        b.f = q & maskw(fb.F);
        break; }
    default: break;
    }
    switch (r.below(5)) {
    case 0: case 1: {   // exponent sum at the range borders of the result
        long tgt = r.one_in(2) ? fr.emax() - fr.bias() + r.range(-3, 2) : -fr.bias() + r.range(-3, 2);
        b.e = clampe(fb, tgt - (a.e - fa.bias()) + fb.bias());
        break; }
    case 2: {           // safely in the middle
        long tgt = r.range(-4, 4);
        b.e = clampe(fb, tgt - (a.e - fa.bias()) + fb.bias());
        break; }
    default: break;
    }
}
void gen_div_pair(Rng &r, Fmt fr, Fmt fa, Fmt fb, Val &a, Val &b)
{
    a = gen_any(r, fa, 14); b = gen_any(r, fb, 14);
    if (a.cls != NORM || b.cls != NORM) return;
    switch (r.below(8)) {
    case 7: {                  // hardest cases: dividend * 2^n = divisor * q + delta with a tiny delta, q solved modulo 2^n
        u128 my = (((u128)1) << fb.F) | b.f | 1;
        b.f = my & maskw(fb.F);
        int n = fb.F + fr.F + 3 - (fa.F + 1) - (int)r.below(2);
        if (n < 1 || n > fr.F + 1 || n > 120) break;
        u128 dl = (u128)(long long)r.range(-3, 3);
        u128 q = ((u128)0 - dl) * inv_mod_2k(my, n) & maskw(n);
        q |= (((u128)1) << (fr.F + 1)) | (r.bits(fr.F + 2) & maskw(fr.F + 1) & ~maskw(n));
        mpz_t p, t; mpz_init(p); mpz_init(t);
        mpz_set_u128(p, my); mpz_set_u128(t, q); mpz_mul(p, p, t);
        if ((int)(dl & 7) > 0 && (dl >> 64) == 0) mpz_add_ui(p, p, (unsigned long)dl); else if (dl) mpz_sub_ui(p, p, (unsigned long)((u128)0 - dl));
        if (mpz_scan1(p, 0) >= (unsigned long)n) { mpz_tdiv_q_2exp(p, p, (unsigned long)n); if (mpz_sizeinbase(p, 2) == (size_t)fa.F + 1) a.f = mpz_get_u128(p) & maskw(fa.F); }
        mpz_clear(p); mpz_clear(t);
        break; }
    case 0: case 1: case 2: {  // quotient near a midpoint / near a representable value
        u128 my = (((u128)1) << fb.F) | b.f;
        u128 q = (((u128)1) << (fr.F + 1)) | r.bits(fr.F + 1);
        if (!r.one_in(4)) q |= 1;
        mpz_t p, t; mpz_init(p); mpz_init(t);
        mpz_set_u128(p, my); mpz_set_u128(t, q); mpz_mul(p, p, t);
        long n = (long)mpz_sizeinbase(p, 2) - (fa.F + 1);
        if (n > 0) mpz_tdiv_q_2exp(p, p, (unsigned long)n); else mpz_mul_2exp(p, p, (unsigned long)-n);
        u128 x = mpz_get_u128(p) + (u128)(long long)r.range(-1, 1);
        mpz_clear(p); mpz_clear(t);
        a.f = x & maskw(fa.F);
        break; }
    case 3: {                  // mantissa quotient near 1
        u128 f = fa.F >= fb.F ? b.f << (fa.F - fb.F) : b.f >> (fb.F - fa.F);
        a.f = (f + (u128)(long long)r.range(-2, 2)) & maskw(fa.F);
        break; }
    case 4: {                  // short exact quotients
        int k = (int)r.range(1, fb.F < 20 ? fb.F + 1 : 20);
        b.f = ((r.bits(k) | 1) << (fb.F + 1 - k)) & maskw(fb.F);
        break; }
    default: break;
    }
    switch (r.below(5)) {
    case 0: case 1: {
        long tgt = r.one_in(2) ? fr.emax() - fr.bias() + r.range(-2, 3) : -fr.bias() + r.range(-2, 3);
        b.e = clampe(fb, (a.e - fa.bias()) - tgt + fb.bias());
        break; }
    case 2: b.e = clampe(fb, (a.e - fa.bias()) + r.range(-4, 4) + fb.bias()); break;
    default: break;
    }
}
void bucket_ri(Ctx &c, const Val &want, const RInfo &ri)
{
    if (want.cls == NAN_) c.bucket("result_nan");
    else if (ri.over) c.bucket("overflow_to_inf");
    else if (ri.under) c.bucket("underflow_to_zero");
    else if (want.cls == INF) c.bucket("result_inf");
    else if (want.cls == ZERO) c.bucket("result_zero");
    else if (ri.tie) c.bucket("normal_tie");
    else if (ri.carry) c.bucket("normal_carry_to_next_binade");
    else if (ri.inexact) c.bucket("normal_inexact");
    else c.bucket("normal_exact");
}
