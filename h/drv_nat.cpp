// Conversions to and from native numbers, MPFR and text.
#include "fpo.hpp"
#include <mpfr.h>
#include <cmath>
#include <sstream>

static bool is(const Ctx &c, const char *n) { return !strcmp(c.e->op, n); }
// value of a class/sign/value triple in a variable that holds it exactly
static void exact(mpfr_t x, Fmt m, const Val &v)
{
    mpfr_set_prec(x, m.F + 1);
    if (v.cls == ZERO) mpfr_set_zero(x, v.s ? -1 : 1);
    else if (v.cls == INF) mpfr_set_inf(x, v.s ? -1 : 1);
    else if (v.cls == NAN_) mpfr_set_nan(x);
    else {
        mpz_t z; mpz_init(z); mpz_set_u128(z, v.f); mpz_setbit(z, m.F);
        if (mpfr_set_z_2exp(x, z, v.e - m.bias() - m.F, MPFR_RNDN)) { fprintf(stderr, "oracle: inexact\n"); exit(2); }
        if (v.s) mpfr_neg(x, x, MPFR_RNDN);
        mpz_clear(z);
    }
}
static bool msame(mpfr_t a, mpfr_t b)
{
    if (mpfr_nan_p(a) || mpfr_nan_p(b)) return mpfr_nan_p(a) && mpfr_nan_p(b);
    return mpfr_equal_p(a, b) && !!mpfr_signbit(a) == !!mpfr_signbit(b);
}
static std::string mshow(mpfr_t a) { char b[200]; mpfr_snprintf(b, sizeof b, "%Ra", a); return b; }
static double bitsd(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static bool dsame(double a, double b) { return a != a ? b != b : dbits(a) == dbits(b); }
static void tally(Ctx &c, const Val &v) { c.bucket(v.cls == ZERO ? "zero" : v.cls == INF ? "inf" : v.cls == NAN_ ? "nan" : v.s ? "negative" : "positive"); }

static u128 gen_bits(Rng &r, Fmt m, bool ieee, uint64_t i, bool ex)
{
    if (ex) return i;
    Val v = gen_any(r, m, 6);
    if (!ieee) return enc(m, v);
    u128 s = (u128)v.s << (m.E + m.F);
    if (v.cls == NORM) { if (r.one_in(8)) v.e = r.one_in(2) ? 0 : m.emax(); return s | ((u128)(v.e & m.emax()) << m.F) | v.f; }
    if (v.cls == ZERO) return s | (r.one_in(2) ? gen_frac(r, m.F) : 0);
    return s | ((u128)m.emax() << m.F) | (v.cls == INF ? 0 : (gen_frac(r, m.F) | 1));
}
static std::string binstr(u128 a, int W) { std::string s = "0b"; for (int q = W - 1; q >= 0; q--) { s += (a >> q & 1) ? '1' : '0'; if (q && q % 8 == 0) s += '_'; } return s; }

void check_entry(Ctx &c)
{
    Rng &r = c.rng; Fmt m = { c.e->p[0], c.e->p[1] }; bool ieee = c.e->p[2];
    int w = ieee ? m.w() - 2 : m.w();
    static mpfr_t x, y, z, keep; static bool init = false;
    if (!init) { mpfr_init2(x, 64); mpfr_init2(y, 64); mpfr_init2(z, 64); mpfr_init2(keep, 64); init = true; }
    bool ex = w <= 13 && !is(c, "from_mpfr") && !is(c, "from_double");
    bool text = is(c, "str") || is(c, "stream");
    uint64_t n = ex ? (uint64_t)1 << w : c.cases(text ? 150 : 1200);
    if (ex) c.bucket("exhaustive_configs");
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 in[3] = { 0 }, out[64] = { 0 };
        if (is(c, "from_mpfr")) {
            Val v = ieee ? decI(m, gen_bits(r, m, true, 0, false)) : gen_any(r, m, 8);
            int prec = m.F + 1; long sh = 0;
            long lo = ieee ? 1 : 0, hi = ieee ? m.emax() - 1 : m.emax();
            if (v.cls == NORM && r.one_in(3)) sh = r.one_in(2) ? (r.one_in(2) ? hi + 1 : lo - 1) - v.e : r.range(-3 * m.emax(), 3 * m.emax());
            exact(x, m, v);
            if (v.cls == NORM && sh) mpfr_mul_2si(x, x, sh, MPFR_RNDN);
            bool badprec = r.one_in(24);
            if (badprec) { prec += r.one_in(2) || m.F < 2 ? 1 + (int)r.below(5) : -1; mpfr_set_prec(z, prec); mpfr_set(z, x, MPFR_RNDN); mpfr_set_prec(x, prec); mpfr_set(x, z, MPFR_RNDN); }
            mpfr_set_prec(keep, prec); mpfr_set(keep, x, MPFR_RNDN);
            in[0] = (u128)(uintptr_t)x; in[1] = r.below(3);
            u128 id[3] = { v.f, (u128)(v.cls * 2 + v.s) << 64 | (u128)(uint64_t)(v.e + sh + (1L << 40)), in[1] };
            bool ok = c.call(in, 2, out); c.seen(id, 3, true); tally(c, v);
            if (!ok) continue;
            if (!msame(keep, x)) c.violation("source_changed", "constructing changed the MPFR source " + mshow(keep) + " to " + mshow(x));
            if (badprec) { c.bucket("wrong_precision"); if (!out[1]) c.violation("wrong_precision_accepted", "precision " + std::to_string(prec)); continue; }
            long e = v.e + sh; bool oor = v.cls == NORM && (e < lo || e > hi);
            if (oor && in[1] != 1) { c.bucket("out_of_range_refused"); if (!out[1]) c.violation("out_of_range_accepted", mshow(x) + " gave " + hex(out[0])); continue; }
            if (out[1]) { c.violation("refused", "threw on representable or allowed value " + mshow(x)); continue; }
            Val want = v; want.e = e;
            if (oor) { c.bucket(e < lo ? "flushed" : "saturated"); want = mk(e < lo ? ZERO : INF, v.s); }
            Val got = ieee ? decI(m, out[0]) : dec(m, out[0]);
            if ((out[0] & ~maskw(w)) || !same(want, got)) c.violation("from_mpfr", mshow(x) + " became " + hex(out[0]) + " (allow=" + std::to_string((int)in[1]) + ")");
            continue;
        }
        if (is(c, "from_double")) {
            uint64_t b;
            switch (r.below(8)) {
            case 0: b = r.next(); break;
            case 1: b = r.below(2) << 63 | (r.one_in(2) ? 0 : 0x7ffull << 52) | (r.one_in(2) ? 0 : (uint64_t)gen_frac(r, 52)); break;   // zero, inf, nan, subnormal
            default: {
                long e = r.one_in(3) ? (r.one_in(2) ? -m.bias() + r.range(-2, 2) : m.bias() + 1 + r.range(-2, 2)) : r.range(-m.bias(), m.bias() + 1);
                e += 1023; if (e < 1) e = 1; if (e > 2046) e = 2046;
                u128 f = gen_frac(r, 52); if (r.one_in(3) && m.F < 52) f = (f & ~maskw(52 - m.F)) | (r.one_in(2) ? maskw(52 - m.F) : r.below(3));
                b = r.below(2) << 63 | (uint64_t)e << 52 | (uint64_t)(f & maskw(52)); break; }
            }
            in[0] = b; bool ok = c.call(in, 1, out); c.seen(in, 1, true);
            int s = b >> 63; long e = (long)(b >> 52 & 0x7ff); u128 f = b & maskw(52);
            Val want;
            if (e == 0x7ff) want = mk(f ? NAN_ : INF, s);
            else if (e == 0) { want = mk(ZERO, s); if (f) c.bucket("subnormal_double"); }
            else {
                long ee = e - 1023 + m.bias();
                if (ee < 0) { want = mk(ZERO, s); c.bucket("flushed"); }
                else if (ee > m.emax()) { want = mk(INF, s); c.bucket("saturated"); }
                else { want = mk(NORM, s, ee, m.F >= 52 ? f << (m.F - 52) : f >> (52 - m.F)); if (m.F < 52 && (f & maskw(52 - m.F))) c.bucket("double_truncated"); }
            }
            tally(c, want);
            if (ok && ((out[0] & ~maskw(w)) || !same(want, dec(m, out[0])))) { char t[60]; snprintf(t, sizeof t, "%a", bitsd(b)); c.violation("from_double", std::string(t) + " became " + hex(out[0]) + ", expected " + hex(enc(m, want))); }
            continue;
        }
        in[0] = gen_bits(r, m, ieee, i, ex);
        Val v = ieee ? decI(m, in[0]) : dec(m, in[0]);
        tally(c, v);
        exact(x, m, v);
        if (is(c, "get")) {
            static const mpfr_rnd_t modes[] = { MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA };
            int reps = ex ? 3 : 1;
            for (int q = 0; q < reps; q++) {
                bool plain = r.one_in(4); int prec = plain ? (r.one_in(12) ? m.F + 2 : m.F + 1) : (int)r.range(2, m.F + 6);
                if (!plain && r.one_in(2)) prec = m.F + 1 - (int)r.below(m.F < 3 ? m.F : 3);
                if (prec < 1) prec = 1;
                mpfr_rnd_t md = modes[r.below(5)];
                mpfr_set_prec(y, prec); mpfr_set_si(y, 42, MPFR_RNDN);
                in[1] = (u128)(uintptr_t)y; in[2] = plain ? 99 : (u128)(int)md;
                u128 id[3] = { in[0], (u128)prec, in[2] };
                bool ok = c.call(in, 3, out); c.seen(id, 3, true);
                if (!ok) continue;
                if (out[1] != in[0]) c.violation("operand_changed", hex(in[0]) + " became " + hex(out[1]));
                if (mpfr_get_prec(y) != prec) c.violation("precision_changed", std::to_string(prec));
                if (plain && prec != m.F + 1) { c.bucket("wrong_precision"); if (!out[0]) c.violation("wrong_precision_accepted", std::to_string(prec)); continue; }
                if (out[0]) { c.violation("refused", "threw reading " + hex(in[0])); continue; }
                mpfr_set_prec(z, prec); int t = mpfr_set(z, x, plain ? MPFR_RNDN : md);
                if (t && v.s) c.bucket("directed_negative_inexact");
                if (!msame(z, y)) c.violation("get", "reading " + hex(in[0]) + " in precision " + std::to_string(prec) + " mode " + mpfr_print_rnd_mode(md) + " gave " + mshow(y) + ", expected " + mshow(z));
            }
            continue;
        }
        if (is(c, "to_double") || is(c, "to_double_approx")) {
            bool ok = c.call(in, 1, out); c.seen(in, 1, true);
            if (!ok) continue;
            double want = v.cls == NAN_ ? NAN : mpfr_get_d(x, MPFR_RNDN), got = bitsd((uint64_t)out[0]);
            if (v.cls == NORM && std::isinf(want)) c.bucket("beyond_double");
            if (v.cls == NORM && std::fpclassify(want) == FP_SUBNORMAL) c.bucket("becomes_subnormal_double");
            if (!dsame(want, got)) { char t[120]; snprintf(t, sizeof t, " gave %a, expected %a", got, want); c.violation(c.e->op, hex(in[0]) + t); }
            if (out[1] != in[0]) c.violation("operand_changed", hex(in[0]) + " became " + hex(out[1]));
            continue;
        }
        // text
        bool ok = c.call(in, 1, out); c.seen(in, 1, true);
        if (!ok) continue;
        std::string got = (const char *)out, want = binstr(in[0], w);
        if (v.cls == ZERO) want += v.s ? " -zero" : " +zero";
        else if (v.cls == INF) want += v.s ? "-inf" : "+inf";
        else if (v.cls == NAN_) want += " nan";
        else want += " normal e=" + binstr((u128)v.e, m.E) + "=" + std::to_string(v.e - m.bias());
        size_t pos = want.size();
        if (got.compare(0, pos, want)) { c.violation("text", "printed " + got + ", expected it to begin with " + want); continue; }
        if (v.cls == NORM) {
            std::string f = binstr(v.f, m.F); size_t q = got.find("f=" + f, pos);
            char after = q == std::string::npos ? 0 : got[q + 2 + f.size()];
            if (q == std::string::npos || after == '0' || after == '1' || after == '_') c.violation("text_fraction", "printed " + got + " without fraction " + f);
        }
        size_t q = got.rfind(ieee ? "(approx)" : "~=");
        if (q != std::string::npos) {
            q += ieee ? 8 : 2;
            double d = strtod(got.c_str() + q, 0), wd = v.cls == NAN_ ? NAN : mpfr_get_d(x, MPFR_RNDN);
            if (ieee) { mpfr_t t; mpfr_init2(t, 200); mpfr_set_z_2exp(t, (mpz_t &)*({ static mpz_t zz; static bool i0 = false; if (!i0) { mpz_init(zz); i0 = true; } mpz_set_u128(zz, v.f); mpz_setbit(zz, m.F); &zz; }), -m.F, MPFR_RNDN); wd = mpfr_get_d(t, MPFR_RNDN); mpfr_clear(t); }
            bool good = wd != wd ? d != d : std::isinf(wd) || wd == 0 ? d == wd : std::fabs(d - wd) <= 1e-5 * std::fabs(wd) || std::fpclassify(wd) == FP_SUBNORMAL;
            if (!good) c.violation("text_value", "printed " + got + " for a value near " + mshow(x));
            c.bucket("text_value");
        } else if (v.cls == NORM) c.bucket("text_without_value");
    }
    c.sample("last operand checked in class order");
}
