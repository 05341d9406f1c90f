// Native reference functions against exact arithmetic (and, for the transcendental ones, interval evaluation at rising precision).
#include "fpo.hpp"
#include <mpfr.h>
static bool is(const Ctx &c, const char *n) { return !strcmp(c.e->op, n); }

static void to_mpfr(mpfr_t r, Fmt f, const Val &v)
{
    mpfr_set_prec(r, f.F + 2);
    if (v.cls == NAN_) mpfr_set_nan(r);
    else if (v.cls == INF) mpfr_set_inf(r, v.s ? -1 : 1);
    else if (v.cls == ZERO) mpfr_set_zero(r, v.s ? -1 : 1);
    else {
        Dy d; d.set(f, v); mpfr_set_z_2exp(r, d.m, d.e, MPFR_RNDN); if (v.s) mpfr_neg(r, r, MPFR_RNDN);
    }
}
static Val from_mpfr(Fmt f, mpfr_t x, RInfo *ri)
{
    if (mpfr_nan_p(x)) return mk(NAN_);
    int s = mpfr_signbit(x) ? 1 : 0;
    if (mpfr_inf_p(x)) return mk(INF, s);
    if (mpfr_zero_p(x)) return mk(ZERO, s);
    Dy d; d.e = mpfr_get_z_2exp(d.m, x); d.s = s; mpz_abs(d.m, d.m);
    return dy_round(f, d, RNE, ri);
}
typedef int (*Fn)(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
static int f_log(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr, mpfr_rnd_t m) { return mpfr_log(r, a, m); }
static int f_exp(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr, mpfr_rnd_t m) { return mpfr_exp(r, a, m); }
static int f_pow(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t m) { return mpfr_pow(r, a, b, m); }
static bool ziv(Fmt fr, Fn f, mpfr_t a, mpfr_t b, Val &want, RInfo *ri)
{
    mpfr_t lo, hi; mpfr_init2(lo, 64); mpfr_init2(hi, 64);
    bool ok = false;
    for (long p = fr.F + 40; p < 6000 && !ok; p *= 2) {
        mpfr_set_prec(lo, p); mpfr_set_prec(hi, p);
        f(lo, a, b, MPFR_RNDD); f(hi, a, b, MPFR_RNDU);
        RInfo r2;
        Val u = from_mpfr(fr, lo, &r2), v = from_mpfr(fr, hi, ri);
        if (same(u, v)) { want = v; ok = true; }
    }
    mpfr_clear(lo); mpfr_clear(hi);
    return ok;
}
static Val neg_(Val v) { v.s ^= 1; return v; }
static Val sqrt_(Fmt fr, Fmt fa, const Val &a, RInfo *ri)
{
    if (a.cls == NAN_ || (a.s && a.cls != ZERO)) return mk(NAN_);
    if (a.cls == INF) return mk(INF, 0);
    if (a.cls == ZERO) return mk(ZERO, a.s);
    Dy d, r; d.set(fa, a);
    long k = 2 * (fr.F + 4);
    if ((d.e - k) & 1) k++;
    mpz_mul_2exp(d.m, d.m, (unsigned long)k); d.e -= k;
    mpz_t rem; mpz_init(rem); mpz_sqrtrem(r.m, rem, d.m); r.sticky = mpz_sgn(rem) != 0; mpz_clear(rem);
    r.e = d.e / 2; r.s = 0;
    return dy_round(fr, r, RNE, ri);
}
// fp_ieee results: same rounding, smallest exponent is 1, largest emax-1
static Val ieee_range(Fmt m, Fmt w, const Val &v)
{
    if (v.cls != NORM) return v;
    long e = v.e - w.bias() + m.bias();
    if (e < 1) return mk(ZERO, v.s);
    if (e > m.emax() - 1) return mk(INF, v.s);
    return mk(NORM, v.s, e, v.f);
}
static void run(Ctx &c, Fmt fr, const Fmt *f, const u128 *in, int nin)
{
    bool ieee = c.e->op[0] == 'i';
    Val v[3]; bool norm = true;
    for (int i = 0; i < nin; i++) { v[i] = ieee ? decI(f[i], in[i]) : dec(f[i], in[i]); if (v[i].cls != NORM) norm = false; }
    RInfo ri; memset(&ri, 0, sizeof ri);
    Val want = mk(NAN_), want2; bool two = false, cancel = false;
    const VtEntry &e = *c.e;
    if (is(c, "radd")) want = ref_add_(fr, f[0], v[0], f[1], v[1], &ri);
    else if (is(c, "rmul")) want = ref_mul_(fr, f[0], v[0], f[1], v[1], &ri);
    else if (is(c, "rdiv")) want = ref_div_(fr, f[0], v[0], f[1], v[1], &ri);
    else if (is(c, "rneg")) want = neg_(ref_conv_(fr, f[0], v[0], &ri));
    else if (is(c, "rconvert")) want = ref_conv_(fr, f[0], v[0], &ri);
    else if (is(c, "rsquare")) want = ref_mul_(fr, f[0], v[0], f[0], v[0], &ri);
    else if (is(c, "rsqrt")) want = sqrt_(fr, f[0], v[0], &ri);
    else if (is(c, "rinv") || is(c, "rfaith")) {
        Fmt one = { 3, 1 };
        want = ref_div_(fr, one, mk(NORM, 0, 3, 0), f[0], v[0], &ri);
        if (is(c, "rfaith") && v[0].cls == NORM) {
            // exact quotient with sticky, rounded down and up
            Dy x, q; x.set(f[0], v[0]); long k = (long)mpz_sizeinbase(x.m, 2) + fr.F + 4;
            mpz_t t, r; mpz_init(t); mpz_init(r); mpz_set_ui(t, 1); mpz_mul_2exp(t, t, (unsigned long)k); mpz_tdiv_qr(q.m, r, t, x.m);
            bool exact = mpz_sgn(r) == 0; mpz_clear(t); mpz_clear(r);
            q.e = -k - x.e; q.s = v[0].s; q.sticky = !exact;
            RInfo rz; Fmt wide = { 28, fr.F };
            Val z = dy_round(wide, q, RDOWN_MAG, &rz), aw = z;
            if (rz.inexact) { if (z.f == maskw(fr.F)) { aw.f = 0; aw.e++; } else aw.f++; }
            auto fit = [&](const Val &w) { long ee = w.e - wide.bias() + fr.bias(); return ee < 0 ? mk(ZERO, w.s) : ee > fr.emax() ? mk(INF, w.s) : mk(NORM, w.s, ee, w.f); };
            Val dn = fit(v[0].s ? aw : z), up = fit(v[0].s ? z : aw);
            want = dn; want2 = up; two = true; ri.inexact = rz.inexact;
            if (want.cls == ZERO) ri.under = true; if (want.cls == INF) ri.over = true;
        }
    } else if (is(c, "rldexp")) {
        if (v[0].cls != NORM) want = mk(v[0].cls, v[0].s);
        else { Dy d; d.set(f[0], v[0]); d.e += e.p[4]; want = dy_round(fr, d, RNE, &ri); }
    } else if (is(c, "rfma")) {
        const Val &x = v[0], &y = v[1], &z = v[2]; int ps = x.s ^ y.s;
        if (x.cls == NAN_ || y.cls == NAN_ || z.cls == NAN_) want = mk(NAN_);
        else if ((x.cls == INF && y.cls == ZERO) || (x.cls == ZERO && y.cls == INF)) want = mk(NAN_);
        else if (x.cls == INF || y.cls == INF) want = z.cls == INF && z.s != ps ? mk(NAN_) : mk(INF, ps);
        else if (z.cls == INF) want = mk(INF, z.s);
        else if (x.cls == ZERO || y.cls == ZERO) want = z.cls == ZERO ? mk(ZERO, ps & z.s) : ref_conv_(fr, f[2], z, &ri);
        else {
            Dy a, b, p, q, s; a.set(f[0], x); b.set(f[1], y); dy_mul(p, a, b);
            if (z.cls == NORM) q.set(f[2], z);
            dy_add(s, p, q);
            if (s.zero()) { want = mk(ZERO, 0); cancel = true; } else want = dy_round(fr, s, RNE, &ri);
        }
    } else if (is(c, "iadd") || is(c, "imul")) {
        Fmt w = { 24, fr.F };
        want = ieee_range(fr, w, is(c, "iadd") ? ref_add_(w, f[0], v[0], f[1], v[1], &ri) : ref_mul_(w, f[0], v[0], f[1], v[1], &ri));
        if (norm && want.cls == ZERO && ri.inexact) ri.under = true;
        if (norm && want.cls == INF) ri.over = true;
    } else {
        mpfr_t a, b; mpfr_init2(a, 64); mpfr_init2(b, 64);
        to_mpfr(a, f[0], v[0]); if (nin > 1) to_mpfr(b, f[1], v[1]);
        Fn g = is(c, "rlog") ? f_log : is(c, "rexp") ? f_exp : f_pow;
        bool ok = ziv(fr, g, a, b, want, &ri);
        mpfr_clear(a); mpfr_clear(b);
        if (!ok) { c.bucket("undecided_skipped"); return; }
        c.bucket("transcendental");
    }
    if (!two) want2 = want;
    u128 out[2] = { 0, 0 };
    bool nontriv = norm && (ri.inexact || ri.over || ri.under || cancel);
    bool ok = c.call(in, nin, out);
    c.seen(in, nin, nontriv);
    bucket_ri(c, want, ri);
    if (cancel) c.bucket("exact_cancellation");
    if (!ok) return;
    std::string t;
    for (int i = 0; i < nin; i++) t += (i ? " , " : "") + (ieee ? hex(in[i]) : show(f[i], in[i]));
    auto sh = [&](u128 b) { return ieee ? hex(b) : show(fr, b); };
    if (nontriv) c.sample(t + " -> " + sh(out[0]));
    for (int k = 0; k < 2; k++) {
        Val got = ieee ? decI(fr, out[k]) : dec(fr, out[k]);
        if (ieee && got.cls == ZERO && got.f) got.cls = 7;                 // a stray subnormal
        const Val &w = k ? want2 : want;
        if (!same(got, w) || (out[k] & ~maskw(fr.w() - (ieee ? 2 : 0)))) {
            c.violation("wrong", t + (k ? " (second result)" : "") + " -> got " + sh(out[k]) + " expected " + (ieee ? hex(encI(fr, w)) : show(fr, enc(fr, w))));
            break;
        }
    }
}
static void dot(Ctx &c, Fmt f, int n, const u128 *in)
{
    Dy s;
    for (int i = 0; i < n; i++) { Dy a, b, p, q; a.set(f, dec(f, in[n == 2 ? i : i])); b.set(f, dec(f, in[n + i])); dy_mul(p, a, b); dy_add(q, s, p); s = q; }
    RInfo ri; Val want = dy_round(f, s, RDOWN_MAG, &ri);
    // rounding down stops at the largest finite number unless the sum is beyond the range of exponents
    u128 out[2] = { 0, 0 };
    bool ok = c.call(in, 2 * n, out);
    c.seen(in, 2 * n, ri.inexact || ri.over || ri.under);
    bucket_ri(c, want, ri);
    c.bucket("dot_reference");
    if (ok && !same(dec(f, out[0]), want)) {
        std::string t; for (int i = 0; i < 2 * n; i++) t += " " + show(f, in[i]);
        c.violation("wrong", t + " -> got " + show(f, out[0]) + " expected " + show(f, enc(f, want)));
    }
}
static void source(Ctx &c, Fmt f)
{
    static const int cls[7] = { 0, 1, 2, 3, 4, 5, 6 };
    uint64_t n = c.cases(40);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 in[3] = { c.rng.next() >> 1, i == 0 ? 0 : i == 1 ? 0x7a : c.rng.below(127), 4000 }, out[11];
        memset(out, 0, sizeof out);
        bool ok = c.call(in, 3, out);
        c.seen(in, 3, true); c.bucket("source_histories");
        if (!ok) continue;
        u128 sum = 0; for (int k = 0; k < 8; k++) sum += out[k];
        std::string t = "seed " + hex(in[0]) + " disabled " + hex(in[1]);
        for (int k = 0; k < 8; k++) {
            int b = k < 7 ? cls[k] : 6;
            bool off = (in[1] >> b) & 1;
            if (off && out[k]) c.violation("disabled", t + ": class " + std::to_string(k) + " drawn " + hex(out[k]) + " times");
            // every enabled class has a share of at least 1/133: absent from 4000 draws with probability below 1e-6 (nan signs: half of it)
            if (!off) { c.bucket("enabled_class_share"); if (!out[k] && k < 6) c.violation("absent", t + ": class " + std::to_string(k) + " never drawn"); }
        }
        if (sum != in[2] || out[10]) c.violation("malformed", t);
        if (out[2] + out[3] > 500) {
            u128 m = maskw(f.E + f.F);
            if ((out[8] & m) || (~out[9] & m)) c.violation("stuck", t + ": exponent or fraction bits never vary, and=" + hex(out[8] & m) + " or=" + hex(out[9] & m));
        }
    }
}
static void operands(Ctx &c, Fmt f)
{
    std::vector<u128> want;
    auto both = [&](Val v) { v.s = 0; want.push_back(enc(f, v)); v.s = 1; want.push_back(enc(f, v)); };
    auto num = [&](long e, u128 fr) { Val v; v.cls = NORM; v.s = 0; v.e = e; v.f = fr; return v; };   // biased exponent
    auto cls = [&](int k, int s) { Val v; v.cls = (decltype(v.cls))k; v.s = s; v.e = 0; v.f = 0; return v; };
    long b = f.bias();
    for (int a = 1; a <= 10; a++) { int l = 0; while (a >> (l + 1)) l++; both(num(b + l, ((u128)(a - (1 << l)) << f.F) >> l)); }
    Val mx = num(f.emax(), maskw(f.F)), mn = num(0, 0); mx.s = mn.s = 1;
    want.push_back(enc(f, cls(INF, 1))); want.push_back(enc(f, mx)); want.push_back(enc(f, mn)); want.push_back(enc(f, cls(ZERO, 1)));
    mx.s = mn.s = 0;
    want.push_back(enc(f, cls(ZERO, 0))); want.push_back(enc(f, mn)); want.push_back(enc(f, mx)); want.push_back(enc(f, cls(INF, 0)));
    // k units above or below on the line of numbers
    auto line = [&](long e, u128 fr, long k) { u128 m = maskw(f.F); for (; k > 0; k--) { if (fr == m) fr = 0, e++; else fr++; } for (; k < 0; k++) { if (!fr) fr = m, e--; else fr--; } return num(e, fr); };
    for (int k = 1; k <= 10; k++) both(line(b, 0, k));
    for (int k = 1; k <= 10; k++) both(line(b, 0, -k));
    for (int k = 1; k <= 10; k++) both(line(0, 0, k));
    for (int k = 1; k <= 10; k++) both(line(f.emax(), maskw(f.F), -k));
    for (int i = -f.F - 6; i < f.F + 6; i++) { long e = b - i; both(e < 0 ? cls(ZERO, 0) : e > f.emax() ? cls(INF, 0) : num(e, 0)); }
    uint64_t n = c.cases(3);
    for (uint64_t k = 0; k < n && !c.stop(); k++) {
        int fixed = (int)want.size(), pre = (int)c.rng.below(4) * (k != 0), tot = k == 0 ? fixed : k == 1 ? 0 : (int)c.rng.below(2 * fixed + 60);
        u128 base = c.rng.next() & maskw(f.E + f.F > 60 ? 60 : f.E + f.F - 1);
        int size = pre + fixed; while (size < tot) size += 2;
        u128 prev = 0;
        for (int at = 0; at <= size && !c.stop(); at += 62) {
            u128 in[4] = { (u128)tot, (u128)pre, (u128)at, base }, out[64]; memset(out, 0, sizeof out);
            bool ok = c.call(in, 4, out);
            c.seen(in, 4, true); c.bucket("operand_lists");
            if (!ok) return;
            std::string t = "length " + std::to_string(tot) + " after " + std::to_string(pre);
            if (out[0] != (u128)size) { c.violation("size", t + ": " + std::to_string((int)out[0]) + " entries, expected " + std::to_string(size)); return; }
            for (int j = 0; j < 62 && at + j < size; j++) {
                int i = at + j; u128 g = out[1 + j];
                if (i < pre ? g != base + i : i < pre + fixed ? !same(dec(f, g), dec(f, want[i - pre])) : false)
                    c.violation("operand", t + ": entry " + std::to_string(i) + " is " + show(f, g) + ", expected " + show(f, i < pre ? base + i : want[i - pre]));
                if (i >= pre + fixed && (i - pre - fixed) & 1) {              // drawn operands come with their negation
                    Val x = dec(f, prev), y = dec(f, g); if (x.cls != NAN_) y.s = !y.s;
                    if (!same(x, y)) c.violation("pair", t + ": entry " + std::to_string(i) + " is " + show(f, g) + " after " + show(f, prev));
                    if (x.cls == NORM) c.bucket("drawn_operands");
                }
                prev = g;
            }
        }
    }
}
void check_entry(Ctx &c)
{
    const VtEntry &e = *c.e;
    Fmt fr = { e.p[0], e.p[1] };
    if (is(c, "source")) { source(c, fr); return; }
    if (is(c, "operands")) { operands(c, fr); return; }
    if (is(c, "rdot2") || is(c, "rdot4")) {
        int n = is(c, "rdot2") ? 2 : 4;
        uint64_t k = c.cases(4000);
        for (uint64_t i = 0; i < k && !c.stop(); i++) {
            u128 in[8];
            int mode = (int)c.rng.below(4); long e0 = c.rng.range(0, fr.emax());
            for (int j = 0; j < 2 * n; j++) {
                Val v = gen_normal(c.rng, fr); v.s = 0;
                if (mode == 1) v.e = fr.bias() + c.rng.range(-3, 3); else if (mode == 2) { v.f = c.rng.one_in(3) ? gen_frac(c.rng, fr.F) : maskw(fr.F); v.e = e0 / 2 + fr.bias() / 2; }
                if (v.e < 0) v.e = 0; if (v.e > fr.emax()) v.e = fr.emax();
                in[j] = enc(fr, v);
            }
            dot(c, fr, n, in);
        }
        return;
    }
    Fmt f[3]; int nin = e.np == 8 ? 3 : e.np == 6 ? 2 : 1;
    for (int i = 0; i < nin; i++) { f[i].E = e.p[2 + 2 * i]; f[i].F = e.p[3 + 2 * i]; }
    bool ieee = e.op[0] == 'i', tr = is(c, "rlog") || is(c, "rexp") || is(c, "rpow");
    int bits = 0; for (int i = 0; i < nin; i++) bits += f[i].w() - (ieee ? 2 : 0);
    if (bits <= (tr ? 11 : c.exh(13))) {
        c.bucket("exhaustive_configs");
        for (u128 x = 0; x < ((u128)1 << bits) && !c.stop(); x++) {
            u128 in[3], y = x;
            for (int i = 0; i < nin; i++) { int w = f[i].w() - (ieee ? 2 : 0); in[i] = y & maskw(w); y >>= w; }
            run(c, fr, f, in, nin);
        }
    }
    uint64_t n = c.cases(tr ? 400 : 3000);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 in[3];
        if (ieee) { for (int k = 0; k < nin; k++) in[k] = gen_ieee(c.rng, f[k]); if (c.rng.one_in(2) && f[0].E == f[1].E) { Val a, b; gen_add_pair(c.rng, f[0], f[1], a, b); if (a.cls == NORM && b.cls == NORM) { in[0] = encI(f[0], a); in[1] = encI(f[1], b); } } }
        else if (nin == 3) {
            Val x, y; gen_mul_pair(c.rng, fr, f[0], f[1], x, y); Val z = gen_any(c.rng, f[2], 10);
            if (x.cls == NORM && y.cls == NORM && z.cls == NORM && c.rng.one_in(2)) {
                long pe = x.e - f[0].bias() + y.e - f[1].bias() + f[2].bias() + c.rng.range(-3, 3);
                if (c.rng.one_in(2)) pe += c.rng.range(-2 * fr.F - 4, 2 * fr.F + 4);
                z.e = pe < 0 ? 0 : pe > f[2].emax() ? f[2].emax() : pe; z.s = !(x.s ^ y.s) ^ c.rng.one_in(4);
            }
            in[0] = enc(f[0], x); in[1] = enc(f[1], y); in[2] = enc(f[2], z);
        } else if (nin == 2) {
            Val a, b;
            if (is(c, "radd")) gen_add_pair(c.rng, f[0], f[1], a, b); else if (is(c, "rmul")) gen_mul_pair(c.rng, fr, f[0], f[1], a, b);
            else if (is(c, "rdiv")) gen_div_pair(c.rng, fr, f[0], f[1], a, b);
            else {
                a = gen_any(c.rng, f[0], 6); b = gen_any(c.rng, f[1], 6);
                if (c.rng.one_in(2)) { if (a.cls == NORM) { a.e = f[0].bias() + c.rng.range(-2, 2); if (a.e < 0) a.e = 0; if (a.e > f[0].emax()) a.e = f[0].emax(); } }
                if (c.rng.one_in(2)) { if (b.cls == NORM) { b.e = f[1].bias() + c.rng.range(-4, 4); if (b.e < 0) b.e = 0; if (b.e > f[1].emax()) b.e = f[1].emax(); if (c.rng.one_in(2)) b.f = b.f & ~maskw(f[1].F > 2 ? f[1].F - 2 : 0); } }
            }
            in[0] = enc(f[0], a); in[1] = enc(f[1], b);
        } else {
            Val a = gen_any(c.rng, f[0], 10);
            if (tr && a.cls == NORM && c.rng.one_in(2)) { a.e = f[0].bias() + c.rng.range(-6, 6); if (a.e < 0) a.e = 0; if (a.e > f[0].emax()) a.e = f[0].emax(); }
            in[0] = enc(f[0], a);
        }
        run(c, fr, f, in, nin);
    }
}
