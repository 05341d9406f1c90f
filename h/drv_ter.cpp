// fma and the positive round-down dot products.
#include "fpo.hpp"
static bool is(const Ctx &c, const char *n) { return !strcmp(c.e->op, n); }
static long clampl(long v, long lo, long hi) { return v < lo ? lo : v > hi ? hi : v; }

// ------------------------------------------------------------------ fma
static void fma1(Ctx &c, Fmt fr, Fmt fx, Fmt fy, Fmt fz, const u128 *in)
{
    Val x = dec(fx, in[0]), y = dec(fy, in[1]), z = dec(fz, in[2]);
    RInfo ri; memset(&ri, 0, sizeof ri);
    Val want, alt; bool two = false, nontriv = false, cancel = false;
    int ps = x.s ^ y.s;
    if (x.cls == NAN_ || y.cls == NAN_ || z.cls == NAN_) want = mk(NAN_);
    else if ((x.cls == INF && y.cls == ZERO) || (x.cls == ZERO && y.cls == INF)) want = mk(NAN_);
    else if (x.cls == INF || y.cls == INF) want = z.cls == INF && z.s != ps ? mk(NAN_) : mk(INF, ps);
    else if (z.cls == INF) want = mk(INF, z.s);
    else if (x.cls == ZERO || y.cls == ZERO) want = z.cls == ZERO ? mk(ZERO, ps & z.s) : ref_conv_(fr, fz, z, &ri);
    else {
        Dy a, b, p, q, s; a.set(fx, x); b.set(fy, y); dy_mul(p, a, b);
        if (z.cls == NORM) q.set(fz, z);
        dy_add(s, p, q);
        if (s.zero()) { want = mk(ZERO, 0); cancel = true; }
        else {
            want = dy_round(fr, s, RNE, &ri);
            // documented double rounding: through a format wide enough for the exact product, or the addend if wider
            Fmt w = { 34, fx.F + fy.F + 2 > fz.F ? fx.F + fy.F + 2 : fz.F };
            alt = ref_conv_(fr, w, dy_round(w, s, RNE)); two = true;
        }
        nontriv = z.cls == NORM && (ri.inexact || cancel || ri.over || ri.under);
    }
    u128 out[1] = { 0 };
    bool ok = c.call(in, 3, out);
    c.seen(in, 3, nontriv);
    bucket_ri(c, want, ri);
    if (cancel) c.bucket("exact_cancellation");
    if (two && !same(want, alt)) c.bucket("double_rounding_cases");
    if (!ok) return;
    Val got = dec(fr, out[0]);
    std::string t = show(fx, in[0]) + " * " + show(fy, in[1]) + " + " + show(fz, in[2]);
    if (nontriv) c.sample(t + " -> " + show(fr, out[0]));
    if (!(same(got, want) || (two && same(got, alt))) || (out[0] & ~maskw(fr.w())))
        c.violation("wrong", t + " -> got " + show(fr, out[0]) + " expected " + show(fr, enc(fr, want)));
}
static void gen_fma(Rng &r, Fmt fr, Fmt fx, Fmt fy, Fmt fz, u128 *in)
{
    Val x, y, z;
    Fmt fp = { fr.E, fr.F };
    gen_mul_pair(r, fp, fx, fy, x, y);
    z = gen_any(r, fz, 10);
    if (x.cls == NORM && y.cls == NORM && z.cls == NORM) {
        Dy a, b, p; a.set(fx, x); b.set(fy, y); dy_mul(p, a, b);
        long n = (long)mpz_sizeinbase(p.m, 2), pe = p.e + n - 1;    // exponent of the product
        switch (r.below(8)) {
        case 0: case 1: {    // near cancellation: z = -(xy) truncated, give or take
            mpz_t t; mpz_init(t);
            long sh = n - (fz.F + 1);
            if (sh > 0) mpz_tdiv_q_2exp(t, p.m, (unsigned long)sh); else mpz_mul_2exp(t, p.m, (unsigned long)-sh);
            u128 f = mpz_get_u128(t); mpz_clear(t);
            z.f = (f + (u128)(long long)(r.one_in(2) ? 0 : r.range(-2, 2))) & maskw(fz.F);
            z.e = clampl(pe + fz.bias(), 0, fz.emax()); z.s = !(x.s ^ y.s);
            if (r.one_in(4)) z.s ^= 1;
            break; }
        case 2: case 3: case 4:   // every alignment of addend and product
            z.e = clampl(pe + fz.bias() + r.range(-(fr.F + fx.F + fy.F + 6), fr.F + fx.F + fy.F + 6), 0, fz.emax());
            if (r.one_in(3)) z.f = gen_frac(r, fz.F);
            break;
        case 5: z.e = clampl(pe + fz.bias() + r.range(-2, 2), 0, fz.emax()); z.s = !(x.s ^ y.s); break;
        case 6: z.e = r.one_in(2) ? fz.emax() - (long)r.below(3) : (long)r.below(4); break;
        default: break;
        }
        z.e = clampl(z.e, 0, fz.emax());
    }
    in[0] = enc(fx, x); in[1] = enc(fy, y); in[2] = enc(fz, z);
}

// ------------------------------------------------------------------ dot products: operands a0..an-1, b0..bn-1, normal and positive
static void dot1(Ctx &c, Fmt m, int n, const u128 *in)
{
    Dy s; RInfo ri;
    long lo = 1L << 40, hi = -(1L << 40);
    for (int i = 0; i < n; i++) {
        Dy a, b, p, t; a.set(m, dec(m, in[i])); b.set(m, dec(m, in[n + i])); dy_mul(p, a, b);
        long e = p.e + (long)mpz_sizeinbase(p.m, 2); if (e < lo) lo = e; if (e > hi) hi = e;
        if (i) { dy_add(t, s, p); s = t; } else s = p;
    }
    Val want = dy_round(m, s, RDOWN_MAG, &ri);
    u128 out[1] = { 0 };
    bool ok = c.call(in, 2 * n, out);
    c.seen(in, 2 * n, ri.inexact || ri.over || ri.under);
    bucket_ri(c, want, ri);
    if (hi - lo > 2 * m.F + 3) c.bucket("term_below_all_others");
    if (!ok) return;
    std::string t;
    for (int i = 0; i < n; i++) t += show(m, in[i]) + "*" + show(m, in[n + i]) + (i + 1 < n ? " + " : "");
    c.sample(t + " -> " + show(m, out[0]));
    if (!same(dec(m, out[0]), want) || (out[0] & ~maskw(m.w())))
        c.violation("wrong", t + " -> got " + show(m, out[0]) + " expected " + show(m, enc(m, want)));
}
static int longest_run(u128 v) { int k = 0; while (v) { v &= v << 1; k++; } return k; }
static void gen_dot(Rng &r, Fmt m, int n, u128 *in)
{
    Val a[4], b[4];
    for (int i = 0; i < n; i++) {
        a[i] = mk(NORM, 0, gen_exp(r, m), gen_frac(r, m.F)); b[i] = mk(NORM, 0, gen_exp(r, m), gen_frac(r, m.F));
    }
    int mode = (int)r.below(6);
    long tgt = mode < 4 ? r.range(-(m.bias() / 2 + 2), m.bias() / 2 + 2) : mode == 4 ? m.emax() - m.bias() - r.range(-1, 4) : -m.bias() + r.range(-4, 3);
    long e = tgt;
    if (mode < 3) {
        // chains of products with long runs of ones, each starting just below where the previous one ends
        for (int i = 0; i < n; i++) {
            int best = -1; u128 ba = 0, bb = 0, bp = 0;
            for (int k = 0; k < 24; k++) {
                u128 fa = gen_frac(r, m.F), fb = gen_frac(r, m.F);
                if (2 * m.F + 2 > 126) break;
                u128 pp = ((((u128)1) << m.F) | fa) * ((((u128)1) << m.F) | fb);
                int q = longest_run(pp);
                if (q > best || (q == best && r.one_in(3))) { best = q; ba = fa; bb = fb; bp = pp; }
            }
            if (best >= 0) { a[i].f = ba; b[i].f = bb; }
            int len = 2 * m.F + (bp >> (2 * m.F + 1) ? 2 : 1);
            int tz = 0; while (bp && tz < len && !(bp >> tz & 1)) tz++;
            long es = e - (len - 1 - 2 * m.F);          // sum of exponents putting the product's top bit at weight e
            long ea = clampl(es / 2 + r.range(-2, 2), -m.bias(), m.emax() - m.bias());
            long eb = clampl(es - ea, -m.bias(), m.emax() - m.bias());
            a[i].e = ea + m.bias(); b[i].e = eb + m.bias();
            e -= r.one_in(3) ? (long)r.below(2 * m.F + 4) : len - tz + r.range(-2, 2);
            if (i == 2 && r.one_in(2)) e += len - tz;     // last two overlap
        }
    } else {
        for (int i = 0; i < n; i++) {
            long es = i == 0 ? tgt : tgt - (r.one_in(3) ? (long)r.below(4) : (long)r.below(6 * m.F + 8));
            long ea = clampl(es / 2 + r.range(-3, 3), -m.bias(), m.emax() - m.bias());
            long eb = clampl(es - ea, -m.bias(), m.emax() - m.bias());
            a[i].e = ea + m.bias(); b[i].e = eb + m.bias();
        }
    }
    for (int i = n - 1; i > 0; i--) { int j = (int)r.below(i + 1); std::swap(a[i], a[j]); std::swap(b[i], b[j]); }
    for (int i = 0; i < n; i++) { in[i] = enc(m, a[i]); in[n + i] = enc(m, b[i]); }
}

void check_entry(Ctx &c)
{
    const int *p = c.e->p;
    u128 in[8];
    if (is(c, "fma")) {
        Fmt fr = { p[0], p[1] }, fx = { p[2], p[3] }, fy = { p[4], p[5] }, fz = { p[6], p[7] };
        int bits = fx.w() + fy.w() + fz.w();
        if (bits <= c.exh(21)) {
            c.bucket("exhaustive_configs");
            for (u128 v = 0; v >> bits == 0 && !c.stop(); v++) {
                in[0] = v & maskw(fx.w()); in[1] = v >> fx.w() & maskw(fy.w()); in[2] = v >> (fx.w() + fy.w());
                fma1(c, fr, fx, fy, fz, in);
            }
            return;
        }
        uint64_t n = c.cases(10000);
        for (uint64_t i = 0; i < n && !c.stop(); i++) { gen_fma(c.rng, fr, fx, fy, fz, in); fma1(c, fr, fx, fy, fz, in); }
        return;
    }
    int n = is(c, "dot2") ? 2 : 4;
    Fmt m = { p[0], p[1] };
    int bits = 2 * n * (m.E + m.F);
    u128 top = (u128)1 << (m.E + m.F + 1);         // flags = normal
    if (bits <= c.exh(20)) {
        c.bucket("exhaustive_configs");
        for (u128 v = 0; v >> bits == 0 && !c.stop(); v++) {
            for (int i = 0; i < 2 * n; i++) in[i] = top | (v >> (i * (m.E + m.F)) & maskw(m.E + m.F));
            dot1(c, m, n, in);
        }
        return;
    }
    uint64_t k = c.cases(20000);
    for (uint64_t i = 0; i < k && !c.stop(); i++) { gen_dot(c.rng, m, n, in); dot1(c, m, n, in); }
}
