// Unary operations: reciprocals, negation, conversions between formats, neighbours.
#include "fpo.hpp"

static Val next_mag(Fmt m, Val v)        // the neighbour away from zero of a zero or normal
{
    if (v.cls == ZERO) return mk(NORM, v.s, 0, 0);
    v.f = (v.f + 1) & maskw(m.F);
    if (v.f == 0 && ++v.e > m.emax()) return mk(INF, v.s);
    return v;
}
static Val prev_mag(Fmt m, Val v)        // towards zero, of a normal or infinity
{
    if (v.cls == INF) return mk(NORM, v.s, m.emax(), maskw(m.F));
    if (v.f == 0) { if (v.e == 0) return mk(ZERO, v.s); v.e--; v.f = maskw(m.F); } else v.f--;
    return v;
}
static Val ref_up(Fmt m, Val v)
{
    if (v.cls == NAN_) return mk(NAN_);
    if (v.cls == INF && !v.s) return mk(INF, 0);
    if (v.cls == ZERO) return v.s ? mk(ZERO, 0) : mk(NORM, 0, 0, 0);
    return v.s ? prev_mag(m, v) : next_mag(m, v);
}
static Val ref_down(Fmt m, Val v)
{
    if (v.cls == NAN_) return mk(NAN_);
    v.s ^= 1; Val u = ref_up(m, v); u.s ^= 1; return u;
}

static bool is(const Ctx &c, const char *n) { return !strcmp(c.e->op, n); }

static void one(Ctx &c, u128 x)
{
    const int *p = c.e->p;
    Fmt fr = { p[0], p[1] }, fa = { p[2], p[3] };
    bool srcI = is(c, "ieee_convert") || is(c, "ieee_to_flo") || is(c, "ieee_to_ieee");
    bool dstI = is(c, "flo_convert_ieee") || is(c, "flo_to_ieee") || is(c, "ieee_to_ieee");
    Val a = srcI ? decI(fa, x) : dec(fa, x), want, alt;
    bool two = false, nontriv = a.cls == NORM;
    RInfo ri; memset(&ri, 0, sizeof ri);
    if (!strncmp(c.e->op, "inv", 3)) {
        Val one = mk(NORM, 0, fa.bias(), 0);
        want = ref_div_(fr, fa, one, fa, a, &ri);
        if (is(c, "inv_faithful") && a.cls == NORM && ri.inexact) {
            // the two neighbours of the exact reciprocal, each with out-of-range exponents flushed
            Fmt wide = { fr.E + 2, fr.F };
            Val n = ref_div_(wide, fa, one, fa, a);
            Dy y; y.set(fa, a); Dy g; g.set(wide, n);
            Dy pr; dy_mul(pr, y, g); Dy u; mpz_set_ui(u.m, 1);
            pr.s = 0; bool below = dy_cmp(pr, u) < 0;
            Val o = below ? next_mag(wide, n) : prev_mag(wide, n);
            want = ref_conv_(fr, wide, n); alt = ref_conv_(fr, wide, o); two = true;
        }
        nontriv = nontriv && (ri.inexact || ri.under);
    } else if (is(c, "neg")) {
        Val t = a; t.s ^= 1; want = ref_conv_(fr, fa, t, &ri);
    } else if (is(c, "nextup") || is(c, "nextafter_up")) { want = ref_up(fa, a); nontriv = a.cls != NAN_; }
    else if (is(c, "nextdown") || is(c, "nextafter_down")) { want = ref_down(fa, a); nontriv = a.cls != NAN_; }
    else if (is(c, "flo_convert_ieee")) {
        want = a;
        if (a.cls == NORM && a.e == 0) want = mk(ZERO, a.s), c.bucket("ieee_underflow");
        if (a.cls == NORM && a.e == fa.emax()) want = mk(INF, a.s), c.bucket("ieee_overflow");
    } else {                                   // every other conversion
        want = ref_conv_(fr, fa, a, &ri);
        if (srcI && dstI && a.cls == NORM) want = ref_conv_(fr, fa, a, &ri);
    }
    u128 out[1] = { 0 };
    bool ok = c.call(&x, 1, out);
    c.seen(&x, 1, nontriv);
    bucket_ri(c, want, ri);
    if (a.cls != NORM) c.bucket(a.cls == ZERO ? "zero_operand" : a.cls == INF ? "inf_operand" : "nan_operand");
    if (!ok) return;
    int w = dstI ? fr.w() - 2 : fr.w();
    if (out[0] & ~maskw(w)) { c.violation("overwide", "result bits beyond the width: " + hex(out[0])); return; }
    Val got = dstI ? decI(fr, out[0]) : dec(fr, out[0]);
    if (nontriv) c.sample((srcI ? hex(x) : show(fa, x)) + " -> " + (dstI ? hex(out[0]) : show(fr, out[0])));
    bool good = same(got, want) || (two && same(got, alt));
    // a FloPoCo zero must become an exact IEEE zero: hardware would read a stray fraction as a subnormal
    if (good && dstI && !srcI && want.cls == ZERO && got.f) good = false;
    if (!good)
        c.violation("wrong", (srcI ? "ieee " + hex(x) : show(fa, x)) + " -> got " + (dstI ? "ieee " + hex(out[0]) : show(fr, out[0])) +
                    " expected " + (dstI ? "ieee " + hex(encI(fr, want)) : show(fr, enc(fr, want))));
}

void check_entry(Ctx &c)
{
    const int *p = c.e->p;
    Fmt fr = { p[0], p[1] }, fa = { p[2], p[3] };
    bool srcI = is(c, "ieee_convert") || is(c, "ieee_to_flo") || is(c, "ieee_to_ieee");
    int bits = srcI ? fa.w() - 2 : fa.w();
    if (bits <= c.exh(16)) {
        c.bucket("exhaustive_configs");
        for (u128 v = 0; v >> bits == 0 && !c.stop(); v++) one(c, v);
        return;
    }
    uint64_t n = c.cases(12000);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 x;
        if (srcI) x = gen_ieee(c.rng, fa);
        else if (!strncmp(c.e->op, "inv", 3)) {
            Val a = mk(NORM, 0, fa.bias(), 0), b;
            // reuse the divisor generator with a numerator of one: exponent borders of the reciprocal
            b = gen_any(c.rng, fa, 14);
            if (b.cls == NORM) switch (c.rng.below(5)) {
                case 0: b.e = fa.emax() - (long)c.rng.below(4); break;
                case 1: b.e = (long)c.rng.below(4); break;
                case 2: {       // reciprocal close to a midpoint of the result: y ~ 1/(q+1/2)
                    u128 q = (((u128)1) << (fr.F + 1)) | c.rng.bits(fr.F + 1) | 1;
                    mpz_t n1, d; mpz_init(n1); mpz_init(d);
                    mpz_set_ui(n1, 1); mpz_mul_2exp(n1, n1, (unsigned long)(fr.F + 1 + fa.F + 1)); mpz_set_u128(d, q);
                    mpz_tdiv_q(n1, n1, d);
                    b.f = (mpz_get_u128(n1) + (u128)(long long)c.rng.range(-1, 2)) & maskw(fa.F);
                    mpz_clear(n1); mpz_clear(d);
                    break; }
                default: break;
            }
            x = enc(fa, b);
        } else {
            Val a = gen_any(c.rng, fa, 10);
            if (a.cls == NORM) {
                long tgt = a.e;
                if (c.rng.one_in(3)) tgt = (c.rng.one_in(2) ? fr.emax() - fr.bias() : -fr.bias()) + fa.bias() + c.rng.range(-2, 2);
                if (tgt < 0) tgt = 0; if (tgt > fa.emax()) tgt = fa.emax();
                a.e = tgt;
                if (fa.F > fr.F && c.rng.one_in(2)) {      // ties and near ties at the new precision
                    int d = fa.F - fr.F;
                    u128 low = (((u128)1) << (d - 1)) + (u128)(long long)c.rng.range(-1, 1);
                    a.f = (a.f & ~maskw(d)) | (low & maskw(d));
                    if (c.rng.one_in(3)) a.f |= maskw(fa.F) & ~maskw(d);
                }
            } else if (c.rng.one_in(2)) {
                a.e = c.rng.one_in(2) ? fa.emax() : 0;
                a.f = c.rng.one_in(2) ? maskw(fa.F) : (u128)0;
            }
            x = enc(fa, a);
        }
        one(c, x);
    }
}
