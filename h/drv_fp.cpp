// add / mul / div families: real code against the exact model, RNE, unbounded exponent then range check.
#include "fpo.hpp"

typedef Val (*RefBin)(Fmt, Fmt, const Val &, Fmt, const Val &, RInfo *);
typedef void (*GenBin)(Rng &, Fmt, Fmt, Fmt, Val &, Val &);
static void gen_add3(Rng &r, Fmt, Fmt fa, Fmt fb, Val &a, Val &b) { gen_add_pair(r, fa, fb, a, b); }

static bool starts(const char *s, const char *p) { return !strncmp(s, p, strlen(p)); }

static void one(Ctx &c, Fmt fr, Fmt fa, Fmt fb, const u128 *in, RefBin ref, bool unary_same)
{
    u128 out[1] = { 0 };
    Val a = dec(fa, in[0]), b = dec(fb, in[1]);
    RInfo ri;
    Val want = ref(fr, fa, a, fb, b, &ri);
    bool ok = c.call(in, 2, out);
    bool nontriv = a.cls == NORM && b.cls == NORM && (ri.inexact || ri.over || ri.under || want.cls == ZERO);
    c.seen(in, 2, nontriv);
    bucket_ri(c, want, ri);
    if (a.cls != NORM || b.cls != NORM) c.bucket("special_operand");
    if (!ok) return;
    if (out[0] & ~maskw(fr.w())) { c.violation("overwide", "result bits beyond the width: " + hex(out[0])); return; }
    Val got = dec(fr, out[0]);
    if (nontriv) c.sample(show(fa, in[0]) + " , " + show(fb, in[1]) + " -> " + show(fr, out[0]));
    if (!same(got, want))
        c.violation("wrong", show(fa, in[0]) + " , " + show(fb, in[1]) + " -> got " + show(fr, out[0]) + " expected " + show(fr, enc(fr, want)));
}

void check_entry(Ctx &c)
{
    const int *p = c.e->p;
    Fmt fr = { p[0], p[1] }, fa = { p[2], p[3] }, fb = { p[4], p[5] };
    RefBin ref; GenBin gen; bool square = false;
    if (starts(c.e->op, "add")) { ref = ref_add_; gen = gen_add3; }
    else if (starts(c.e->op, "mul")) { ref = ref_mul_; gen = gen_mul_pair; }
    else if (starts(c.e->op, "square")) { ref = ref_mul_; gen = gen_mul_pair; square = true; }
    else if (starts(c.e->op, "div")) { ref = ref_div_; gen = gen_div_pair; }
    else { fprintf(stderr, "unknown op %s\n", c.e->op); abort(); }
    u128 in[2];
    int bits = square ? fa.w() : fa.w() + fb.w();
    double lim = c.exh(20);
    if (bits <= lim) {           // every pair of bit patterns, payloads of specials included
        c.bucket("exhaustive_configs");
        for (u128 v = 0; v >> bits == 0 && !c.stop(); v++) {
            in[0] = v & maskw(fa.w()); in[1] = square ? in[0] : v >> fa.w();
            one(c, fr, fa, fb, in, ref, square);
        }
        return;
    }
    uint64_t n = c.cases(8000);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        Val a, b;
        gen(c.rng, fr, fa, fb, a, b);
        in[0] = enc(fa, a); in[1] = square ? in[0] : enc(fb, b);
        one(c, fr, fa, fb, in, ref, square);
    }
}
