// Lock-step monitor for policy programs: every step against exact arithmetic in the policy's format and, for the
// single and double formats, against the hardware floating-point unit.
#include "fpo.hpp"
#include <cmath>
#include <limits>
enum { FLO, IEE, NAT, SOFT };
static const char *kind[4] = { "flopoco", "ieee_on_flopoco", "native", "softfloat" };
template<class T, class U> static u128 hw_op(int op, u128 a, u128 b)
{
    U x = (U)a, y = (U)b, z; T f, g; memcpy(&f, &x, sizeof f); memcpy(&g, &y, sizeof g);
    volatile T vf = f, vg = g, r = op == 0 ? vf + vg : op == 1 ? vf * vg : vf / vg;
    T t = r; memcpy(&z, &t, sizeof z); return z;
}
template<class T, class U> static u128 hw_cmp(u128 a, u128 b)
{
    U x = (U)a, y = (U)b; T f, g; memcpy(&f, &x, sizeof f); memcpy(&g, &y, sizeof g); volatile T p = f, q = g;
    return (u128)(p == q) | (u128)(p != q) << 1 | (u128)(p < q) << 2 | (u128)(p <= q) << 3 | (u128)(p > q) << 4 | (u128)(p >= q) << 5;
}
static u128 hwop(Fmt f, int op, u128 a, u128 b) { return f.E == 8 ? hw_op<float, uint32_t>(op, a, b) : hw_op<double, uint64_t>(op, a, b); }
static u128 hwcmp(Fmt f, u128 a, u128 b) { return f.E == 8 ? hw_cmp<float, uint32_t>(a, b) : hw_cmp<double, uint64_t>(a, b); }
static bool hwfmt(Fmt f) { return (f.E == 8 && f.F == 23) || (f.E == 11 && f.F == 52); }
static u128 cmpbits(int k) { return k == 2 ? 2 : k == 0 ? 1 | 8 | 32 : k < 0 ? 2 | 4 | 8 : 2 | 16 | 32; }

static Val model(Fmt f, int op, const Val &a, const Val &b, RInfo *ri) { return op == 0 ? ref_add_(f, f, a, f, b, ri) : op == 1 ? ref_mul_(f, f, a, f, b, ri) : ref_div_(f, f, a, f, b, ri); }
static Val squeeze(Fmt f, Val v) { if (v.cls == NORM && v.e <= 0) return mk(ZERO, v.s); if (v.cls == NORM && v.e >= f.emax()) return mk(INF, v.s); return v; }
// a number of the ieee range, or zero/infinity/NaN, in either layout
static bool plain(Fmt f, const Val &v) { return v.cls != NORM || (v.e > 0 && v.e < f.emax()); }
static bool isnan_(Fmt f, u128 b) { return decI(f, b).cls == NAN_; }

static u128 gen_raw(Rng &r, int k, Fmt f)
{
    if (k == FLO) return enc(f, gen_any(r, f, 10));
    return gen_ieee(r, f);
}
static void gen_two(Rng &r, int k, Fmt f, u128 &x, u128 &y)
{
    Val a, b;
    switch (r.below(4)) {
    case 0: gen_add_pair(r, f, f, a, b); break;
    case 1: gen_mul_pair(r, f, f, f, a, b); break;
    case 2: gen_div_pair(r, f, f, f, a, b); break;
    default: x = gen_raw(r, k, f); y = gen_raw(r, k, f); return;
    }
    if (k == FLO) { x = enc(f, a); y = enc(f, b); return; }
    auto put = [&](Val v) { if (v.cls != NORM) { v.f = v.f ? v.f : 1; u128 s = (u128)v.s << (f.E + f.F); return v.cls == NAN_ ? s | ((u128)f.emax() << f.F) | v.f : encI(f, v); } return ((u128)v.s << (f.E + f.F)) | ((u128)v.e << f.F) | v.f; };
    x = put(a); y = put(b);
}
// one arithmetic step; returns an empty string or what was wrong
static std::string judge(Ctx &c, int k, Fmt f, int op, u128 a, u128 b, u128 got)
{
    int w = k == FLO ? f.w() : f.w() - 2;
    if (got & ~maskw(w)) return "bits beyond the width";
    static const char *on[3] = { "+", "*", "/" };
    auto msg = [&](u128 want, const char *by) { return hex(a) + on[op] + hex(b) + " gave " + hex(got) + ", " + by + " says " + hex(want); };
    if (k == NAT || k == SOFT) {
        u128 h = hwop(f, op, a, b);
        c.bucket("steps_against_hardware");
        if (isnan_(f, h) ? !isnan_(f, got) : h != got) return msg(h, "the hardware");
        return "";
    }
    Val x = k == FLO ? dec(f, a) : decI(f, a), y = k == FLO ? dec(f, b) : decI(f, b), g = k == FLO ? dec(f, got) : decI(f, got);
    RInfo ri; Val want = model(f, op, x, y, &ri);
    if (k == IEE) want = squeeze(f, want);
    bucket_ri(c, want, ri);
    if (!same(g, want) || (k == IEE && want.cls == ZERO && g.f)) return msg(k == FLO ? enc(f, want) : encI(f, want), "exact arithmetic");
    if (hwfmt(f) && plain(f, x) && plain(f, y)) {
        u128 h = hwop(f, op, encI(f, x), encI(f, y)); Val hv = decI(f, h);
        // results below (or rounded up to) the smallest normal are where the formats legitimately differ
        bool sub = hv.cls == ZERO && (h & maskw(f.F)), border = hv.cls == NORM && hv.e <= 1 && hv.f == 0;
        bool flushed = hv.cls == ZERO && x.cls == NORM && (op ? (op == 1 ? y.cls == NORM : y.cls != INF) : false);
        bool beyond = hv.cls == INF && g.cls == NORM && k == FLO;
        if (!sub && !border && !flushed && !beyond) {
            c.bucket("steps_against_hardware");
            if (!same(g, hv)) return msg(h, "the hardware");
        } else c.bucket("steps_outside_the_common_range");
    }
    return "";
}
static std::string judge_cmp(Ctx &c, int k, Fmt f, u128 a, u128 b, u128 got)
{
    u128 want;
    if (k >= NAT) { want = hwcmp(f, a, b); c.bucket("comparisons_against_hardware"); }
    else {
        Val x = k == FLO ? dec(f, a) : decI(f, a), y = k == FLO ? dec(f, b) : decI(f, b);
        int r = ref_cmp_(f, x, f, y);
        if (r == 2) c.bucket("unordered_comparisons");
        if (hwfmt(f) && plain(f, x) && plain(f, y)) {
            c.bucket("comparisons_against_hardware");
            if (cmpbits(r) != hwcmp(f, encI(f, x), encI(f, y))) { fprintf(stderr, "oracle: comparison models disagree\n"); abort(); }
        }
        want = cmpbits(r);
    }
    return got == want ? "" : "comparing " + hex(a) + " with " + hex(b) + " gave " + hex(got) + " expected " + hex(want) + " (bits: == != < <= > >=)";
}
static void run_prog(Ctx &c, Fmt f, int k)
{
    Rng &r = c.rng;
    u128 in[40], out[48];
    for (int i = 0; i < 4; i += 2) gen_two(r, k, f, in[i], in[i + 1]);
    int n = (int)r.range(1, 24); in[4] = n;
    for (int i = 0; i < n; i++) {
        int op = r.one_in(4) ? 6 : (int)r.below(6);
        in[5 + i] = op | r.below(4) << 8 | r.below(4) << 16 | r.below(4) << 24;
    }
    memset(out, 0, sizeof out);
    bool ok = c.call(in, 5 + n, out);
    c.seen(in, 5 + n, n > 1);
    if (!ok) return;
    u128 reg[4] = { in[0], in[1], in[2], in[3] };
    for (int i = 0; i < n; i++) {
        unsigned w = (unsigned)in[5 + i]; int op = w & 255, d = w >> 8 & 3, a = w >> 16 & 3, b = w >> 24 & 3;
        std::string e;
        c.bucket("program_steps");
        if (op >= 6) e = judge_cmp(c, k, f, reg[a], reg[b], out[i]);
        else if (op == 5) { if (out[i] != reg[a]) e = "copy changed " + hex(reg[a]); reg[d] = out[i]; }
        else { e = judge(c, k, f, op >= 3 ? op - 3 : op, op >= 3 ? reg[d] : reg[a], reg[b], out[i]); reg[d] = out[i]; }
        if (e.size()) { c.violation(std::string(kind[k]) + "_step", "step " + std::to_string(i + 1) + " of a program: " + e); return; }
    }
    for (int j = 0; j < 4; j++) if (out[n + j] != reg[j]) { c.violation("registers", "an operation changed a variable it does not assign: " + hex(reg[j]) + " became " + hex(out[n + j])); return; }
    c.bucket(kind[k]);
    c.sample(std::string(kind[k]) + " program of " + std::to_string(n) + " steps");
}
static void run_refs(Ctx &c, Fmt f, int k)
{
    u128 in[2], out[8] = { 0 };
    gen_two(c.rng, k, f, in[0], in[1]);
    bool ok = c.call(in, 2, out);
    c.seen(in, 2, true);
    if (!ok) return;
    if (out[5]) { c.violation("refs_throw", "the policy's reference path threw on " + hex(in[0]) + " , " + hex(in[1])); return; }
    if (!out[6]) c.violation("refs_range", "the policy's reference left MPFR's exponent range changed");
    for (int op = 0; op < 3; op++) {
        std::string e = judge(c, k, f, op, in[0], in[1], out[op]);
        if (e.size()) c.violation(std::string("refs_") + kind[k], "the policy's own reference: " + e);
    }
    for (int j = 0; j < 2; j++) {
        u128 x = in[j], y = out[3 + j];
        bool good;
        if (k == FLO) good = same(dec(f, x), dec(f, y)) && !(y & ~maskw(f.w()));
        else if (k == IEE) good = same(decI(f, x), decI(f, y));
        else good = isnan_(f, x) ? isnan_(f, y) : x == y;
        if (!good) c.violation("refs_roundtrip", hex(x) + " came back from MPFR as " + hex(y));
    }
    c.bucket("reference_checks");
}
void check_entry(Ctx &c)
{
    Fmt f = { c.e->p[0], c.e->p[1] }; int k = c.e->p[2];
    Rng &r = c.rng;
    const char *op = c.e->op;
    if (!strcmp(op, "prog")) { uint64_t n = c.cases(1500); for (uint64_t i = 0; i < n && !c.stop(); i++) run_prog(c, f, k); return; }
    if (!strcmp(op, "refs")) { uint64_t n = c.cases(2500); for (uint64_t i = 0; i < n && !c.stop(); i++) run_refs(c, f, k); return; }
    if (!strcmp(op, "self")) {
        u128 in[1] = { 150 }, out[2] = { 0 };
        if (c.call(in, 1, out)) { c.seen(in, 1, true); c.bucket("selftests"); if (out[0] || out[1]) c.violation("selftest", out[1] ? "the policy's self-test threw" : "the policy's self-test reports failures"); }
        return;
    }
    if (!strcmp(op, "limits")) {
        u128 in[1] = { 0 }, o[64] = { 0 };
        if (!c.call(in, 1, o)) return;
        c.seen(in, 1, true); c.bucket("limits");
        long lo = k == FLO ? 0 : 1, hi = k == FLO ? f.emax() : f.emax() - 1;
        u128 m = maskw(f.F);
        Val want[5] = { mk(NORM, 0, lo, 0), mk(NORM, 0, hi, m), mk(NORM, 1, hi, m), mk(INF, 0), mk(NAN_) };
        for (int i = 0; i < 5; i++) { Val g = k == FLO ? dec(f, o[i]) : decI(f, o[i]); if (!same(g, want[i])) c.violation("limit" + std::to_string(i), "numeric_limits constant is " + hex(o[i])); }
        for (int i = 8; i < 10; i++) {
            long e = f.bias() - (i == 8 ? f.F : 1); Val g = k == FLO ? dec(f, o[i]) : decI(f, o[i]);
            if (!same(g, e >= lo ? mk(NORM, 0, e, 0) : mk(ZERO, 0))) c.violation(i == 8 ? "epsilon" : "round_error", "numeric_limits constant is " + hex(o[i]));
        }
        if (o[5] != (u128)f.F + 1 || o[6] != 2 || !o[7]) c.violation("limit_traits", "digits, radix or a trait of numeric_limits is wrong");
        return;
    }
    uint64_t n = c.cases(4000);
    Fmt fs = { 8, 23 };
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 x, out[2] = { 0 };
        std::string e;
        if (!strcmp(op, "double_to_float") || !strcmp(op, "float_to_double")) {
            bool d2f = op[0] == 'd';
            Fmt s = d2f ? Fmt{ 11, 52 } : fs;
            x = gen_ieee(r, s);
            if (d2f && r.one_in(2)) { Val v = decI(fs, gen_ieee(r, fs)); if (v.cls == NORM) x = ((u128)v.s << 63) | ((u128)(v.e - 127 + 1023) << 52) | (v.f << 29) | (r.one_in(2) ? (u128)1 << 28 : r.bits(29)); }
            if (!c.call(&x, 1, out)) continue;
            c.seen(&x, 1, true);
            u128 want;
            if (d2f) { uint64_t b = (uint64_t)x; double d; memcpy(&d, &b, 8); volatile float g = (float)d; float h = g; uint32_t q; memcpy(&q, &h, 4); want = q; if (isnan_(fs, want) && isnan_(fs, out[0])) continue; }
            else { uint32_t b = (uint32_t)x; float d; memcpy(&d, &b, 4); volatile double g = d; double h = g; uint64_t q; memcpy(&q, &h, 8); want = q; if (isnan_(Fmt{ 11, 52 }, want) && isnan_(Fmt{ 11, 52 }, out[0])) continue; }
            if (out[0] != want) c.violation("wrong", hex(x) + " converts to " + hex(out[0]) + " expected " + hex(want));
            c.bucket("conversions");
            continue;
        }
        if (!strcmp(op, "from_float")) {
            x = gen_ieee(r, fs);
            if (!c.call(&x, 1, out)) continue;
            c.seen(&x, 1, true);
            RInfo ri; Val want = ref_conv_(f, fs, decI(fs, x), &ri), g = dec(f, out[0]);
            bucket_ri(c, want, ri);
            if ((out[0] & ~maskw(f.w())) || !same(g, want)) e = "float " + hex(x) + " became " + show(f, out[0]) + " expected " + show(f, enc(f, want));
        } else if (!strcmp(op, "to_float")) {
            Val v = gen_any(r, f, 8);
            if (v.cls == NORM && r.one_in(2)) { long t = f.bias() + (r.one_in(3) ? (r.one_in(2) ? -126 + r.range(-2, 2) : 127 + r.range(-2, 2)) : r.range(-40, 40)); v.e = t < 0 ? 0 : t > f.emax() ? f.emax() : t; }
            x = enc(f, v);
            if (!c.call(&x, 1, out)) continue;
            c.seen(&x, 1, true);
            RInfo ri; Val want = squeeze(fs, ref_conv_(fs, f, v, &ri)), g = decI(fs, out[0]);
            bucket_ri(c, want, ri);
            if (!same(g, want) || (want.cls == ZERO && g.f)) e = show(f, x) + " became float " + hex(out[0]) + " expected " + hex(encI(fs, want));
            if (out[1] != x) e = "the operand changed";
        } else {
            x = enc(f, gen_any(r, f, 4));
            if (!c.call(&x, 1, out)) continue;
            c.seen(&x, 1, true);
            if (out[0] != x) e = show(f, x) + " became " + show(f, out[0]);
        }
        c.bucket("conversions");
        if (e.size()) c.violation("wrong", e);
    }
}
