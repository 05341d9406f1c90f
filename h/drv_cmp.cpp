// Orderings, identity tests and classification.
#include "fpo.hpp"
static bool is(const Ctx &c, const char *n) { return !strcmp(c.e->op, n); }

// position of a zero/normal/infinity on the line of representable values; both zeros are 0
static __int128 pos(Fmt m, const Val &v)
{
    __int128 k = v.cls == ZERO ? 0 : v.cls == INF ? (((__int128)(m.emax() + 1)) << m.F) + 1 : (((__int128)v.e << m.F) | (__int128)v.f) + 1;
    return v.s ? -k : k;
}

static void cmp1(Ctx &c, Fmt fa, Fmt fb, const u128 *in)
{
    u128 out[1] = { 0 };
    Val a = dec(fa, in[0]), b = dec(fb, in[1]);
    u128 want; bool nontriv;
    if (is(c, "cmp")) {
        int r = ref_cmp_(fa, a, fb, b);
        want = (u128)((r == 0) | (r != 0) << 1 | (r == -1) << 2 | (r == -1 || r == 0) << 3 | (r == 1) << 4 | (r == 1 || r == 0) << 5);
        nontriv = r != 2;
        c.bucket(r == 2 ? "unordered" : r == 0 ? "equal" : r < 0 ? "less" : "greater");
        if (a.cls == INF && b.cls == INF) c.bucket("inf_vs_inf");
        if (a.cls == ZERO && b.cls == ZERO) c.bucket("zero_vs_zero");
    } else if (is(c, "equals")) {
        want = same(a, b); nontriv = true; c.bucket(want ? "identical" : "not_identical");
    } else {   // within_1ulp
        bool w;
        if (a.cls == NAN_ || b.cls == NAN_) w = a.cls == b.cls;
        else {
            // neighbours on the line of one sign; both zeros neighbour both smallest normals
            __int128 d = pos(fa, a) - pos(fb, b);
            w = d == 0 || d == 1 || d == -1;
        }
        want = w; nontriv = true; c.bucket(w ? "within" : "apart");
    }
    bool ok = c.call(in, 2, out);
    c.seen(in, 2, nontriv);
    if (!ok) return;
    if (nontriv) c.sample(show(fa, in[0]) + " , " + show(fb, in[1]) + " -> " + hex(out[0]));
    if (out[0] != want)
        c.violation("wrong", show(fa, in[0]) + " , " + show(fb, in[1]) + " -> got mask " + hex(out[0]) + " expected " + hex(want) +
                    (is(c, "cmp") ? " (bits: eq ne lt le gt ge)" : ""));
}

// identity test of the ieee layout: any zero (subnormals included) equals any zero, any nan any nan
static void eqi1(Ctx &c, Fmt m, const u128 *in)
{
    u128 out[1] = { 0 };
    Val a = decI(m, in[0]), b = decI(m, in[1]);
    bool want = a.cls == b.cls && (a.cls == ZERO || a.cls == NAN_ || (a.s == b.s && (a.cls == INF || (a.e == b.e && a.f == b.f))));
    c.bucket(want ? "ieee_identical" : "ieee_not_identical");
    bool ok = c.call(in, 2, out);
    c.seen(in, 2, true);
    if (ok && out[0] != (u128)want) c.violation("wrong", "ieee " + hex(in[0]) + " equals " + hex(in[1]) + " -> got " + hex(out[0]) + " expected " + hex(want));
}

// classification of one value; layout of out[0] in INST_CLASS / INST_CLASSI
static void cls1(Ctx &c, Fmt m, u128 x, bool ieee)
{
    u128 out[1] = { 0 };
    Val v = dec(m, x);
    if (ieee) {
        v.cls = v.e == 0 ? ZERO : v.e == m.emax() ? (v.f ? NAN_ : INF) : NORM;
        v.s = (int)((x >> (m.E + m.F)) & 1);
    }
    int cl = v.cls, s = v.s;
    u128 want = 0; int k = 0;
    auto put = [&](bool b) { if (b) want |= ((u128)1) << k; k++; };
    put(cl == ZERO); put(cl == NORM); put(cl == INF); put(cl == NAN_);
    put(!s); put(s);
    put(cl == NORM && !s); put(cl == NORM && s);
    put(cl == ZERO && !s); put(cl == ZERO && s);
    put(cl == INF && !s); put(cl == INF && s);
    want |= (u128)cl << k; k += 2;
    if (!ieee) {
        int ec = cl == NAN_ ? 0 : cl == INF ? (s ? 1 : 5) : cl == NORM ? (s ? 2 : 4) : 3;
        want |= (u128)ec << k; k += 3;
    }
    u128 fields[3] = { (u128)s, (u128)v.e, v.f };
    u128 o[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };
    bool ok = c.call(&x, 1, o);
    c.seen(&x, 1, true);
    c.bucket(cl == ZERO ? "zero" : cl == NORM ? "normal" : cl == INF ? "inf" : "nan");
    if (!ok) return;
    c.sample((ieee ? hex(x) : show(m, x)) + " -> " + hex(o[0]));
    if (o[0] != want) c.violation("class", (ieee ? "ieee " + hex(x) : show(m, x)) + " -> got mask " + hex(o[0]) + " expected " + hex(want));
    for (int i = 0; i < 3; i++)
        if (o[i + 1] != fields[i]) { c.violation("field", (ieee ? "ieee " + hex(x) : show(m, x)) + " field " + std::to_string(i) + " got " + hex(o[i + 1]) + " expected " + hex(fields[i])); break; }
    // whole-word accessors, construction from the fields, copies
    u128 ef = (u128)v.e << m.F | v.f;
    u128 more[4] = { ieee ? x : ef, (u128)cl << (m.E + m.F) | ef, x, x };
    for (int i = 0; i < (ieee ? 1 : 4); i++)
        if (o[i + 4] != more[i]) { c.violation("word", (ieee ? "ieee " + hex(x) : show(m, x)) + " word " + std::to_string(i) + " got " + hex(o[i + 4]) + " expected " + hex(more[i])); break; }
}

// numeric_limits: out[0..] are bit patterns / integers in a fixed order
static void lim1(Ctx &c, Fmt m, bool ieee)
{
    u128 in[1] = { 0 }, out[64];
    memset(out, 0, sizeof out);
    if (!c.call(in, 1, out)) return;
    c.seen(in, 1, true);
    c.bucket("limits");
    auto chk = [&](const char *n, int i, Val w, bool bits = true) {
        u128 want;
        if (ieee) {
            u128 s = (u128)w.s << (m.E + m.F);
            want = w.cls == ZERO ? s : w.cls == INF ? s | ((u128)m.emax() << m.F) : s | ((u128)w.e << m.F) | w.f;
            if (w.cls == NAN_) {
                if (((out[i] >> m.F) & maskw(m.E)) != (u128)m.emax() || !(out[i] & maskw(m.F))) c.violation("limits", std::string(n) + " is not a nan: " + hex(out[i]));
                return;
            }
            if (out[i] != want) c.violation("limits", std::string(n) + " = " + hex(out[i]) + " expected " + hex(want));
        } else if (!same(dec(m, out[i]), w) || (out[i] & ~maskw(m.w())))
            c.violation("limits", std::string(n) + " = " + show(m, out[i]) + " expected " + show(m, enc(m, w)));
    };
    long lo = ieee ? 1 : 0, hi = ieee ? m.emax() - 1 : m.emax();
    chk("min", 0, mk(NORM, 0, lo, 0)); chk("neg_min", 1, mk(NORM, 1, lo, 0));
    chk("max", 2, mk(NORM, 0, hi, maskw(m.F))); chk("neg_max", 3, mk(NORM, 1, hi, maskw(m.F)));
    chk("lowest", 4, mk(NORM, 1, hi, maskw(m.F)));
    chk("infinity", 5, mk(INF, 0)); chk("neg_infinity", 6, mk(INF, 1)); chk("quiet_NaN", 7, mk(NAN_));
    chk("pos_zero", 8, mk(ZERO, 0)); chk("neg_zero", 9, mk(ZERO, 1)); chk("zero", 10, mk(ZERO, 0));
    chk("one", 11, mk(NORM, 0, m.bias(), 0)); chk("neg_one", 12, mk(NORM, 1, m.bias(), 0)); chk("pos_one", 13, mk(NORM, 0, m.bias(), 0));
    long w14 = m.F + 1, emin = ieee ? 1 - m.bias() : -m.bias(), emax = ieee ? m.bias() : m.bias() + 1;
    u128 want = (u128)(uint64_t)w14 | (u128)(uint32_t)(int32_t)emin << 32 | (u128)(uint32_t)(int32_t)emax << 64;
    if (out[14] != want) c.violation("limits", "digits/min_exponent/max_exponent = " + hex(out[14]) + " expected " + hex(want));
    chk("denorm_min", 15, mk(NORM, 0, lo, 0));      // the formats have no subnormals, so this is min()
    // specialised, signed, not an integer, not exact, has infinity and nan, bounded, not modulo, radix 2, never traps, no subnormals, rounds to nearest, not IEC 559
    const int t[] = { 1, 1, 0, 0, 1, 1, 1, 0, 2, 0, 0, 1, 0 };
    for (unsigned k = 0; k < sizeof t / sizeof *t; k++)
        if ((int)(out[16] >> 4 * k & 15) != t[k]) c.violation("limits", "trait " + std::to_string(k) + " = " + hex(out[16] >> 4 * k & 15) + " expected " + std::to_string(t[k]));
    chk("epsilon", 23, m.bias() - m.F >= lo ? mk(NORM, 0, m.bias() - m.F, 0) : mk(ZERO, 0));     // the gap above one
    chk("round_error", 24, m.bias() - 1 >= lo ? mk(NORM, 0, m.bias() - 1, 0) : mk(ZERO, 0));     // half an ulp
    chk("default-constructed", 19, mk(ZERO, 0));
    if (out[21] != (u128)m.E || out[22] != (u128)m.F) c.violation("limits", "exp_bits/frac_bits = " + hex(out[21]) + "/" + hex(out[22]));
    u128 cw = (u128)(uint32_t)m.bias();
    if (!ieee) cw |= (u128)(uint32_t)(int32_t)-m.bias() << 32 | (u128)(uint32_t)(m.bias() + 1) << 64 | (u128)(uint32_t)m.bias() << 96;
    if (out[20] != cw) c.violation("limits", "bias/min_exponent/max_exponent = " + hex(out[20]) + " expected " + hex(cw));
    if (out[18]) chk("signalling_NaN", 17, mk(NAN_));   // only where the format claims to have one
}

void check_entry(Ctx &c)
{
    const int *p = c.e->p;
    Fmt fa = { p[2], p[3] }, fb = { p[4], p[5] };
    if (is(c, "limits") || is(c, "limits_ieee")) { lim1(c, { p[0], p[1] }, is(c, "limits_ieee")); return; }
    if (is(c, "class") || is(c, "class_ieee")) {
        Fmt m = { p[0], p[1] }; bool ie = is(c, "class_ieee");
        int w = ie ? m.w() - 2 : m.w();
        if (w <= 16) { c.bucket("exhaustive_configs"); for (u128 x = 0; x >> w == 0 && !c.stop(); x++) cls1(c, m, x, ie); return; }
        uint64_t n = c.cases(6000);
        for (uint64_t i = 0; i < n && !c.stop(); i++) {
            Val v = gen_any(c.rng, m, 2);
            if (ie) { if (c.rng.one_in(3)) v.e = c.rng.one_in(2) ? 0 : m.emax(); if (c.rng.one_in(3)) v.f = c.rng.one_in(2) ? 0 : (u128)1 << c.rng.below(m.F); cls1(c, m, enc(m, v) & maskw(w), true); }
            else cls1(c, m, enc(m, v), false);
        }
        return;
    }
    u128 in[2];
    if (is(c, "equals_ieee")) {
        int w = fa.w() - 2;
        if (2 * w <= c.exh(20)) {
            c.bucket("exhaustive_configs");
            for (u128 v = 0; v >> (2 * w) == 0 && !c.stop(); v++) { in[0] = v & maskw(w); in[1] = v >> w; eqi1(c, fa, in); }
            return;
        }
        uint64_t n = c.cases(8000);
        for (uint64_t i = 0; i < n && !c.stop(); i++) {
            in[0] = gen_ieee(c.rng, fa); in[1] = gen_ieee(c.rng, fa);
            switch (c.rng.below(4)) {
            case 0: in[1] = in[0]; break;
            case 1: in[1] = in[0] ^ (u128)1 << c.rng.below(w); break;                            // one bit away
            case 2: in[1] = (in[0] & ~maskw(fa.F)) | (in[1] & maskw(fa.F)); if (c.rng.one_in(2)) in[1] ^= (u128)1 << (w - 1); break;   // another fraction
            default: break;
            }
            eqi1(c, fa, in);
        }
        return;
    }
    int bits = fa.w() + fb.w();
    if (bits <= c.exh(20)) {
        c.bucket("exhaustive_configs");
        for (u128 v = 0; v >> bits == 0 && !c.stop(); v++) { in[0] = v & maskw(fa.w()); in[1] = v >> fa.w(); cmp1(c, fa, fb, in); }
        return;
    }
    uint64_t n = c.cases(8000);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        Val a, b;
        gen_add_pair(c.rng, fa, fb, a, b);
        switch (c.rng.below(6)) {
        case 0: case 1: {                   // same value in the other format, or one unit away
            if (a.cls != NORM) { b.cls = a.cls; if (c.rng.one_in(2)) b.s = a.s; break; }
            long e = a.e - fa.bias() + fb.bias(); b = a;
            if (e < 0) e = 0; if (e > fb.emax()) e = fb.emax();
            b.e = e; b.f = fb.F >= fa.F ? a.f << (fb.F - fa.F) : a.f >> (fa.F - fb.F);
            int k = (int)c.rng.below(5);
            if (k < 3) { u128 u = (((u128)b.e << fb.F) | b.f) + (u128)(long long)(k - 1); b.f = u & maskw(fb.F); b.e = (long)((u >> fb.F) & maskw(fb.E)); }
            if (c.rng.one_in(6)) b.s ^= 1;
            break; }
        case 2: a = gen_special(c.rng, fa); b = gen_special(c.rng, fb); break;
        case 3: {                           // the ends of the line
            a = c.rng.one_in(2) ? mk(NORM, a.s, 0, c.rng.below(2)) : mk(NORM, a.s, fa.emax(), maskw(fa.F) - c.rng.below(2));
            b = gen_special(c.rng, fb); if (c.rng.one_in(2)) b.s = a.s;
            if (c.rng.one_in(2) && fa.E == fb.E && fa.F == fb.F) { Val t = a; a = b; b = t; }
            break; }
        default: break;
        }
        in[0] = enc(fa, a); in[1] = enc(fb, b);
        cmp1(c, fa, fb, in);
    }
}
