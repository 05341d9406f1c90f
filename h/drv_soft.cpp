// Softfloat against the hardware floating-point unit, subnormals included.  The hardware result is itself
// cross-checked against exact integer arithmetic on a sample, so a wrong FPU mode would be noticed.
#include "fpo.hpp"
template<class T, class U> static u128 hw(char op, u128 a, u128 b)
{
    U x = (U)a, y = (U)b, z; T f, g; memcpy(&f, &x, sizeof f); memcpy(&g, &y, sizeof g);
    volatile T vf = f, vg = g, r;
    switch (op) {
    case 'a': r = vf + vg; break; case 'm': r = vf * vg; break; case 'd': r = vf / vg; break;
    case 'e': return vf == vg; case 't': return vf < vg; default: return vf <= vg;
    }
    T t = r; memcpy(&z, &t, sizeof z); return z;
}
static bool nan_(Fmt f, u128 b) { return ((b >> f.F) & (u128)f.emax()) == (u128)f.emax() && (b & maskw(f.F)); }
static bool inf_(Fmt f, u128 b) { return ((b >> f.F) & (u128)f.emax()) == (u128)f.emax() && !(b & maskw(f.F)); }
static bool subn(Fmt f, u128 b) { return ((b >> f.F) & (u128)f.emax()) == 0 && (b & maskw(f.F)); }
static u128 pack(Fmt f, int s, long e, u128 m) { return ((u128)s << (f.E + f.F)) | ((u128)(e < 0 ? 0 : e > f.emax() ? f.emax() : e) << f.F) | (m & maskw(f.F)); }
static u128 from(Fmt f, const Val &v) { return v.cls == NORM ? pack(f, v.s, v.e, v.f) : v.cls == NAN_ ? pack(f, v.s, f.emax(), v.f ? v.f : 1) : v.cls == INF ? pack(f, v.s, f.emax(), 0) : pack(f, v.s, 0, 0); }
static void gen(Rng &r, Fmt f, char op, u128 &x, u128 &y)
{
    Val a, b;
    switch (r.below(9)) {
    case 0: gen_add_pair(r, f, f, a, b); x = from(f, a); y = from(f, b); return;
    case 1: gen_mul_pair(r, f, f, f, a, b); x = from(f, a); y = from(f, b); return;
    case 2: gen_div_pair(r, f, f, f, a, b); x = from(f, a); y = from(f, b); return;
    case 3: x = r.bits(f.E + f.F + 1); y = r.bits(f.E + f.F + 1); return;
    case 4: {                                              // subnormal operands of every length
        x = pack(f, (int)r.below(2), r.one_in(3) ? (long)r.below(3) : 0, r.bits(1 + (int)r.below(f.F)) | r.below(2));
        y = r.one_in(2) ? pack(f, (int)r.below(2), (long)r.below(3), gen_frac(r, f.F)) : pack(f, (int)r.below(2), gen_exp(r, f), gen_frac(r, f.F));
        break; }
    case 5: case 6: {                                      // results at the subnormal border, with ties there
        long t = r.range(-(f.F + 3), 3);                   // biased exponent of the result
        u128 ma = gen_frac(r, f.F), mb = gen_frac(r, f.F);
        if (r.one_in(2)) { int k = (int)r.range(1, f.F); ma = (ma & ~maskw(k)) | (((u128)1 << (k - 1)) + (u128)(long long)r.range(-1, 1)); mb = r.one_in(2) ? 0 : mb; }
        if (op == 'd') { long eb = r.range(1, f.emax() - 1), ea = t + eb - f.bias(); x = pack(f, (int)r.below(2), ea, ma); y = pack(f, (int)r.below(2), eb, mb); }
        else { long eb = r.range(1, f.emax() - 1), ea = t - eb + f.bias(); x = pack(f, (int)r.below(2), ea, ma); y = pack(f, (int)r.below(2), eb, mb); }
        break; }
    case 7: {                                              // results at the overflow border
        long t = f.emax() + r.range(-3, 1), eb = r.range(1, f.emax() - 1), ea = op == 'd' ? t + eb - f.bias() : t - eb + f.bias();
        x = pack(f, (int)r.below(2), ea, gen_frac(r, f.F)); y = pack(f, (int)r.below(2), eb, gen_frac(r, f.F)); break; }
    default: {                                             // neighbours, equal magnitudes, borders of the encoding
        x = from(f, gen_any(r, f, 4)); y = (x + (u128)(long long)r.range(-2, 2)) ^ ((u128)r.below(2) << (f.E + f.F)); y &= maskw(f.E + f.F + 1); }
    }
    if (r.one_in(2)) { u128 t = x; x = y; y = t; }
}
void check_entry(Ctx &c)
{
    Fmt f = { c.e->p[0], c.e->p[1] };
    std::string n = c.e->op; char op = n[4] == 'l' ? (n[5] == 't' ? 't' : 'l') : n[4];
    bool cmp = op == 'e' || op == 't' || op == 'l';
    int w = 1 + f.E + f.F;
    uint64_t cases = c.cases(cmp ? 400000 : 2000000);
    for (uint64_t i = 0; i < cases && !c.stop(); i++) {
        u128 in[2], out[3] = { 0 }, again[3] = { 0 };
        gen(c.rng, f, op, in[0], in[1]);
        bool ok = c.call(in, 2, out);
        u128 want = f.E == 8 ? hw<float, uint32_t>(op, in[0], in[1]) : hw<double, uint64_t>(op, in[0], in[1]);
        bool spec = nan_(f, in[0]) || nan_(f, in[1]) || inf_(f, in[0]) || inf_(f, in[1]);
        c.seen(in, 2, !spec);
        if (!ok) continue;
        if (cmp) c.bucket(want ? "true" : "false");
        else c.bucket(nan_(f, want) ? "result_nan" : inf_(f, want) ? (spec ? "result_inf" : "overflow") : subn(f, want) ? "result_subnormal" : !(want << (129 - w)) ? "result_zero" : "result_normal");
        if (subn(f, in[0]) || subn(f, in[1])) c.bucket("subnormal_operand");
        if (nan_(f, in[0]) || nan_(f, in[1])) c.bucket("nan_operand");
        bool good = !cmp && nan_(f, want) ? nan_(f, out[0]) && out[0] >> w == 0 : out[0] == want;
        if (!good) c.violation("wrong", n + " of " + hex(in[0]) + " , " + hex(in[1]) + " gave " + hex(out[0]) + ", the hardware " + hex(want));
        if (out[1] != in[0] || out[2] != in[1]) c.violation("operand", n + " changed an operand");
        if (i % 16 == 0) {
            if (c.call(in, 2, again) && again[0] != out[0]) c.violation("impure", n + " gave two results for " + hex(in[0]) + " , " + hex(in[1]));
            if (!cmp && !spec && !nan_(f, want) && !inf_(f, want) && !subn(f, want) && want << (129 - w)) {        // the hardware itself, where the exact model applies
                Val a = dec(f, in[0] & maskw(w)), b = dec(f, in[1] & maskw(w));
                auto up = [&](u128 x, Val &v) { v.s = (int)(x >> (w - 1)) & 1; v.f = x & maskw(f.F); v.e = (long)(x >> f.F) & f.emax(); v.cls = NORM; return v.e != 0; };
                if (up(in[0], a) && up(in[1], b)) {
                    Val m = op == 'a' ? ref_add_(f, f, a, f, b) : op == 'm' ? ref_mul_(f, f, a, f, b) : ref_div_(f, f, a, f, b);
                    if (m.cls == NORM && m.e > 1) { c.bucket("hardware_crosschecked"); if (pack(f, m.s, m.e, m.f) != want) { fprintf(stderr, "oracle: the hardware disagrees with exact arithmetic\n"); exit(2); } }
                }
            }
        }
        if (!spec) c.sample(n + " " + hex(in[0]) + " , " + hex(in[1]) + " -> " + hex(out[0]));
    }
    c.bucket(c.e->op);
}
