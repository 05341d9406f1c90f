// Drives the conversions of inst_natt.hpp; what they return is judged by the recorder and replayer around the calls.
#include "fpo.hpp"
void check_entry(Ctx &c)
{
    Rng &r = c.rng; Fmt m = { c.e->p[0], c.e->p[1] }; bool ieee = c.e->p[2];
    bool from = !strcmp(c.e->op, "from_mpfr"), get = !strcmp(c.e->op, "get"), fd = !strcmp(c.e->op, "from_double");
    uint64_t n = c.cases(3000);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 in[3] = { 0, 0, 0 }, out[64] = { 0 };
        Val v = gen_any(r, m, 6);
        if (fd) { in[0] = r.next(); if (r.one_in(2)) in[0] = (in[0] & ~((uint64_t)0x7ff << 52)) | (u128)(1023 + r.range(-20, 20)) << 52; }
        else if (ieee) {
            u128 s = (u128)v.s << (m.E + m.F);
            in[0] = v.cls == NORM ? s | (u128)((v.e % (m.emax() - 1)) + 1) << m.F | v.f : v.cls == ZERO ? s : s | (u128)m.emax() << m.F | (v.cls == INF ? 0 : v.f | 1);
        } else in[0] = enc(m, v);
        if (get) { in[1] = (u128)r.range(2, m.F + 6); in[2] = r.one_in(5) ? 99 : (u128)r.below(5); }
        if (from) { long w = m.bias() < 4000 ? m.bias() : 4000; in[1] = (u128)(uint32_t)(int32_t)(r.one_in(2) ? r.range(-2, 2) : r.range(-w, w)); in[2] = r.below(2); }
        if (!c.call(in, 3, out)) continue;
        c.seen(in, 3, true);
        c.bucket(v.cls == ZERO ? "zero" : v.cls == INF ? "inf" : v.cls == NAN_ ? "nan" : "normal");
        if (from && out[1]) c.bucket("refused");
    }
}
