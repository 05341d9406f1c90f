// Lock-step trace checker for the LUT-optimised generator: builds the taps of (N,T,S) with an independent
// run-time construction and follows histories of the real step function.
#include "vtcore.hpp"
#include <algorithm>
#include <set>
struct Lcg { uint32_t s; uint32_t next() { uint32_t v = s; s = s * 1664525u + 1013904223u; return v; } };
static void shuffle(std::vector<int> &p, Lcg &g)
{
    for (int j = (int)p.size(); j >= 2; j--) std::swap(p[j - 1], p[(g.next() >> 16) % (uint32_t)j]);
}
void check_entry(Ctx &c)
{
    int N = c.e->p[0], T = c.e->p[1];
    Lcg g = { (uint32_t)c.e->p[2] };
    std::vector<int> cyc(N), cur;
    for (int i = 0; i < N; i++) cyc[i] = (i + 1) % N;
    cur = cyc;
    std::vector<std::vector<int>> perm;
    for (int t = 0; t < T; t++) { shuffle(cur, g); perm.push_back(cur); }
    std::vector<int> outp = cyc;
    shuffle(outp, g);
    std::vector<u128> mask(N);                        // mask[b]: taps of result bit b
    std::set<int> used;
    for (int o = 0; o < N; o++) {
        u128 m = 0;
        for (int t = 0; t < T; t++) { m |= (u128)1 << perm[t][outp[o]]; used.insert(perm[t][outp[o]]); }
        mask[N - 1 - o] = m;
        int pc = 0; for (int i = 0; i < N; i++) pc += (int)(m >> i & 1);
        if (pc < T) c.bucket("bits_with_coinciding_taps");
    }
    auto model = [&](u128 s) {
        u128 r = 0;
        for (int b = 0; b < N; b++) {
            u128 x = s & mask[b];
            r |= (u128)(__builtin_parityll((uint64_t)x) ^ __builtin_parityll((uint64_t)(x >> 64))) << b;
        }
        return r;
    };
    Rng &r = c.rng;
    auto one = [&](u128 s, u128 &n) {
        u128 out[4] = { 0 };
        bool ok = c.call(&s, 1, out);
        c.seen(&s, 1, s != 0);
        if (!ok) return false;
        n = out[0];
        if (out[0] != model(s)) c.violation("recurrence", "step(" + hex(s) + ") gave " + hex(out[0]) + ", the recurrence " + hex(model(s)));
        if (out[1] != s) c.violation("operand", "step changed its operand " + hex(s));
        if (!out[2]) c.violation("constants", "n, t, r or the state width disagree with the parameters");
        return true;
    };
    u128 n;
    one(0, n); one(maskw(N), n);
    for (int b = 0; b < N && !c.stop(); b++) { one((u128)1 << b, n); one(maskw(N) ^ (u128)1 << b, n); }      // every column of the transition matrix
    c.bucket("matrix_columns", N);
    if (N <= 10)
        for (u128 s = 0; s < ((u128)1 << N) && !c.stop(); s++) one(s, n);
    int hist = (int)c.cases(6);
    for (int h = 0; h < hist && !c.stop(); h++) {
        u128 s = h == 0 ? 1 : r.bits(N), ref = s, diff = r.bits(N), s2 = s ^ diff, d = diff;
        int len = h == 0 ? 400 : 100;
        for (int i = 0; i < len && !c.stop(); i++) {
            u128 a, b, e;
            if (!one(s, a) || !one(s2, b) || !one(d, e)) break;
            if ((a ^ b) != e) c.violation("linearity", "step(a)^step(b) != step(a^b) at a=" + hex(s) + " b=" + hex(s2));
            ref = model(ref);
            if (a != ref) { c.violation("history", "history leaves the recurrence after " + std::to_string(i + 1) + " steps"); break; }
            s = a; s2 = b; d = e;
            c.bucket("history_steps");
            c.bucket("linearity_checks");
        }
        c.bucket("histories");
    }
    if ((int)used.size() == N) c.bucket("whole_state_tapped");
    c.sample("history followed");
}
