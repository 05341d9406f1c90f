// Fixed-width integers against plain integers / bit strings.
#include "vtcore.hpp"
#include <gmp.h>
#include <cmath>

static u128 gen(Rng &r, int w)
{
    switch (r.below(9)) {
    case 0: return 0;
    case 1: return maskw(w);
    case 2: return w ? (u128)1 << r.below(w) : 0;                                  // one bit
    case 3: return w ? maskw(w) ^ ((u128)1 << r.below(w)) : 0;                     // all but one
    case 4: return maskw((int)r.below(w + 1));                                     // low ones
    case 5: return maskw(w) ^ maskw((int)r.below(w + 1));                          // high ones
    case 6: { u128 x = maskw((int)r.below(w + 1)) ^ maskw((int)r.below(w + 1)); return x & maskw(w); }
    case 7: return (r.bits(w) & (u128)r.below(8)) & maskw(w);                      // tiny
    default: return r.bits(w);
    }
}
static bool is(const Ctx &c, const char *n) { return !strcmp(c.e->op, n); }
static u128 cut(u128 a, int hi, int lo) { return (a >> lo) & maskw(hi - lo + 1); }
static u128 shl(u128 a, int n) { return n >= 128 ? 0 : a << n; }

struct Chk {
    Ctx &c; const u128 *in; int nin; const u128 *out;
    void eq(int k, const char *what, u128 want)
    {
        if (out[k] == want) return;
        std::string s; for (int i = 0; i < nin && i < 8; i++) s += " " + hex(in[i]);
        c.violation(what, "got " + hex(out[k]) + ", expected " + hex(want) + " in:" + s);
    }
};

static void arith(Ctx &c)
{
    int W = c.e->p[0]; u128 M = maskw(W);
    Rng &r = c.rng;
    bool ex = W <= 5;
    uint64_t n = ex ? (uint64_t)1 << (2 * W) : c.cases(800);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 in[6], out[64] = { 0 };
        if (ex) { in[0] = i & M; in[1] = (i >> W) & M; } else { in[0] = gen(r, W); in[1] = r.one_in(6) ? (M - in[0] + r.below(3) - 1) & M : r.one_in(8) ? in[0] : r.one_in(8) ? (in[0] + r.below(3) - 1) & M : gen(r, W); }
        in[2] = r.below(W);
        in[3] = (r.one_in(3) ? in[0] + r.below(3) - 1 : gen(r, W < 31 ? W : 31)) & M & 0x7fffffff; in[4] = r.below(4);
        static const uint32_t edge[] = { 0, 1, 2, 0xffffffffu, 0xfffffffeu, 0x80000000u, 0x80000001u, 0x7fffffffu, 0x7ffffffeu };
        in[5] = r.one_in(3) ? edge[r.below(9)] : r.one_in(2) ? (uint32_t)(r.below(80) - 40) : (uint32_t)(gen(r, 32) ^ (r.one_in(2) ? ~0u : 0));
        if (r.one_in(6)) in[5] = (uint32_t)(in[0] + r.below(3) - 1);
        bool ok = c.call(in, 6, out);
        c.seen(in, 6, true);
        u128 a = in[0], b = in[1], t = in[3]; int d = (int)in[2]; u128 cin = in[4] & 1, c2 = (in[4] >> 1) & 1;
        if (a + b > M || a + b < a) c.bucket("carry_out");
        if (a < b) c.bucket("borrow");
        if (!ok) continue;
        Chk k = { c, in, 6, out };
        int j = 0;
        u128 m = (u128)(__int128)(int32_t)(uint32_t)in[5], p = in[5] & 0x7fffffff;
        if ((int32_t)(uint32_t)in[5] < 0) c.bucket("negative_int"); else if (in[5] > M) c.bucket("int_beyond_width");
        k.eq(j++, "add", (a + b) & M); k.eq(j++, "sub", (a - b) & M); k.eq(j++, "not", ~a & M); k.eq(j++, "and", a & b); k.eq(j++, "or", a | b); k.eq(j++, "xor", a ^ b);
        k.eq(j++, "shr", a >> d); k.eq(j++, "shl", shl(a, d) & M);
        k.eq(j++, "add_int", (a + t) & M); k.eq(j++, "sub_int", (a - t) & M); k.eq(j++, "and_int", a & t); k.eq(j++, "or_int", a | t); k.eq(j++, "xor_int", a ^ t);
        k.eq(j++, "lt", a < b); k.eq(j++, "le", a <= b); k.eq(j++, "eq", a == b); k.eq(j++, "ge", a >= b); k.eq(j++, "gt", a > b); k.eq(j++, "ne", a != b);
        k.eq(j++, "lt_int", a < t); k.eq(j++, "le_int", a <= t); k.eq(j++, "eq_int", a == t); k.eq(j++, "ge_int", a >= t); k.eq(j++, "gt_int", a > t); k.eq(j++, "ne_int", a != t);
        k.eq(j++, "add_with_cin", (a + b + cin) & M); k.eq(j++, "add_cin", (a + cin) & M); k.eq(j++, "add_sub", (cin ? a - b : a + b) & M);
        k.eq(j++, "assign", b); k.eq(j++, "zg", 0); k.eq(j++, "og", M); k.eq(j++, "cg", t); k.eq(j++, "ctor_int", t);
        
        k.eq(j++, "add_any_int", (a + m) & M); k.eq(j++, "sub_any_int", (a - m) & M); k.eq(j++, "and_wide_int", a & p); k.eq(j++, "xor_wide_int", (a ^ p) & M);
        k.eq(j++, "lt_wide_int", a < p); k.eq(j++, "le_wide_int", a <= p); k.eq(j++, "eq_wide_int", a == p); k.eq(j++, "ge_wide_int", a >= p); k.eq(j++, "gt_wide_int", a > p); k.eq(j++, "ne_wide_int", a != p);
        k.eq(j++, "or1", cin); k.eq(j++, "andand", cin & c2); k.eq(j++, "oror", cin | c2); k.eq(j++, "mask", M);
        k.eq(j++, "operand_a_changed", a); k.eq(j++, "operand_b_changed", b);
    }
    if (ex) c.bucket("exhaustive_configs");
}
static u128 prod(u128 a, u128 b)                       // low 128 bits via GMP
{
    mpz_t x, y; mpz_init(x); mpz_init(y);
    uint64_t l[2] = { (uint64_t)a, (uint64_t)(a >> 64) }; mpz_import(x, 2, -1, 8, 0, 0, l);
    uint64_t m[2] = { (uint64_t)b, (uint64_t)(b >> 64) }; mpz_import(y, 2, -1, 8, 0, 0, m);
    mpz_mul(x, x, y); uint64_t o[4] = { 0 }; size_t n = 0; mpz_export(o, &n, -1, 8, 0, 0, x);
    if (n > 2) { fprintf(stderr, "oracle: product too wide\n"); exit(2); }
    mpz_clear(x); mpz_clear(y); return (u128)o[1] << 64 | o[0];
}
static void conv(Ctx &c)
{
    int W = c.e->p[0]; Rng &r = c.rng;
    bool ex = W <= 7;
    uint64_t n = ex ? (uint64_t)1 << W : c.cases(150);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 in[1] = { ex ? (u128)i : gen(r, W) }, out[64] = { 0 };
        bool ok = c.call(in, 1, out); c.seen(in, 1, true);
        if (!ok) continue;
        Chk k = { c, in, 1, out }; u128 a = in[0];
        k.eq(0, "to_mpz", a); k.eq(1, "from_mpz", a); k.eq(2, "oversize_mpz_accepted", 1); k.eq(3, "binary_string_round_trip", a); k.eq(4, "decimal_string", a);
        k.eq(5, "to_int", a); k.eq(6, "to_uint64", a); k.eq(7, "to_uint32", a); k.eq(8, "from_uint64", a); k.eq(10, "stream", 1); k.eq(11, "malformed_string_accepted", 7);
        k.eq(13, "binary_string_plain", a); k.eq(14, "binary_string_underscores", a); k.eq(15, "decimal_string_leading_zeros", a);
        // double: exact when representable, else within one unit in the last place
        uint64_t db = (uint64_t)out[9]; double d; memcpy(&d, &db, 8);
        double lo = std::ldexp((double)(uint64_t)(a >> 64), 64), w;
        int sig = 0; for (int q = 127; q >= 0; q--) if (a >> q & 1) { sig = q + 1; break; }
        if (sig <= 53) { w = (double)(uint64_t)a; if (d != w) k.eq(9, "to_double_approx", 0); c.bucket("double_exact"); }
        else {
            int ex2; double m = std::frexp(d, &ex2); (void)m;
            u128 got = 0; if (d > 0 && d < std::ldexp(1.0, 128)) { uint64_t f = (uint64_t)std::ldexp(d, 53 - ex2); got = ex2 >= 53 ? (u128)f << (ex2 - 53) : f; } else if (d == std::ldexp(1.0, 128)) got = ~(u128)0;
            u128 diff = got > a ? got - a : a - got;
            if (d < 0 || d > std::ldexp(1.0, 128) || diff > ((u128)1 << (sig - 53 + 1))) k.eq(9, "to_double_approx", 0);
            c.bucket("double_rounded");
        }
        (void)lo;
        std::string s = "0b"; for (int q = W - 1; q >= 0; q--) { s += (a >> q & 1) ? '1' : '0'; if (q && q % 8 == 0) s += '_'; }
        if (s != std::string((const char *)(out + 16))) c.violation("to_string", "got " + std::string((const char *)(out + 16)) + " expected " + s);
    }
    if (ex) c.bucket("exhaustive_configs");
}
static void structural(Ctx &c)
{
    const int *p = c.e->p; Rng &r = c.rng;
    double base = is(c, "cat2") || is(c, "select") ? 400 : 250;
    uint64_t n = c.cases(base);
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 in[130] = { 0 }, out[64] = { 0 }; int nin = 1;
        Chk k = { c, in, 1, out };
        if (is(c, "bits")) {
            int HI = p[0], LO = p[1], W = p[2]; in[0] = gen(r, W);
            if (c.call(in, 1, out)) { k.eq(0, "get_bits", cut(in[0], HI, LO)); k.eq(1, "get_bit", cut(in[0], HI, HI)); k.eq(2, "get_bit", cut(in[0], LO, LO)); k.eq(3, "operand_changed", in[0]); }
            c.bucket("slice");
        } else if (is(c, "take")) {
            int B = p[0], W = p[1]; in[0] = gen(r, W);
            if (c.call(in, 1, out)) {
                u128 a = in[0];
                k.eq(0, "take_lsbs", a & maskw(B)); k.eq(1, "drop_lsbs", B >= 128 ? 0 : a >> B);
                k.eq(2, "take_msbs", W - B >= 128 ? 0 : a >> (W - B)); k.eq(3, "drop_msbs", a & maskw(W - B));
            }
            c.bucket(B == 0 || B == W ? "take_none_or_all" : "take");
        } else if (is(c, "ends")) {
            int W = p[0]; nin = 2; in[0] = gen(r, W); in[1] = r.below(2); u128 a = in[0];
            if (c.call(in, 2, out)) {
                k.eq(0, "take_lsb", a & 1); k.eq(1, "take_msb", a >> (W - 1) & 1); k.eq(2, "drop_lsb", a >> 1); k.eq(3, "drop_msb", a & maskw(W - 1));
                k.eq(4, "copybit", in[1] ? maskw(W) : 0); k.eq(5, "checked_cast", a); k.eq(6, "concat1", a);
            }
        } else if (is(c, "pad")) {
            int P = p[0], W = p[1]; in[0] = gen(r, W); u128 a = in[0];
            if (c.call(in, 1, out)) {
                k.eq(0, "zpad_hi", a); k.eq(1, "zpad_lo", shl(a, P)); k.eq(2, "opad_hi", shl(maskw(P), W) | a); k.eq(3, "opad_lo", shl(a, P) | maskw(P)); k.eq(4, "extu", a);
            }
            c.bucket(P ? "pad" : "pad_by_zero");
        } else if (is(c, "resize")) {
            in[0] = gen(r, p[1]);
            if (c.call(in, 1, out)) k.eq(0, "resize", in[0] & maskw(p[0]));
            c.bucket(p[0] < p[1] ? "truncate" : "extend");
        } else if (!strncmp(c.e->op, "cat", 3) && !is(c, "catarr")) {
            nin = c.e->np; u128 w = 0;
            for (int j = 0; j < nin; j++) { in[j] = gen(r, p[j]); w = shl(w, p[j]) | in[j]; }
            k.nin = nin;
            if (c.call(in, nin, out)) k.eq(0, "concat", w);
            c.bucket("concat");
        } else if (is(c, "catarr")) {
            int HI = p[0], LO = p[1], W = p[2]; u128 w = 0; nin = HI + 1;
            for (int j = 0; j <= HI; j++) in[j] = gen(r, W);
            for (int j = HI; j >= LO; j--) w = shl(w, W) | in[j];
            k.nin = nin;
            if (c.call(in, nin, out)) k.eq(0, "concat_array", w);
            c.bucket("concat_array");
        } else if (is(c, "select")) {
            nin = 8; for (int j = 0; j < 7; j++) in[j] = gen(r, p[0]);
            in[7] = i < 64 ? i : r.below(64); k.nin = 8;
            if (c.call(in, 8, out))
                for (int m = 1; m <= 6; m++) {
                    u128 w = in[6]; for (int j = 0; j < m; j++) if (in[7] >> j & 1) { w = in[j]; break; }
                    k.eq(m - 1, "select", w); if (m > 1) k.eq(m + 4, "select_mixed", w); k.eq(m + 10, "select_bool", w);
                }
            c.bucket("select");
        } else if (is(c, "lut")) {
            int WD = p[0], WA = p[1]; nin = 1 + (1 << WA);
            in[0] = i < (1u << WA) ? i : r.below(1u << WA); for (int j = 0; j < 1 << WA; j++) in[1 + j] = gen(r, WD > 31 ? 31 : WD);
            if (c.call(in, nin, out)) { u128 e = in[1 + (int)in[0]]; k.eq(0, "lut", e); k.eq(1, "lut_wide", (e * 0x9E3779B97F4A7C15ull) & maskw(WD)); k.eq(2, "lut_again", e); }
            c.bucket("lut");
        } else if (is(c, "const")) {
            in[0] = i;
            if (c.call(in, 1, out)) {
                for (int j = 0; j < 4; j++) { k.eq(j, "zero_constant", 0); k.eq(4 + j, "ones_constant", maskw(j + 1)); }
                k.eq(8, "ct_max_min", 0);
                k.eq(9, "log2ceil", 0); k.eq(11, "to_bool", in[0] & 1);
            }
            c.bucket("constants");
        } else if (is(c, "rand")) {
            // every bit of the result is one bit of the generator's words, each used at most once
            nin = 4; int W = p[0];
            for (int j = 0; j < 4; j++) in[j] = i == 0 ? 0 : i == 1 ? 0xffffffffu : r.next() & 0xffffffffu;
            if (c.call(in, 4, out)) {
                k.nin = 4; k.eq(1, "randomise_differs", out[0]);
                if (out[0] & ~maskw(W)) k.eq(0, "random_overwide", out[0] & maskw(W));
                if (i == 0) k.eq(0, "random_of_zeros", 0);
                if (i == 1) k.eq(0, "random_of_ones", maskw(W));
                if (out[2] * 32 < (u128)W) k.eq(2, "too_few_words_drawn", (W + 31) / 32);
                if (i > 1) {                                                   // additivity: bits of words map to bits of the result
                    u128 in2[4], o2[64] = { 0 }, o3[64] = { 0 }, in3[4];
                    int w = (int)(i / 32 % ((W + 31) / 32)), b = (int)(i % 32);
                    for (int j = 0; j < 4; j++) in2[j] = in[j];
                    in2[w] ^= (u128)1 << b;
                    if (c.call(in2, 4, o2)) {
                        u128 x = o2[0] ^ out[0];
                        if (x & (x - 1)) c.violation("random_bit_reused", "flipping one generator bit changed " + hex(x));
                    }
                    // the whole range is reachable: each output bit must respond to some input bit (checked over the run)
                    (void)o3; (void)in3;
                }
                c.bucket("random");
            }
        }
        c.seen(in, nin, true);
    }
    if (is(c, "rand")) {                                                          // surjectivity: count output bits that respond to a single generator bit
        int W = c.e->p[0]; u128 z[4] = { 0 }, o[64] = { 0 }, cover = 0;
        if (c.call(z, 4, o))
            for (int w = 0; w < 4; w++) for (int b = 0; b < 32; b++) {
                u128 q[4] = { 0 }, o2[64] = { 0 }; q[w] = (u128)1 << b;
                if (c.call(q, 4, o2)) cover |= o2[0] ^ o[0];
            }
        if (cover != maskw(W)) c.violation("random_bit_constant", "result bits that no generator bit controls: " + hex(cover ^ maskw(W)));
    }
}
void check_entry(Ctx &c)
{
    if (is(c, "arith")) arith(c);
    else if (is(c, "conv")) conv(c);
    else if (is(c, "mul") || is(c, "square")) {
        bool sq = is(c, "square"); int A = c.e->p[0], B = sq ? A : c.e->p[1];
        bool ex = !sq && A + B <= 10;
        uint64_t n = ex ? (uint64_t)1 << (A + B) : c.cases(400);
        for (uint64_t i = 0; i < n && !c.stop(); i++) {
            u128 in[2] = { ex ? i & maskw(A) : gen(c.rng, A), ex ? (i >> A) & maskw(B) : gen(c.rng, B) }, out[64] = { 0 };
            if (sq) in[1] = in[0];
            bool ok = c.call(in, 2, out); c.seen(in, 2, in[0] > 1 && in[1] > 1);
            if (!ok) continue;
            Chk k = { c, in, 2, out }; u128 w = prod(in[0], in[1]);
            if (w >> 64) c.bucket("product_over_64_bits");
            k.eq(0, "product", w); if (!sq) { k.eq(1, "full_mul", w); k.eq(2, "operand_changed", in[0]); k.eq(3, "operand_changed", in[1]); }
        }
        if (ex) c.bucket("exhaustive_configs");
    } else structural(c);
    c.sample("checked");
}
