// Heap programs.  An independent reader sums every intermediate heap through its public fields; each step is
// checked for conservation given what went into it.
#include "vt.hpp"
#include <assert.h>
#include <iostream>
#include <sstream>
#ifdef WANT_ROW
#include "thls/tops/row_heap.hpp"
#endif
#ifdef WANT_BIT
#include "thls/tops/bit_heap_mul.hpp"
static struct Quiet { Quiet() { std::cerr.setstate(std::ios::failbit); } } quiet_;       // bit_heap_mul prints every partial heap
#endif
inline u128 mk_(int n) { return n <= 0 ? 0 : n >= 128 ? ~(u128)0 : (((u128)1) << n) - 1; }
template<int W> inline thls::fw_uint<W> vi(u128 b) { return thls::fw_uint<W>::from_bits((typename thls::fw_uint<W>::bits_t)(b & mk_(W))); }
inline u128 z2u(mpz_t z) { u128 m = 0; for (int i = 0; i < 128; i++) if (mpz_tstbit(z, i)) m |= (u128)1 << i; if (mpz_sgn(z) < 0 || mpz_sizeinbase(z, 2) > 128) m = ~m; return m; }
// out[0] checks done, out[1] failures, then (step, got, want) of the first two failures; out[8] dropped carries, out[9] last step begun
struct Mon {
    u128 *out; int k;
    Mon(u128 *o) : out(o), k(0) { for (int i = 0; i < 12; i++) out[i] = 0; }
    void eq(int step, u128 got, u128 want)
    {
        out[0]++;
        if (got == want) return;
        if (out[1] < 2) { int b = 2 + 3 * (int)out[1]; out[b] = step; out[b + 1] = got; out[b + 2] = want; }
        out[1]++;
    }
};
#ifdef WANT_BIT
template<int H> inline u128 pop(const thls::fw_uint<H> &b) { u128 n = 0, v = (u128)b.bits; for (int i = 0; i < 128; i++) n += v >> i & 1; return n; }
template<int H> inline u128 raw(const thls::bit_heap_root<H> &h) { return pop<H>(h.bits); }
template<int H, class T> inline u128 raw(const thls::bit_heap_link<H, T> &h) { return (pop<H>(h.bits) << (T::width > 127 ? 127 : T::width)) * (T::width > 127 ? 0 : 1) + raw(h.lsbs); }
template<int H> inline int tall(const thls::bit_heap_root<H> &) { return H; }
template<int H, class T> inline int tall(const thls::bit_heap_link<H, T> &h) { int l = tall(h.lsbs); return H > l ? H : l; }
template<int H> inline int wide(const thls::bit_heap_root<H> &) { return 1; }
template<int H, class T> inline int wide(const thls::bit_heap_link<H, T> &h) { return 1 + wide(h.lsbs); }
// over-wide column storage would be a stray bit
template<int H> inline int stray(const thls::bit_heap_root<H> &h) { return ((u128)h.bits.bits & ~mk_(H)) != 0; }
template<int H, class T> inline int stray(const thls::bit_heap_link<H, T> &h) { return (((u128)h.bits.bits & ~mk_(H)) != 0) + stray(h.lsbs); }
#define SHAPE(N, S) m.eq(S, wide(N), decltype(N)::width); m.eq(S, tall(N), decltype(N)::max_height); m.eq(S, stray(N), 0);
#define LEAF(N, W, K, S) out[9] = S; auto N = thls::fw_uint_to_bit_heap(vi<W>(in[K])); SHAPE(N, S) m.eq(S, wide(N), W); m.eq(S, raw(N), in[K] & mk_(W));
#define MERGE(N, A, B, S) out[9] = S; auto N = thls::merge_bit_heaps(A, B); SHAPE(N, S) m.eq(S, wide(N), wide(A) > wide(B) ? wide(A) : wide(B)); m.eq(S, raw(N), raw(A) + raw(B));
#define PAD(N, A, W, S) out[9] = S; auto N = thls::pad_bit_heap<W>(A); SHAPE(N, S) m.eq(S, wide(N), W); m.eq(S, raw(N), raw(A));
#define COMPRESS(N, A, S) out[9] = S; auto N = thls::compress(A); SHAPE(N, S) m.eq(S, wide(N), wide(A)); m.eq(S, tall(N) <= 2, 1); \
    m.eq(S, raw(N) & mk_(wide(N)), raw(A) & mk_(wide(A))); if (raw(N) != raw(A)) out[8]++;
#define COLLAPSE(A, S) out[9] = S; { auto r = thls::bit_heap_collapse(A); m.eq(S, r.width, wide(A)); m.eq(S, (u128)r.bits, raw(A) & mk_(wide(A))); if (raw(A) & ~mk_(wide(A))) out[8]++; }
#define READZ(A, S) out[9] = S; { mpz_t z; mpz_init(z); thls::bit_heap_to_mpz(z, A); m.eq(S, z2u(z), raw(A) & mk_(wide(A))); mpz_clear(z); }
#define MUL(N, SPLIT, WA, WB, S) out[9] = S; auto N = thls::bit_heap_mul<SPLIT>(vi<WA>(in[0]), vi<WB>(in[1])); SHAPE(N, S) m.eq(S, wide(N), WA + WB); \
    m.eq(S, raw(N) & mk_(WA + WB), (in[0] & mk_(WA)) * (in[1] & mk_(WB)));
#define PRINT(A, S) out[9] = S; { std::stringstream s; s << A; std::string t = s.str(), b; u128 v = raw(A) & mk_(wide(A)); do { b = char('0' + (int)(v & 1)) + b; v >>= 1; } while (v); \
    m.eq(S, t.find("bits=0b" + b + ",") != std::string::npos, 1); }
#endif
#ifdef WANT_ROW
template<int W, int D> inline u128 raw(const thls::row_heap_holder<W, D> &h) { u128 s = 0; for (int i = 0; i < D; i++) s += (u128)h.rows[i].bits; return s; }
template<int W, int D> inline int stray(const thls::row_heap_holder<W, D> &h) { int s = 0; for (int i = 0; i < D; i++) s += ((u128)h.rows[i].bits & ~mk_(W)) != 0; return s; }
#define RSHAPE(N, W, D, S) m.eq(S, N.width, W); m.eq(S, N.depth, D); m.eq(S, stray(N), 0);
#define RLEAF(N, W, K, S) out[9] = S; auto N = thls::fw_uint_to_row_heap(vi<W>(in[K])); RSHAPE(N, W, 1, S) m.eq(S, raw(N), in[K] & mk_(W));
#define RADD(N, A, B, W, D, S) out[9] = S; auto N = A + B; RSHAPE(N, W, D, S) m.eq(S, raw(N), raw(A) + raw(B));
#define RADDU(N, A, WU, K, W, D, S) out[9] = S; auto N = A + vi<WU>(in[K]); RSHAPE(N, W, D, S) m.eq(S, raw(N), raw(A) + (in[K] & mk_(WU)));
#define RCOMPRESS(N, A, W, S) out[9] = S; auto N = thls::compress(A); RSHAPE(N, W, 2, S) m.eq(S, raw(N) & mk_(W), raw(A) & mk_(W)); if (raw(N) != raw(A)) out[8]++;
#define RCOLLAPSE(A, W, S) out[9] = S; { auto r = thls::collapse(A); m.eq(S, r.width, W); m.eq(S, (u128)r.bits, raw(A) & mk_(W)); }
#define RREADZ(A, W, S) out[9] = S; { mpz_t z; mpz_init(z); thls::row_heap_to_mpz(z, A); m.eq(S, z2u(z), raw(A) & mk_(W)); mpz_clear(z); }
#endif
