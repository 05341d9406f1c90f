// Fixed-width integers: every operation's raw storage word is exported, bits above the width included.
#include "vt.hpp"
#include "thls/tops/fw_uint.hpp"
#include <stdlib.h>
#include <sstream>
template<int W> inline thls::fw_uint<W> vmk(u128 b) { return thls::fw_uint<W>::from_bits((typename thls::fw_uint<W>::bits_t)b); }
#ifdef VT_THR
#include "vtpool.hpp"
template<int W> inline const thls::fw_uint<W> &vi(u128 b) { return VtPool<thls::fw_uint<W> >::get(b, vmk<W>); }
#else
template<int W> inline thls::fw_uint<W> vi(u128 b) { return vmk<W>(b); }
#endif
template<int W> inline u128 vo(const thls::fw_uint<W> &x) { return (u128)x.bits; }
#define NOW(k) out[63] = k

template<int W> struct FwArith {
    typedef thls::fw_uint<W> T;
    static void go(const u128 *in, u128 *out)
    {
        const T &a = vi<W>(in[0]), &b = vi<W>(in[1]);
        int d = (int)in[2], n = (int)in[3];          // shift distance < W, non-negative int that fits the width
        thls::fw_uint<1> c = vi<1>(in[4] & 1);
        int k = 0;
#define O(...) NOW(k); out[k] = vo(__VA_ARGS__); k++
        O(a + b); O(a - b); O(~a); O(a & b); O(a | b); O(a ^ b); O(a >> d); O(a << d);
        O(a + n); O(a - n); O(a & n); O(a | n); O(a ^ n);
        O(a < b); O(a <= b); O(a == b); O(a >= b); O(a > b); O(a != b);
        O(a < n); O(a <= n); O(a == n); O(a >= n); O(a > n); O(a != n);
        O(thls::add_with_cin(a, b, c)); O(thls::add_cin(a, c)); O(thls::add_sub(c, a, b));
        { T x(a); NOW(k); x = b; out[k++] = vo(x); }
        O(thls::zg<W>()); O(thls::og<W>()); O(thls::cg<W>(n)); O(T(n));
        { int m = (int)(uint32_t)in[5], p = m & 0x7fffffff;       // any native integer; non-negative where the code asks for it
          O(a + m); O(a - m); O(a & p); O(a ^ p); O(a < p); O(a <= p); O(a == p); O(a >= p); O(a > p); O(a != p); }
        O(thls::zg<1>() | c || c); O(c && vi<1>((in[4] >> 1) & 1)); O(c || vi<1>((in[4] >> 1) & 1));
        NOW(k); out[k++] = (u128)T::MASK();
        // operands must be untouched
        out[k++] = vo(a); out[k++] = vo(b);
#undef O
    }
};
template<int A, int B> struct FwMul {
    static void go(const u128 *in, u128 *out)
    {
        const thls::fw_uint<A> &a = vi<A>(in[0]); const thls::fw_uint<B> &b = vi<B>(in[1]);
        NOW(0); out[0] = vo<A + B>(a * b); NOW(1); out[1] = vo<A + B>(thls::full_mul(a, b)); out[2] = vo(a); out[3] = vo(b);
    }
};
template<int W> struct FwSquare { static void go(const u128 *in, u128 *out) { out[0] = vo<2 * W>(thls::square(vi<W>(in[0]))); } };
inline void put_bytes(u128 *out, const char *s)
{
    size_t n = 0; unsigned char *p = (unsigned char *)out;
    for (; s[n] && n < 300; n++) p[n] = (unsigned char)s[n];
    p[n] = 0;
}
#ifndef VT_SYN       // text, MPZ, doubles and random words exist outside synthesis only
template<int W> struct FwConv {
    typedef thls::fw_uint<W> T;
    static void go(const u128 *in, u128 *out)
    {
        T a = vi<W>(in[0]);
        // mpz both ways
        mpz_t z; mpz_init_set_si(z, -987654321); mpz_mul_2exp(z, z, 70);      // the destination's old value must not matter
        NOW(0); a.to_mpz_t(z);
        u128 m = 0; { mpz_t t; mpz_init_set(t, z); for (int i = 0; i < 128; i++) if (mpz_tstbit(t, i)) m |= (u128)1 << i; if (mpz_sizeinbase(t, 2) > 128 || mpz_sgn(t) < 0) m = ~m; mpz_clear(t); }
        out[0] = m;
        NOW(1); { mpz_t y; mpz_init_set(y, z); out[1] = vo(T(z)); if (mpz_cmp(y, z)) out[1] = ~out[1]; mpz_clear(y); }
        // one too wide must throw
        mpz_set_ui(z, 1); mpz_mul_2exp(z, z, W);
        NOW(2); out[2] = 0; try { T q(z); (void)q; } catch (std::exception &) { out[2] = 1; }
        mpz_clear(z);
        // strings: binary text out and back, decimal text in
        NOW(3); std::string s = a.to_string(); out[3] = vo(T(s.c_str()));
        char dec[64]; int i = 63; dec[i] = 0; u128 v = in[0]; do { dec[--i] = (char)('0' + (int)(v % 10)); v /= 10; } while (v);
        NOW(4); out[4] = vo(T(dec + i));
        NOW(5); out[5] = 0; if (in[0] <= 0x7fffffff) out[5] = (u128)(unsigned)a.to_int(); else out[5] = in[0];
        NOW(6); out[6] = in[0] >> 64 ? in[0] : (u128)a.to_uint64();
        NOW(7); out[7] = W <= 32 ? (u128)a.to_uint32() : in[0];
        NOW(8); out[8] = in[0] >> 64 ? in[0] : vo(T::from_uint64((uint64_t)in[0]));
        NOW(9); double d = thls::to_double_approx(a); uint64_t db; __builtin_memcpy(&db, &d, 8); out[9] = db;
        NOW(10); std::stringstream ss; ss << a; out[10] = ss.str() == s;
        // malformed text must throw
        NOW(11); out[11] = 0;
        try { T q("0b2"); (void)q; } catch (std::exception &) { out[11] |= 1; }
        try { T q((s + "0").c_str()); (void)q; } catch (std::exception &) { out[11] |= 2; }
        try { T q("0b"); (void)q; } catch (std::exception &) { out[11] |= 4; }
        // underscores may stand anywhere between digits, or nowhere
        { std::string u, v = "0b"; for (size_t q = 2; q < s.size(); q++) if (s[q] != '_') u += s[q]; for (size_t q = 0; q < u.size(); q++) { if (q && (in[0] >> (q % 7) & 1)) v += q % 5 ? "_" : "__"; v += u[q]; }
          NOW(13); out[13] = vo(T(("0b" + u).c_str())); NOW(14); out[14] = vo(T(v.c_str())); NOW(15); out[15] = vo(T((std::string("00") + (dec + i)).c_str())); }
        NOW(12); put_bytes(out + 16, s.c_str());
    }
};

#endif
// ------------------------------------------------------------------ structural
template<int HI, int LO, int W> struct FwBits {
    static void go(const u128 *in, u128 *out)
    {
        thls::fw_uint<W> a = vi<W>(in[0]);
        NOW(0); out[0] = vo<HI - LO + 1>(thls::get_bits<HI, LO>(a));
        NOW(1); out[1] = vo<1>(thls::get_bit<HI>(a)); NOW(2); out[2] = vo<1>(thls::get_bit<LO>(a)); out[3] = vo(a);
    }
};
template<int B, int W> struct FwTake {       // 0<=B<=W
    static void go(const u128 *in, u128 *out)
    {
        thls::fw_uint<W> a = vi<W>(in[0]);
        NOW(0); out[0] = vo<B>(thls::take_lsbs<B>(a)); NOW(1); out[1] = vo<W - B>(thls::drop_lsbs<B>(a));
        NOW(2); out[2] = vo<B>(thls::take_msbs<B>(a)); NOW(3); out[3] = vo<W - B>(thls::drop_msbs<B>(a));
    }
};
template<int W> struct FwEnds {              // W>=2
    static void go(const u128 *in, u128 *out)
    {
        thls::fw_uint<W> a = vi<W>(in[0]);
        NOW(0); out[0] = vo<1>(thls::take_lsb(a)); NOW(1); out[1] = vo<1>(thls::take_msb(a));
        NOW(2); out[2] = vo<W - 1>(thls::drop_lsb(a)); NOW(3); out[3] = vo<W - 1>(thls::drop_msb(a));
        NOW(4); out[4] = vo<W>(thls::copybit<W>(vi<1>(in[1] & 1))); NOW(5); out[5] = vo<W>(thls::checked_cast<W>(a));
        NOW(6); out[6] = vo<W>(thls::concat(a));
    }
};
template<int P, int W> struct FwPad {        // P>=0, P+W<=128
    static void go(const u128 *in, u128 *out)
    {
        thls::fw_uint<W> a = vi<W>(in[0]);
        NOW(0); out[0] = vo<P + W>(thls::zpad_hi<P>(a)); NOW(1); out[1] = vo<P + W>(thls::zpad_lo<P>(a));
        NOW(2); out[2] = vo<P + W>(thls::opad_hi<P>(a)); NOW(3); out[3] = vo<P + W>(thls::opad_lo<P>(a));
        NOW(4); out[4] = vo<P + W>(thls::extu<P + W>(a));
    }
};
template<int B, int W> struct FwResize { static void go(const u128 *in, u128 *out) { NOW(0); out[0] = vo<B>(thls::resize<B>(vi<W>(in[0]))); } };
template<int A, int B> struct FwCat2 { static void go(const u128 *in, u128 *out) { NOW(0); out[0] = vo<A + B>(thls::concat(vi<A>(in[0]), vi<B>(in[1]))); } };
template<int A, int B, int C> struct FwCat3 { static void go(const u128 *in, u128 *out) { NOW(0); out[0] = vo<A + B + C>(thls::concat(vi<A>(in[0]), vi<B>(in[1]), vi<C>(in[2]))); } };
template<int A, int B, int C, int D> struct FwCat4 { static void go(const u128 *in, u128 *out) { NOW(0); out[0] = vo<A + B + C + D>(thls::concat(vi<A>(in[0]), vi<B>(in[1]), vi<C>(in[2]), vi<D>(in[3]))); } };
template<int HI, int LO, int W> struct FwCatArr {
    static void go(const u128 *in, u128 *out)
    {
        thls::fw_uint<W> x[HI + 1]; for (int i = 0; i <= HI; i++) x[i] = vi<W>(in[i]);
        NOW(0); out[0] = vo<(HI - LO + 1) * W>(thls::concat_array<HI, LO>(x));
    }
};
template<int W> struct FwSelect {            // in[0..6] values, in[7] condition bits
    typedef thls::fw_uint<W> T; typedef thls::fw_uint<1> C;
    static void go(const u128 *in, u128 *out)
    {
        T v[7]; for (int i = 0; i < 7; i++) v[i] = vi<W>(in[i]);
        C c[6]; bool b[6]; for (int i = 0; i < 6; i++) { b[i] = (in[7] >> i) & 1; c[i] = vi<1>(b[i]); }
        int k = 0;
#define O(...) NOW(k); out[k] = vo<W>(__VA_ARGS__); k++
        O(thls::select(c[0], v[0], v[6]));
        O(thls::select(c[0], v[0], c[1], v[1], v[6]));
        O(thls::select(c[0], v[0], c[1], v[1], c[2], v[2], v[6]));
        O(thls::select(c[0], v[0], c[1], v[1], c[2], v[2], c[3], v[3], v[6]));
        O(thls::select(c[0], v[0], c[1], v[1], c[2], v[2], c[3], v[3], c[4], v[4], v[6]));
        O(thls::select(c[0], v[0], c[1], v[1], c[2], v[2], c[3], v[3], c[4], v[4], c[5], v[5], v[6]));
        O(thls::select(c[0], v[0], b[1], v[1], v[6]));
        O(thls::select(b[0], v[0], c[1], v[1], c[2], v[2], v[6]));
        O(thls::select(c[0], v[0], b[1], v[1], c[2], v[2], b[3], v[3], v[6]));
        O(thls::select(b[0], v[0], b[1], v[1], c[2], v[2], b[3], v[3], c[4], v[4], v[6]));
        O(thls::select(c[0], v[0], b[1], v[1], b[2], v[2], c[3], v[3], b[4], v[4], c[5], v[5], v[6]));
        O(thls::select(b[0], v[0], v[6]));
        O(thls::select(b[0], v[0], b[1], v[1], v[6]));
        O(thls::select(b[0], v[0], b[1], v[1], b[2], v[2], v[6]));
        O(thls::select(b[0], v[0], b[1], v[1], b[2], v[2], b[3], v[3], v[6]));
        O(thls::select(b[0], v[0], b[1], v[1], b[2], v[2], b[3], v[3], b[4], v[4], v[6]));
        O(thls::select(b[0], v[0], b[1], v[1], b[2], v[2], b[3], v[3], b[4], v[4], b[5], v[5], v[6]));
#undef O
    }
};
template<int WD, int WA> struct FwLut {      // table entry i = in[1+i]
    struct InitW { const u128 *t; thls::fw_uint<WD> operator()(int i) const { return thls::fw_uint<WD>::from_bits((typename thls::fw_uint<WD>::bits_t)((t[i] * 0x9E3779B97F4A7C15ull) & (WD >= 128 ? ~(u128)0 : ((u128)1 << (WD & 127)) - 1))); } };
    struct InitI { const u128 *t; int operator()(int i) const { return (int)t[i]; } };
    static void go(const u128 *in, u128 *out)
    {
        InitI in0 = { in + 1 };
        NOW(0); thls::lut<WD, WA> l(in0); out[0] = vo<WD>(l(vi<WA>(in[0])));
        InitW in1 = { in + 1 }; const thls::lut<WD, WA> w(in1);          // entries of full width
        NOW(1); out[1] = vo<WD>(w(vi<WA>(in[0]))); out[2] = vo<WD>(l(vi<WA>(in[0])));
    }
};
struct FwConst {
    template<int A, int B> static void mm(u128 *out) { if (thls_ctMax(A, B) != (A > B ? A : B) || thls_ctMin(A, B) != (A < B ? A : B)) out[8]++; }
    template<uint64_t X, int W> static void lg(u128 *out) { constexpr int v = thls_ctLog2Ceil<uint64_t>(X); if (v != W) out[9]++; }
    static void go(const u128 *in, u128 *out)
    {
        NOW(0);
        out[0] = vo(thls::zg1); out[1] = vo(thls::zg2); out[2] = vo(thls::zg3); out[3] = vo(thls::zg4);
        out[4] = vo(thls::og1); out[5] = vo(thls::og2); out[6] = vo(thls::og3); out[7] = vo(thls::og4);
        out[8] = 0; mm<0, 0>(out); mm<0, 1>(out); mm<1, 0>(out); mm<-1, 1>(out); mm<5, -7>(out); mm<-7, -5>(out); mm<128, 127>(out); mm<2147483647, -2147483647>(out);
        out[9] = 0;
        lg<0, 0>(out); lg<1, 1>(out); lg<2, 2>(out); lg<3, 2>(out); lg<4, 3>(out); lg<7, 3>(out); lg<8, 4>(out); lg<255, 8>(out); lg<256, 9>(out); lg<257, 9>(out);
        lg<0x3fffffff, 30>(out); lg<0x7fffffffffull, 39>(out); lg<0x8000000000ull, 40>(out); lg<0x7fffffffffffffffull, 63>(out); lg<0x4000000000000000ull, 63>(out);
        out[11] = vi<1>(in[0] & 1).to_bool();
    }
};
#define FW0(OP, S) static VtReg VT_UNIQ(r_)(#OP, S::go, 1, 0);
#ifndef VT_SYN
template<int W> struct FwRand {              // in[0..3]: generator words, cycled
    struct G { const u128 *in; unsigned n; uint32_t operator()() { return (uint32_t)in[n++ & 3]; } };
    static void go(const u128 *in, u128 *out)
    {
        G g = { in, 0 }; NOW(0); out[0] = vo<W>(thls::random_fw_uint<W>(g));
        G h = { in, 0 }; thls::fw_uint<W> x; NOW(1); thls::randomise(x, h); out[1] = vo<W>(x); out[2] = g.n;
    }
};
#endif
#define FW1(OP, S, A) static VtReg VT_UNIQ(r_)(#OP, S<A>::go, 1, A);
#define FW2(OP, S, A, B) static VtReg VT_UNIQ(r_)(#OP, S<A, B>::go, 2, A, B);
#define FW3(OP, S, A, B, C) static VtReg VT_UNIQ(r_)(#OP, S<A, B, C>::go, 3, A, B, C);
#define FW4(OP, S, A, B, C, D) static VtReg VT_UNIQ(r_)(#OP, S<A, B, C, D>::go, 4, A, B, C, D);
