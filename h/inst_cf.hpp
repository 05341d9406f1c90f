// Compile-time arithmetic helpers: each value is computed by the compiler and compared at run time with the model's.
#include "vt.hpp"
#include <algorithm>
#include <assert.h>
#include <stdlib.h>
#include "thls/core.hpp"
#include "thls/tops/function_utils.hpp"
typedef long long LL;
struct Mon {                                                          // layout as in inst_ct.hpp
    u128 *out;
    Mon(u128 *o) : out(o) { for (int i = 0; i < 16; i++) o[i] = 0; }
    void eq(int step, LL idx, LL got, LL want)
    {
        out[0]++;
        if (got == want) return;
        if (out[1] < 2) { u128 *b = out + 2 + 4 * (int)out[1]; b[0] = step; b[1] = (u128)idx; b[2] = (u128)got; b[3] = (u128)want; }
        out[1]++;
    }
};
#define MM2(S, A, B, MX, MN) { out[12]++; LL x = thls::ctMax<A, B>::val, n = thls::ctMin<A, B>::val; m.eq(S, 0, x, MX); m.eq(S, 1, n, MN); }
#define MM4(S, A, B, C, D, MX, MN) { out[12]++; LL x = thls::ctMax4<A, B, C, D>::val, n = thls::ctMin4<A, B, C, D>::val; m.eq(S, 0, x, MX); m.eq(S, 1, n, MN); }
#define SHL(S, V, P, W) { out[12]++; LL x = thls::ctCheckedShiftLeft<V, P>::val; m.eq(S, 0, x, W); }
#define SHR(S, V, P, W) { out[12]++; m.eq(S, 0, shift_right_const<P>((int64_t)V), W); }
// WANT: -1, 0 or 1, the order of VA*2^EA and VB*2^EB
#define FIX(S, EA, VA, EB, VB, WANT) { out[12]++; int c = thls::ctFixCompare<EA, VA, EB, VB>::val; m.eq(S, 0, c, WANT); \
    bool lt = thls::ctFixLessThan<EA, VA, EB, VB>::val, le = thls::ctFixLessThanEquals<EA, VA, EB, VB>::val, eq = thls::ctFixEquals<EA, VA, EB, VB>::val, \
         ge = thls::ctFixGreaterThanEquals<EA, VA, EB, VB>::val, gt = thls::ctFixGreaterThan<EA, VA, EB, VB>::val; \
    m.eq(S, 1, lt, (WANT) < 0); m.eq(S, 2, le, (WANT) <= 0); m.eq(S, 3, eq, (WANT) == 0); m.eq(S, 4, ge, (WANT) >= 0); m.eq(S, 5, gt, (WANT) > 0); }
struct Catch {                                                        // receives the unpacked arguments
    LL *h;
    template<class... A> int operator()(A... a) const { LL v[] = { 0, (LL)a... }; unsigned long long r = 0; for (unsigned i = 1; i < sizeof v / sizeof *v; i++) r = r * 1009 + (unsigned long long)v[i]; *h = (LL)r; return (int)(sizeof...(a)); }
};
#define CALLN(S, N, ...) { out[12]++; std::array<int, N> a = {{ __VA_ARGS__ }}; LL h = -1; unsigned long long w = 0; Catch c = { &h }; for (int i = 0; i < N; i++) w = w * 1009 + (unsigned long long)a[i]; \
    m.eq(S, 0, thls::callN(c, a), N); m.eq(S, 1, h, (LL)w); }
