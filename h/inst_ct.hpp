// Programs on compile-time vectors and generators: every intermediate result is dumped at run time, element by
// element, and compared with the values the same program gives on ordinary arrays.
#include "vt.hpp"
#include <assert.h>
#include "thls/tops/ct/ct_vec_create.hpp"
#include "thls/tops/ct/ct_vec_unique.hpp"
#include "thls/tops/ct/ct_vec_permute.hpp"
#include "thls/tops/ct/ct_vec_algorithms.hpp"
#include "thls/tops/ct/ct_rng_lcg_mod_2y32.hpp"
#include "thls/tops/ct/ct_rng_lcg_mod_p.hpp"
using namespace thls::ct;
typedef long long LL;
template<int V> using I = std::integral_constant<int, V>;
template<int V> struct Opaque { static const int value = V; };      // an element type that is not an integral_constant
// out[0] values observed, [1] mismatches, then (step, index, got, want) of the first two; [12] steps
struct Mon {
    u128 *out;
    Mon(u128 *o) : out(o) { for (int i = 0; i < 16; i++) o[i] = 0; }
    void eq(int step, LL idx, LL got, LL want)
    {
        out[0]++;
        if (got == want) return;
        if (out[1] < 2) { u128 *b = out + 2 + 4 * (int)out[1]; b[0] = step; b[1] = (u128)idx; b[2] = (u128)got; b[3] = (u128)want; }
        out[1]++;
    }
};
struct Acc { LL h, p; int n, first; };
struct Fold {                                                       // order-sensitive, associative
    template<int off, class C> struct map_type { typedef Acc type; };
    template<class L, class R> struct reduce_type { typedef Acc type; };
    template<int off, class C> Acc map() const { Acc a = { (LL)(uint32_t)C::value * 31 % 1000003 + off, 7919, 1, off }; return a; }
    Acc reduce(const Acc &a, const Acc &b) const
    {
        Acc r = { (a.h * b.p + b.h) % 1000003, a.p * b.p % 1000003, a.n + b.n, a.first };
        if (b.first != a.first + a.n) r.n = -1000;                  // offsets must be contiguous and in order
        return r;
    }
};
struct Walk {
    Mon *m; int step, *k, n; const LL *e;
    template<class C> void operator()(int off, const C *) const { m->eq(step, 10000 + *k, off, *k); m->eq(step, *k, C::value, *k < n ? e[*k] : -1); ++*k; }
};
template<int i, int n, class V> struct Reads {
    static void go(Mon &m, int s, const LL *e) { m.eq(s, 20000 + i, ct_vec_read<i, V>::type::value, e[i]); Reads<i + 1, n, V>::go(m, s, e); }
};
template<int n, class V> struct Reads<n, n, V> { static void go(Mon &, int, const LL *) {} };
template<class V, int n> inline void vec(Mon &m, int step, const LL (&e)[n])
{
    m.out[12]++;
    m.eq(step, -1, V::N, n);
    int k = 0;
    Walk w = { &m, step, &k, n, e };
    ct_vec_for_each<V>(w);
    m.eq(step, -2, k, n);
    if (V::N == n) Reads<0, V::N == n ? n : 0, V>::go(m, step, e);
    Acc a = ct_vec_map_reduce<V>(Fold());
    LL h = 0; for (int i = 0; i < n; i++) h = (h * 7919 + ((LL)(uint32_t)e[i] * 31 % 1000003 + i)) % 1000003;
    m.eq(step, -3, a.h % 1000003, h); m.eq(step, -4, a.n, n); m.eq(step, -5, a.first, 0);
}
#define VEC(T, STEP, ...) { static const LL e_[] = { __VA_ARGS__ }; vec<T>(m, STEP, e_); }
#define RNG(T, STEP, WANT) { m.out[12]++; m.eq(STEP, 0, (LL)T::value, WANT); }
