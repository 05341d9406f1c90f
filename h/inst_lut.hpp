#include "vt.hpp"
#include <assert.h>
#include "thls/tops/lut_opt.hpp"
// out: [0] next state, [1] the operand after the call, [2] constants agree
#define INST_LUT(N, T, S) \
    static void VT_CAT(f_, __LINE__)(const u128 *in, u128 *out) { \
        typedef thls::lut_opt_spec<N, T, S> L; \
        typename L::state_t s = L::state_t::from_bits((typename L::state_t::bits_t)in[0]); \
        auto n = L::step(s); out[0] = (u128)n.bits; out[1] = (u128)s.bits; \
        out[2] = n.width == N && L::n == N && L::t == T && L::r == N; } \
    static VtReg VT_CAT(r_, __LINE__)("lut_opt", VT_CAT(f_, __LINE__), 3, N, T, (int)(S));
