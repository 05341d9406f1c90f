// The bundled softfloat, called directly.
#include "vt.hpp"
#include <assert.h>
#include <string.h>
#include "thls/tops/softfloat/src/softfloat.h"
#include "thls/tops/softfloat/softfloat_inline.hpp"
#define S_IN(V, T, U, B) V T; { U u_ = (U)(B); memcpy(&T, &u_, sizeof T); }
#define SOFT_OP(N, V, U, P) struct Op_##N { static void go(const u128 *in, u128 *out) { S_IN(V, a, U, in[0]) S_IN(V, b, U, in[1]) V r = N(a, b); U u; memcpy(&u, &r, sizeof u); out[0] = u; \
    memcpy(&u, &a, sizeof u); out[1] = u; memcpy(&u, &b, sizeof u); out[2] = u; } }; static VtReg VT_UNIQ(r_)(#N, Op_##N::go, 2, P);
#define SOFT_CMP(N, V, U, P) struct Op_##N { static void go(const u128 *in, u128 *out) { S_IN(V, a, U, in[0]) S_IN(V, b, U, in[1]) out[0] = N(a, b); U u; \
    memcpy(&u, &a, sizeof u); out[1] = u; memcpy(&u, &b, sizeof u); out[2] = u; } }; static VtReg VT_UNIQ(r_)(#N, Op_##N::go, 2, P);
#define SOFT_ALL \
    SOFT_OP(f32_add, float32_t, uint32_t, 8 COMMA 23) SOFT_OP(f32_mul, float32_t, uint32_t, 8 COMMA 23) SOFT_OP(f32_div, float32_t, uint32_t, 8 COMMA 23) \
    SOFT_OP(f64_add, float64_t, uint64_t, 11 COMMA 52) SOFT_OP(f64_mul, float64_t, uint64_t, 11 COMMA 52) SOFT_OP(f64_div, float64_t, uint64_t, 11 COMMA 52) \
    SOFT_CMP(f32_eq, float32_t, uint32_t, 8 COMMA 23) SOFT_CMP(f32_lt, float32_t, uint32_t, 8 COMMA 23) SOFT_CMP(f32_le, float32_t, uint32_t, 8 COMMA 23) \
    SOFT_CMP(f64_eq, float64_t, uint64_t, 11 COMMA 52) SOFT_CMP(f64_lt, float64_t, uint64_t, 11 COMMA 52) SOFT_CMP(f64_le, float64_t, uint64_t, 11 COMMA 52)
#define COMMA ,
