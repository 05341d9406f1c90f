// Instantiations of the floating-point operations.  Values cross the boundary as raw bit patterns.
#ifndef INST_FP_HPP
#define INST_FP_HPP
#include "vt.hpp"
#if defined(ADD_V2)
#include "thls/tops/fp_flopoco_add_single_v2.hpp"
#elif defined(ADD_V3)
#include "thls/tops/fp_flopoco_add_single_v3.hpp"
#elif defined(ADD_V4)
#include "thls/tops/fp_flopoco_add_single_v4.hpp"
#else
#include "thls/tops/fp_flopoco_primitives.hpp"
#endif
#ifdef INC_HDR
#include INC_HDR
#endif
#ifdef INC_HDR2
#include INC_HDR2
#endif
template<int E, int F> inline thls::fp_flopoco<E, F> vt_mk(u128 b)
{
    return thls::fp_flopoco<E, F>(thls::fw_uint<3 + E + F>::from_bits(
        (decltype(thls::fw_uint<3 + E + F>().bits))b));
}
#ifdef VT_THR
#include "vtpool.hpp"
template<int E, int F> inline const thls::fp_flopoco<E, F> &vt_in(u128 b) { return VtPool<thls::fp_flopoco<E, F> >::get(b, vt_mk<E, F>); }
#else
template<int E, int F> inline thls::fp_flopoco<E, F> vt_in(u128 b) { return vt_mk<E, F>(b); }
#endif
template<int E, int F> inline u128 vt_out(const thls::fp_flopoco<E, F> &x) { return (u128)x.bits.bits; }

#ifdef WANT_IEEE
#include "thls/tops/fp_ieee.hpp"
#include "thls/tops/fp_promote.hpp"
#include "thls/tops/fp_convert.hpp"
template<int E, int F> inline thls::fp_ieee<E, F> vt_mki(u128 b)
{
    return thls::fp_ieee<E, F>(thls::fw_uint<1 + E + F>::from_bits((decltype(thls::fw_uint<1 + E + F>().bits))b));
}
#ifdef VT_THR
template<int E, int F> inline const thls::fp_ieee<E, F> &vt_ini(u128 b) { return VtPool<thls::fp_ieee<E, F> >::get(b, vt_mki<E, F>); }
#else
template<int E, int F> inline thls::fp_ieee<E, F> vt_ini(u128 b) { return vt_mki<E, F>(b); }
#endif
#define INST_CV(NAME, CALL, SRC, DST, ER, FR, EX, FX) \
    static void VT_CAT(f_##NAME##_, __LINE__)(const u128 *in, u128 *out) \
    { const auto &x = SRC<EX, FX>(in[0]); thls::DST<ER, FR> d; thls::CALL(d, x); out[0] = (u128)d.bits.bits; } \
    static VtReg VT_CAT(r_##NAME##_, __LINE__)(#NAME, VT_CAT(f_##NAME##_, __LINE__), 4, ER, FR, EX, FX);
#endif

// binary operation with explicit result width
#define INST_BIN(NAME, CALL, ER, FR, EX, FX, EY, FY) \
    static void VT_CAT(f_##NAME##_, __LINE__)(const u128 *in, u128 *out) \
    { out[0] = vt_out<ER, FR>(thls::CALL<ER, FR>(vt_in<EX, FX>(in[0]), vt_in<EY, FY>(in[1]))); } \
    static VtReg VT_CAT(r_##NAME##_, __LINE__)(#NAME, VT_CAT(f_##NAME##_, __LINE__), 6, ER, FR, EX, FX, EY, FY);
#define INST_BINX(NAME, EXPR, ER, FR, EX, FX, EY, FY) \
    static void VT_CAT(f_##NAME##_, __LINE__)(const u128 *in, u128 *out) \
    { const auto &x = vt_in<EX, FX>(in[0]); const auto &y = vt_in<EY, FY>(in[1]); out[0] = vt_out<ER, FR>(EXPR); } \
    static VtReg VT_CAT(r_##NAME##_, __LINE__)(#NAME, VT_CAT(f_##NAME##_, __LINE__), 6, ER, FR, EX, FX, EY, FY);
#define INST_UNX(NAME, EXPR, ER, FR, EX, FX) \
    static void VT_CAT(f_##NAME##_, __LINE__)(const u128 *in, u128 *out) \
    { const auto &x = vt_in<EX, FX>(in[0]); out[0] = vt_out<ER, FR>(EXPR); } \
    static VtReg VT_CAT(r_##NAME##_, __LINE__)(#NAME, VT_CAT(f_##NAME##_, __LINE__), 4, ER, FR, EX, FX);
#endif
