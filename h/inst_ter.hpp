#include "inst_fp.hpp"
#ifdef WANT_FMA
#include "thls/tops/fp_flopoco_fma.hpp"
#define INST_FMA(ER, FR, EX, FX, EY, FY, EZ, FZ) \
    static void VT_CAT(f_fma_, __LINE__)(const u128 *in, u128 *out) \
    { out[0] = vt_out<ER, FR>(thls::fma<ER, FR>(vt_in<EX, FX>(in[0]), vt_in<EY, FY>(in[1]), vt_in<EZ, FZ>(in[2]))); } \
    static VtReg VT_CAT(r_fma_, __LINE__)("fma", VT_CAT(f_fma_, __LINE__), 8, ER, FR, EX, FX, EY, FY, EZ, FZ);
#define INST_FMAD(ER, FR, EX, FX, EY, FY, EZ, FZ) \
    static void VT_CAT(f_fma_, __LINE__)(const u128 *in, u128 *out) \
    { out[0] = vt_out<ER, FR>(thls::fma<ER, FR>(vt_in<EX, FX>(in[0]), vt_in<EY, FY>(in[1]), vt_in<EZ, FZ>(in[2]), 1)); } \
    static VtReg VT_CAT(r_fma_, __LINE__)("fma", VT_CAT(f_fma_, __LINE__), 8, ER, FR, EX, FX, EY, FY, EZ, FZ);
#endif
#ifdef WANT_DOT
#include "thls/tops/fp_flopoco_dot2_pos_rndd.hpp"
#include "thls/tops/fp_flopoco_dot4_pos_rndd.hpp"
#define INST_DOT2(E, F) \
    static void VT_CAT(f_d2_, __LINE__)(const u128 *in, u128 *out) \
    { out[0] = vt_out<E, F>(thls::dot2_pos_rndd<E, F>(vt_in<E, F>(in[0]), vt_in<E, F>(in[1]), vt_in<E, F>(in[2]), vt_in<E, F>(in[3]))); } \
    static VtReg VT_CAT(r_d2_, __LINE__)("dot2", VT_CAT(f_d2_, __LINE__), 2, E, F);
#define INST_DOT2D(E, F) \
    static void VT_CAT(f_d2_, __LINE__)(const u128 *in, u128 *out) \
    { out[0] = vt_out<E, F>(thls::dot2_pos_rndd<E, F, true>(vt_in<E, F>(in[0]), vt_in<E, F>(in[1]), vt_in<E, F>(in[2]), vt_in<E, F>(in[3]))); } \
    static VtReg VT_CAT(r_d2_, __LINE__)("dot2", VT_CAT(f_d2_, __LINE__), 2, E, F);
#define INST_DOT4D(E, F) \
    static void VT_CAT(f_d4_, __LINE__)(const u128 *in, u128 *out) \
    { out[0] = vt_out<E, F>(thls::dot4_pos_rndd<E, F, true>(vt_in<E, F>(in[0]), vt_in<E, F>(in[1]), vt_in<E, F>(in[2]), vt_in<E, F>(in[3]), \
                                                      vt_in<E, F>(in[4]), vt_in<E, F>(in[5]), vt_in<E, F>(in[6]), vt_in<E, F>(in[7]))); } \
    static VtReg VT_CAT(r_d4_, __LINE__)("dot4", VT_CAT(f_d4_, __LINE__), 2, E, F);
#define INST_DOT4(E, F) \
    static void VT_CAT(f_d4_, __LINE__)(const u128 *in, u128 *out) \
    { out[0] = vt_out<E, F>(thls::dot4_pos_rndd<E, F>(vt_in<E, F>(in[0]), vt_in<E, F>(in[1]), vt_in<E, F>(in[2]), vt_in<E, F>(in[3]), \
                                                      vt_in<E, F>(in[4]), vt_in<E, F>(in[5]), vt_in<E, F>(in[6]), vt_in<E, F>(in[7]))); } \
    static VtReg VT_CAT(r_d4_, __LINE__)("dot4", VT_CAT(f_d4_, __LINE__), 2, E, F);
#endif
