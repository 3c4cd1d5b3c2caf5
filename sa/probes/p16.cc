// P16: looking up one element in an activation table
#include "mli_config.h"
#include "mli_prv_lut.h"
#define P extern "C"
namespace R = mli::krn::ref;
typedef const struct mli::krn::s8asym_quant_params *QI; typedef struct mli::krn::s8asym_quant_params *QO;
P int8_t p_interp_8(int8_t in, const mli_lut *lut, int8_t fb) { return R::activation_lut_one_elem_interpolate<int8_t, int8_t, false, false>(in, lut, fb); }
P int16_t p_interp_16(int16_t in, const mli_lut *lut, int8_t fb) { return R::activation_lut_one_elem_interpolate<int16_t, int16_t, false, false>(in, lut, fb); }
P int8_t p_interp_off8(int8_t in, const mli_lut *lut, int8_t fb, QI qi, QO qo) { return R::activation_lut_one_elem_interpolate<int8_t, int8_t, false, false, true>(in, lut, fb, qi, qo); }
P int16_t p_interp_off16(int16_t in, const mli_lut *lut, int8_t fb, QI qi, QO qo) { return R::activation_lut_one_elem_interpolate<int16_t, int16_t, false, false, true>(in, lut, fb, qi, qo); }
P int8_t p_interp_sa8(int8_t in, const mli_lut *lut, QI qi, QO qo) { return R::activation_lut_one_elem_interpolate<int8_t, int8_t, true, true>(in, lut, 0, qi, qo); }
P int16_t p_interp_sa8_16(int8_t in, const mli_lut *lut, QI qi, QO qo) { return R::activation_lut_one_elem_interpolate<int8_t, int16_t, true, false>(in, lut, 0, qi, qo); }
P int8_t p_near_8(int8_t in, const mli_lut *lut, int8_t fb) { return R::activation_lut_one_elem_no_interpolate<int8_t, int8_t, false, false>(in, lut, fb); }
P int16_t p_near_16(int16_t in, const mli_lut *lut, int8_t fb) { return R::activation_lut_one_elem_no_interpolate<int16_t, int16_t, false, false>(in, lut, fb); }
P int8_t p_near_off8(int8_t in, const mli_lut *lut, int8_t fb, QI qi, QO qo) { return R::activation_lut_one_elem_no_interpolate<int8_t, int8_t, false, false, true>(in, lut, fb, qi, qo); }
P int16_t p_near_off16(int16_t in, const mli_lut *lut, int8_t fb, QI qi, QO qo) { return R::activation_lut_one_elem_no_interpolate<int16_t, int16_t, false, false, true>(in, lut, fb, qi, qo); }
P int8_t p_near_sa8(int8_t in, const mli_lut *lut, QI qi, QO qo) { return R::activation_lut_one_elem_no_interpolate<int8_t, int8_t, true, true>(in, lut, 0, qi, qo); }
