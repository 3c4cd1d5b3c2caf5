// P18: how the requantization parameters come out of the headers, and how they are applied
#include "mli_prv_quant.h"
#include "mli_prv_tensor.h"
#include "mli_krn_leaky_relu.h"
#include "mli_krn_eltwise.h"
#include "mli_krn_avepool_hwc.h"
using namespace snps_arc::metaware::mli;
using namespace mli; using namespace mli::krn;
namespace Q = mli::krn::ref;
#define P extern "C"
typedef mli_tensor T; typedef s8asym_quant_specific_params A; typedef fx_quant_specific_params F; typedef int_quant_specific_params I; typedef s8asym_quant_params S;
typedef Q::convert_params C;
P void p_def_fx(const T *in, const T *w, const T *bias, const T *out, F *p) { Q::define_quant_params(in, w, bias, out, p); }
P void p_def_sa(const T *in, const T *w, const T *bias, const T *out, A *p) { Q::define_quant_params(in, w, bias, out, p); }
P void p_def_int(const T *in, const T *w, const T *bias, const T *out, I *p) { Q::define_quant_params(in, w, bias, out, p); }
static inline T sa(const T *t, int dim) { T r = *t; r.el_type = MLI_EL_SA_8; r.el_params.sa.dim = dim; return r; }
template <int w> static inline T fx(const T *t) { T r = *t; r.el_type = w == 8 ? MLI_EL_FX_8 : MLI_EL_FX_16; return r; }
P void p_requant(const T *in, const T *out, S *p) { T a = sa(in, -1), b = sa(out, -1); Q::define_requant_params(&a, &b, p); }
P void p_requant_axis(const T *in, const T *out, S *p, uint32_t index) { T a = sa(in, 1), b = sa(out, 0); Q::define_requant_params(&a, &b, p, index); }
P void p_adjust_sa(A *p, int k) { Q::adjust_quant_params(p, k); }
P void p_adjust_fx(F *p, int k) { Q::adjust_quant_params(p, k); }
P int p_get_wzp_sa(A *p) { return Q::quant_params_get_weigths_zeropoint(p); }
P int p_get_wzp_int(I *p) { return Q::quant_params_get_weigths_zeropoint(p); }
P int p_get_wzp_fx(F *p) { return Q::quant_params_get_weigths_zeropoint(p); }
P int p_set_izp_sa(A *p, int16_t z) { return Q::quant_params_set_in_zeropoint(p, z); }
P int p_set_izp_fx(F *p, int16_t z) { return Q::quant_params_set_in_zeropoint(p, z); }
P int p_bias_fx8(const int8_t *b, mli_acc32_t acc, const F *p) { return Q::bias_additive(b, acc, p); }
P int64_t p_bias_fx16(const int16_t *b, mli_acc40_t acc, const F *p) { return Q::bias_additive(b, acc, p); }
P int p_bias_sa(const int32_t *b, mli_acc32_t acc, const A *p) { return Q::bias_additive(b, acc, p); }
P int p_cast_fx16(mli_acc40_t acc, const F *p) { return Q::result_cast<int16_t, mli_acc40_t, F>(acc, p); }
P int p_cast_fx16_32(mli_acc32_t acc, const F *p) { return Q::result_cast<int16_t, mli_acc32_t, F>(acc, p); }
P int p_cast_fx8(mli_acc32_t acc, const F *p) { return Q::result_cast<int8_t, mli_acc32_t, F>(acc, p); }
P int p_cast_sa(mli_acc32_t acc, const A *p) { return Q::result_cast<int8_t, mli_acc32_t, A>(acc, p); }
P int p_cast_int(mli_acc32_t acc, const I *p) { return Q::result_cast<int32_t, mli_acc32_t, I>(acc, p); }
P void p_store_fx16(int16_t *o, mli_acc40_t acc, const F *p, int16_t lo, int16_t hi) { Q::result_cast_relu_store<int16_t, mli_acc40_t, F>(o, acc, p, lo, hi); }
P int p_ir_fx16(mli_acc40_t acc, const F *p, int16_t lo, int16_t hi) { return Q::ir_result_cast_relu_store<int16_t, mli_acc40_t, F>(acc, p, lo, hi); }
P int p_ir_fx16_32(mli_acc32_t acc, const F *p, int16_t lo, int16_t hi) { return Q::ir_result_cast_relu_store<int16_t, mli_acc32_t, F>(acc, p, lo, hi); }
P int p_ir_sa(mli_acc32_t acc, const A *p, int8_t lo, int8_t hi) { return Q::ir_result_cast_relu_store<int8_t, mli_acc32_t, A>(acc, p, lo, hi); }
P int64_t p_irq_fx40(mli_acc40_t acc, const F *p) { return Q::ir_rnn_result_requantize<mli_acc40_t, F>(acc, p); }
P int p_irq_fx32(mli_acc32_t acc, const F *p) { return Q::ir_rnn_result_requantize<mli_acc32_t, F>(acc, p); }
P int p_irq_sa(mli_acc32_t acc, const A *p) { return Q::ir_rnn_result_requantize<mli_acc32_t, A>(acc, p); }
P int p_sa8_fx16(int8_t in, int16_t zp, int scale) { return Q::mli_prv_convert_sa8_fx16<int8_t, int16_t>(in, zp, scale); }
P int p_sa8_fx16_sh(int8_t in, int16_t zp, int16_t scale, int shift) { return Q::mli_prv_convert_sa8_fx16<int8_t, int16_t>(in, zp, scale, shift); }
P int p_sa8_32_sh(int8_t in, int16_t zp, int scale) { return Q::mli_prv_convert_sa8_fx16<int8_t, int32_t>(in, zp, scale); }
P int p_fx16_sa8(int16_t in, int16_t zp, int scale) { return Q::mli_prv_convert_fx16_sa8<int16_t, int8_t>(in, zp, scale); }
P int p_wadd_sa(const int8_t *w, mli_acc32_t acc, const A *p, int wd, int h, int cs, int rs) { return Q::weights_additive(w, acc, p, wd, h, cs, rs); }
P int p_wadd_int(const int8_t *w, mli_acc32_t acc, const I *p, int wd, int h, int cs, int rs) { return Q::weights_additive(w, acc, p, wd, h, cs, rs); }
P int p_wadd_sa3(const int8_t *w, mli_acc32_t acc, const A *p, int wd, int h, int ch, int cs, int rs, int chs) { return Q::weights_additive(w, acc, p, wd, h, ch, cs, rs, chs); }
P int p_wadd_int3(const int8_t *w, mli_acc32_t acc, const I *p, int wd, int h, int ch, int cs, int rs, int chs) { return Q::weights_additive(w, acc, p, wd, h, ch, cs, rs, chs); }
P int p_wadd_fx(const int8_t *w, mli_acc32_t acc, const F *p, int wd, int h, int cs, int rs) { return Q::weights_additive<int8_t, mli_acc32_t, F>(w, acc, p, wd, h, cs, rs); }
P int p_iadd_sa(const int8_t *w, mli_acc32_t acc, const A *p, int wd, int h, int cs, int rs) { return Q::in_additive(w, acc, p, wd, h, cs, rs); }
P int p_iadd_int(const int8_t *w, mli_acc32_t acc, const I *p, int wd, int h, int cs, int rs) { return Q::in_additive(w, acc, p, wd, h, cs, rs); }
P int p_iadd_sa3(const int8_t *w, mli_acc32_t acc, const A *p, int wd, int h, int ch, int cs, int rs, int chs) { return Q::in_additive(w, acc, p, wd, h, ch, cs, rs, chs); }
P int p_iadd_fx(const int8_t *w, mli_acc32_t acc, const F *p, int wd, int h, int cs, int rs) { return Q::in_additive<int8_t, mli_acc32_t, F>(w, acc, p, wd, h, cs, rs); }
P int p_zadd_sa(const A *p, mli_acc32_t acc, int n) { return Q::zp_additive(p, acc, n); }
P int p_zadd_int(const I *p, mli_acc32_t acc, int n) { return Q::zp_additive(p, acc, n); }
P int p_zadd_fx(const F *p, mli_acc32_t acc, int n) { return Q::zp_additive<mli_acc32_t, F>(p, acc, n); }
P int p_relu_fx8_min(const mli_relu_cfg *cfg, const T *out) { return mli_prv_get_relu_limits<int8_t, false>(cfg, out).min; }
P int p_relu_fx8_max(const mli_relu_cfg *cfg, const T *out) { return mli_prv_get_relu_limits<int8_t, false>(cfg, out).max; }
P int p_relu_fx16_min(const mli_relu_cfg *cfg, const T *out) { return mli_prv_get_relu_limits<int16_t, false>(cfg, out).min; }
P int p_relu_fx16_max(const mli_relu_cfg *cfg, const T *out) { return mli_prv_get_relu_limits<int16_t, false>(cfg, out).max; }
P int p_relu_sa8_min(const mli_relu_cfg *cfg, const T *out) { return mli_prv_get_relu_limits<int8_t, true>(cfg, out).min; }
P int p_relu_sa8_max(const mli_relu_cfg *cfg, const T *out) { return mli_prv_get_relu_limits<int8_t, true>(cfg, out).max; }
P int p_shift_fx8(const T *in, const T *w, const T *out) { T x = fx<8>(in), y = fx<8>(w), z = fx<8>(out); return mli_prv_calc_shift(&x, &y, &z); }
P int p_shift_fx16(const T *in, const T *w, const T *out) { T x = fx<16>(in), y = fx<8>(w), z = fx<16>(out); return mli_prv_calc_shift(&x, &y, &z); }
P int p_shift_sa8(const T *in, const T *w, const T *out) { T x = sa(in, -1), y = sa(w, -1), z = sa(out, -1); return mli_prv_calc_shift(&x, &y, &z); }
P int p_shift_idx_fx8(const T *in, const T *w, const T *out, int k) { T x = fx<8>(in), y = fx<8>(w), z = fx<8>(out); return mli_prv_calc_shift_idx(&x, &y, &z, k); }
P int p_shift_idx_sa8(const T *in, const T *w, const T *out, int k) { T x = sa(in, -1), y = sa(w, 0), z = sa(out, -1); return mli_prv_calc_shift_idx(&x, &y, &z, k); }
P void p_leaky_id(const T *in, const T *out, S *p) { T a = sa(in, -1), b = sa(out, -1); Q::leaky_relu_define_identity_params(&a, &b, p); }
P int p_leaky_alpha_offset(const T *in, const T *slope, T *out, int8_t a, const S *id) { return Q::leaky_relu_define_alpha_params(in, slope, out, a, id).offset; }
P int p_leaky_alpha_shift(const T *in, const T *slope, T *out, int8_t a, const S *id) { return Q::leaky_relu_define_alpha_params(in, slope, out, a, id).shift; }
P int p_leaky_alpha_scale(const T *in, const T *slope, T *out, int8_t a, const S *id) { return Q::leaky_relu_define_alpha_params(in, slope, out, a, id).scale; }
P void p_elt_add_sa(const T *a, const T *b, const T *o, C *p) { Q::calc_convert_params<int8_t, ELTWISE_ADD, true>(a, b, o, *p); }
P void p_elt_sub_sa(const T *a, const T *b, const T *o, C *p) { Q::calc_convert_params<int8_t, ELTWISE_SUB, true>(a, b, o, *p); }
P void p_elt_mul_sa(const T *a, const T *b, const T *o, C *p) { Q::calc_convert_params<int8_t, ELTWISE_MUL, true>(a, b, o, *p); }
P void p_elt_max_sa(const T *a, const T *b, const T *o, C *p) { Q::calc_convert_params<int8_t, ELTWISE_MAX, true>(a, b, o, *p); }
P void p_elt_min_sa(const T *a, const T *b, const T *o, C *p) { Q::calc_convert_params<int8_t, ELTWISE_MIN, true>(a, b, o, *p); }
P void p_elt_add_fx8(const T *a, const T *b, const T *o, C *p) { T x = fx<8>(a), y = fx<8>(b), z = fx<8>(o); Q::calc_convert_params<int8_t, ELTWISE_ADD, false>(&x, &y, &z, *p); }
P void p_elt_add_fx16(const T *a, const T *b, const T *o, C *p) { T x = fx<16>(a), y = fx<16>(b), z = fx<16>(o); Q::calc_convert_params<int16_t, ELTWISE_ADD, false>(&x, &y, &z, *p); }
P void p_elt_sub_fx16(const T *a, const T *b, const T *o, C *p) { T x = fx<16>(a), y = fx<16>(b), z = fx<16>(o); Q::calc_convert_params<int16_t, ELTWISE_SUB, false>(&x, &y, &z, *p); }
P void p_elt_mul_fx8(const T *a, const T *b, const T *o, C *p) { T x = fx<8>(a), y = fx<8>(b), z = fx<8>(o); Q::calc_convert_params<int8_t, ELTWISE_MUL, false>(&x, &y, &z, *p); }
P void p_elt_mul_fx16(const T *a, const T *b, const T *o, C *p) { T x = fx<16>(a), y = fx<16>(b), z = fx<16>(o); Q::calc_convert_params<int16_t, ELTWISE_MUL, false>(&x, &y, &z, *p); }
P void p_elt_max_fx16(const T *a, const T *b, const T *o, C *p) { T x = fx<16>(a), y = fx<16>(b), z = fx<16>(o); Q::calc_convert_params<int16_t, ELTWISE_MAX, false>(&x, &y, &z, *p); }
P void p_elt_min_fx8(const T *a, const T *b, const T *o, C *p) { T x = fx<8>(a), y = fx<8>(b), z = fx<8>(o); Q::calc_convert_params<int8_t, ELTWISE_MIN, false>(&x, &y, &z, *p); }
P void p_pool_mul(unsigned div, int16_t *mul, int *shift) { Q::calc_mul(div, mul, shift); }
P void p_pool_mulshift(unsigned div, int16_t *mul, int *shift) { Q::get_mul_shift_value(div, mul, shift); }
P void p_def_q(QTensor<InternalBuffer, 4> *in, QTensor<InternalBuffer, 5> *w, I *p) { snps_arc::metaware::mli::ref::define_quant_params<int8_t, int8_t>(*in, *w, p); }
