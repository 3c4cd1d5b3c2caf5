// P12: accessors of the element type, quantization and data pointer of a tensor
#include "mli_prv_tensor.h"
#include "mli_helpers_api.h"
#define P extern "C"
typedef mli_tensor T;
P uint32_t p_elem_size(const T *in) { return mli_hlp_tensor_element_size(in); }
P int32_t p_scale_shift(const T *in, uint32_t i) { return mli_hlp_tensor_scale_shift(in, i); }
P int32_t p_scale(const T *in, uint32_t i) { return mli_hlp_tensor_scale(in, i); }
P int16_t p_zero_offset(const T *in, uint32_t i) { return mli_hlp_tensor_zero_offset(in, i); }
P bool p_data_ptr_cmp(const T *a, const T *b) { return mli_hlp_tensor_data_ptr_cmp(a, b); }
P uint8_t p_guard_sa8() { return mli_hlp_accu_guard_bits_sa8_sa8(); }
P uint8_t p_guard_fx16() { return mli_hlp_accu_guard_bits_fx16_fx16(); }
P uint8_t p_guard_fx16_fx8() { return mli_hlp_accu_guard_bits_fx16_fx8(); }
P void *p_cast_data_ptr(const T *in) { return mli_prv_tensor_cast_data_ptr(in); }
P void p_set_ptr8(T *t, int8_t *p) { mli_prv_tensor_set_data_ptr(t, p); }
P void p_set_ptr16(T *t, int16_t *p) { mli_prv_tensor_set_data_ptr(t, p); }
P void p_set_ptr32(T *t, int32_t *p) { mli_prv_tensor_set_data_ptr(t, p); }
P int8_t *p_ptr8(const T *t) { return mli_prv_tensor_data_ptr<int8_t *>(t); }
P int16_t *p_ptr16(const T *t) { return mli_prv_tensor_data_ptr<int16_t *>(t); }
P int32_t *p_ptr32(const T *t) { return mli_prv_tensor_data_ptr<int32_t *>(t); }
P float *p_ptrf(const T *t) { return mli_prv_tensor_data_ptr<float *>(t); }
P int8_t p_val8(const T *t) { return mli_prv_tensor_data_val<int8_t>(t); }
P int16_t p_val16(const T *t) { return mli_prv_tensor_data_val<int16_t>(t); }
P int32_t p_val32(const T *t) { return mli_prv_tensor_data_val<int32_t>(t); }
P float p_valf(const T *t) { return mli_prv_tensor_data_val<float>(t); }
P void p_inc8(T *t, int n) { mli_prv_tensor_inc_data_ptr<int8_t *>(t, n); }
P void p_inc16(T *t, int n) { mli_prv_tensor_inc_data_ptr<int16_t *>(t, n); }
P void p_inc32(T *t, int n) { mli_prv_tensor_inc_data_ptr<int32_t *>(t, n); }
P int p_calc_shift(const T *in, const T *w, const T *out) { return mli_prv_calc_shift(in, w, out); }
P int p_calc_shift_idx(const T *in, const T *w, const T *out, int i) { return mli_prv_calc_shift_idx(in, w, out, i); }
P int32_t p_bias_mul(const T *in0, const T *in1, const T *bias) { return mli_prv_calc_bias_mul(in0, in1, bias); }
