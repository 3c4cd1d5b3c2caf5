// P17: the views the kernels take of a tensor
#include "mli_prv_tensor.h"
using namespace snps_arc::metaware::mli;
#define P extern "C"
typedef mli_tensor T;
typedef generic_tensor_private_t<int16_t *> G; typedef generic_tensor_private_t<int8_t *> G8; typedef tensor_private_t<int16_t *> F; typedef conv2d_weights_tensor_private_t<int8_t *> W;
template <int r> static inline T ranked(const T *in) { T t = *in; t.rank = r; return t; }
template <int r> static inline G gen(const T *in) { T t = ranked<r>(in); return mli_prv_get_generic_tensor<int16_t *>(&t); }
template <int r> static inline G rk(const G *in) { G g = *in; g.rank = r; return g; }
P void p_chw(F *o, const T *in) { *o = mli_prv_get_tensor_chw<int16_t *>(in, 0); }
P void p_chw_fix(F *o, const T *in) { *o = mli_prv_get_tensor_chw<int16_t *>(in, 3); }
P void p_hwc(F *o, const T *in) { *o = mli_prv_get_tensor_hwc<int16_t *>(in, 0); }
P void p_hwc_fix(F *o, const T *in) { *o = mli_prv_get_tensor_hwc<int16_t *>(in, 3); }
P void p_gen_1(G *o, const T *in) { *o = gen<1>(in); }
P void p_gen_2(G *o, const T *in) { *o = gen<2>(in); }
P void p_gen_3(G *o, const T *in) { *o = gen<3>(in); }
P void p_gen_4(G *o, const T *in) { *o = gen<4>(in); }
P void p_gen_noptr(G *o, const T *in) { T t = ranked<3>(in); *o = mli_prv_get_generic_tensor<int16_t *, false>(&t); }
P void p_axis_3_1(G *o, const G *in) { G g = rk<3>(in); *o = mli_prv_get_axis_tensor<int16_t *>(&g, 1); }
P void p_axis_4_0(G *o, const G *in) { G g = rk<4>(in); *o = mli_prv_get_axis_tensor<int16_t *>(&g, 0); }
P void p_axis_2_all(G *o, const G *in) { G g = rk<2>(in); *o = mli_prv_get_axis_tensor<int16_t *>(&g, -1); }
P void p_axis_3(G *o, const G *in, int axis) { G g = rk<3>(in); *o = mli_prv_get_axis_tensor<int16_t *>(&g, axis); }
P void p_nonaxis_3_1(G *o, const G *in) { G g = rk<3>(in); *o = mli_prv_get_non_axis_tensor<int16_t *>(&g, 1); }
P void p_nonaxis_4_0(G *o, const G *in) { G g = rk<4>(in); *o = mli_prv_get_non_axis_tensor<int16_t *>(&g, 0); }
P void p_nonaxis_2_1(G *o, const G *in) { G g = rk<2>(in); *o = mli_prv_get_non_axis_tensor<int16_t *>(&g, 1); }
P void p_nonaxis_3_all(G *o, const G *in) { G g = rk<3>(in); *o = mli_prv_get_non_axis_tensor<int16_t *>(&g, -1); }
P void p_reorder_1(G *o) { o->rank = 1; mli_prv_reorder_generic_tensor<int16_t *>(o); }
P void p_reorder_2(G *o) { o->rank = 2; mli_prv_reorder_generic_tensor<int16_t *>(o); }
P void p_reorder_3(G *o) { o->rank = 3; mli_prv_reorder_generic_tensor<int16_t *>(o); }
P void p_reorder_4(G *o) { o->rank = 4; mli_prv_reorder_generic_tensor<int16_t *>(o); }
P void p_squash_1(G *in, G8 *out) { in->rank = 1; out->rank = 1; mli_prv_squash_generic_tensor<int16_t *, int8_t *>(in, out); }
P void p_squash_2(G *in, G8 *out) { in->rank = 2; out->rank = 2; mli_prv_squash_generic_tensor<int16_t *, int8_t *>(in, out); }
P void p_squash_3(G *in, G8 *out) { in->rank = 3; out->rank = 3; mli_prv_squash_generic_tensor<int16_t *, int8_t *>(in, out); }
P void p_squash2_1(G *in1, G *in2, G8 *out) { in1->rank = 1; mli_prv_squash_generic_tensor<int16_t *, int8_t *>(in1, in2, out); }
P void p_squash2_2(G *in1, G *in2, G8 *out) { in1->rank = 2; mli_prv_squash_generic_tensor<int16_t *, int8_t *>(in1, in2, out); }
P int p_one_dim_1(const T *in, T *out) { T t = ranked<1>(in); return mli_prv_squash_tensor_to_one_dim(&t, out); }
P int p_one_dim_3(const T *in, T *out) { T t = ranked<3>(in); return mli_prv_squash_tensor_to_one_dim(&t, out); }
P int p_one_dim2_2(const T *in1, const T *in2, T *out) { T t = ranked<2>(in1); return mli_prv_squash_tensor_to_one_dim(&t, in2, out); }
P int p_one_dim2_4(const T *in1, const T *in2, T *out) { T t = ranked<4>(in1); return mli_prv_squash_tensor_to_one_dim(&t, in2, out); }
P void p_w_nhwc(W *o, const T *w) { *o = mli_prv_get_conv2d_weights_tensor_nhwc<int8_t *>(w, 0, 0, 0); }
P void p_w_nhwc_fix(W *o, const T *w) { *o = mli_prv_get_conv2d_weights_tensor_nhwc<int8_t *>(w, 5, 3, 2); }
P void p_w_hwcn(W *o, const T *w) { *o = mli_prv_get_conv2d_weights_tensor_hwcn<int8_t *>(w, 0, 0, 0); }
P void p_w_hwcn_fix(W *o, const T *w) { *o = mli_prv_get_conv2d_weights_tensor_hwcn<int8_t *>(w, 5, 3, 2); }
P void p_w_hw1n(W *o, const T *w) { *o = mli_prv_get_conv2d_weights_tensor_hw1n<int8_t *>(w, 0, 0); }
P void p_w_hw1n_fix(W *o, const T *w) { *o = mli_prv_get_conv2d_weights_tensor_hw1n<int8_t *>(w, 3, 2); }
P void p_w_nchw(W *o, const T *w) { *o = mli_prv_get_conv2d_weights_tensor_nchw<int8_t *>(w); }
P void p_rot1(F *o, const F *in) { *o = mli_prv_rotate_tensor_private<1>(*in); }
P void p_rot2(F *o, const F *in) { *o = mli_prv_rotate_tensor_private<2>(*in); }
P void p_rot3(F *o, const F *in) { *o = mli_prv_rotate_tensor_private<3>(*in); }
P void p_rot0(F *o, const F *in) { *o = mli_prv_rotate_tensor_private<0>(*in); }
P void p_rotw1(W *o, const W *in) { *o = mli_prv_rotate_weights_tensor_private<1>(*in); }
P void p_rotw2(W *o, const W *in) { *o = mli_prv_rotate_weights_tensor_private<2>(*in); }
P void p_rotw3(W *o, const W *in) { *o = mli_prv_rotate_weights_tensor_private<3>(*in); }
P uint32_t p_count_4_1(const T *in) { T t = ranked<4>(in); return mli_prv_count_elem_num_part(&t, 1); }
P uint32_t p_count_3(const T *in) { T t = ranked<3>(in); return mli_prv_count_elem_num(&t); }
P int p_pos(const G *in, int a, int b, int c, int d) { return mli_prv_get_tensor_idx_pos<int16_t>(in, a, b, c, d); }
P int p_pos5(Tensor<InternalBuffer, 5> *in, int a, int b, int c, int d, int e) { return mli_prv_get_tensor_idx_pos(*in, a, b, c, d, e); }
P int16_t p_read(const G *in, int a, int b, int c, int d) { return mli_prv_tensor_read<int16_t>(*in, a, b, c, d); }
P void p_write(int16_t v, G *in, int a, int b, int c, int d) { mli_prv_tensor_write<int16_t>(v, *in, a, b, c, d); }
P int8_t p_read5(Tensor<InternalBuffer, 5> *in, int a, int b, int c, int d, int e) { return mli_prv_tensor_read<int8_t>(*in, a, b, c, d, e); }
P void p_write5(int32_t v, Tensor<InternalBuffer, 5> *in, int a, int b, int c, int d, int e) { mli_prv_tensor_write<int32_t>(v, *in, a, b, c, d, e); }
P void p_hwc_5(F *o, const Tensor<InternalBuffer, 5> *in) { *o = mli_prv_get_tensor_hwc<int16_t *, 5>(*in); }
P void p_hwc_4(F *o, const Tensor<InternalBuffer, 4> *in) { *o = mli_prv_get_tensor_hwc<int16_t *, 4>(*in); }
P void p_w_hwcn_30(W *o, const Tensor<InternalBuffer, kConvWRank> *w) { *o = mli_prv_get_conv2d_weights_tensor_hwcn<int8_t *>(*w); }
P void p_w_hwc_30(W *o, const Tensor<InternalBuffer, 3> *w) { *o = mli_prv_get_conv2d_weights_tensor_hwc<int8_t *>(*w); }
