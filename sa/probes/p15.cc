// P15: header of the tensors the subtensor and conversion helpers produce
#include "mli_prv_tensor.h"
#include "mli_helpers_api.h"
#define P extern "C"
typedef mli_tensor T;
// the rank is fixed per instance so that loops over dimensions are followed one by one
template <int r, int s> static inline mli_status sub(const T *in, const mli_sub_tensor_cfg *cfg, T *out) { const_cast<T *>(in)->rank = r; const_cast<mli_sub_tensor_cfg *>(cfg)->sub_tensor_rank = s; return mli_hlp_create_subtensor(in, cfg, out); }
template <int r, int n> static inline mli_status pnt(const T *in, const mli_point_to_subtsr_cfg *cfg, T *out) { const_cast<T *>(in)->rank = r; const_cast<mli_point_to_subtsr_cfg *>(cfg)->coord_num = n; return mli_hlp_point_to_subtensor(in, cfg, out); }
P mli_status p_create_1_1(const T *in, const mli_sub_tensor_cfg *cfg, T *out) { return sub<1, 1>(in, cfg, out); }
P mli_status p_create_2_1(const T *in, const mli_sub_tensor_cfg *cfg, T *out) { return sub<2, 1>(in, cfg, out); }
P mli_status p_create_2_2(const T *in, const mli_sub_tensor_cfg *cfg, T *out) { return sub<2, 2>(in, cfg, out); }
P mli_status p_create_3_2(const T *in, const mli_sub_tensor_cfg *cfg, T *out) { return sub<3, 2>(in, cfg, out); }
P mli_status p_create_3_3(const T *in, const mli_sub_tensor_cfg *cfg, T *out) { return sub<3, 3>(in, cfg, out); }
P mli_status p_create_4_4(const T *in, const mli_sub_tensor_cfg *cfg, T *out) { return sub<4, 4>(in, cfg, out); }
P mli_status p_point_1_1(const T *in, const mli_point_to_subtsr_cfg *cfg, T *out) { return pnt<1, 1>(in, cfg, out); }
P mli_status p_point_2_1(const T *in, const mli_point_to_subtsr_cfg *cfg, T *out) { return pnt<2, 1>(in, cfg, out); }
P mli_status p_point_3_1(const T *in, const mli_point_to_subtsr_cfg *cfg, T *out) { return pnt<3, 1>(in, cfg, out); }
P mli_status p_point_3_2(const T *in, const mli_point_to_subtsr_cfg *cfg, T *out) { return pnt<3, 2>(in, cfg, out); }
P mli_status p_point_3_3(const T *in, const mli_point_to_subtsr_cfg *cfg, T *out) { return pnt<3, 3>(in, cfg, out); }
P mli_status p_point_4_2(const T *in, const mli_point_to_subtsr_cfg *cfg, T *out) { return pnt<4, 2>(in, cfg, out); }
P mli_status p_convert(const T *src, T *dst) { return mli_hlp_convert_tensor(src, dst); }
P mli_status p_convert_safx(const T *src, T *dst) { return mli_hlp_convert_tensor_safx(src, dst); }
P void p_strides_1(T *in) { in->rank = 1; mli_hlp_set_tensor_mem_strides(in); }
P void p_strides_2(T *in) { in->rank = 2; mli_hlp_set_tensor_mem_strides(in); }
P void p_strides_3(T *in) { in->rank = 3; mli_hlp_set_tensor_mem_strides(in); }
P void p_strides_4(T *in) { in->rank = 4; mli_hlp_set_tensor_mem_strides(in); }
template <int r, int s> static inline uint32_t cnt(const T *in) { const_cast<T *>(in)->rank = r; return mli_hlp_count_elem_num(in, s); }
P uint32_t p_count_4_0(const T *in) { return cnt<4, 0>(in); }
P uint32_t p_count_3_1(const T *in) { return cnt<3, 1>(in); }
P uint32_t p_count_2_2(const T *in) { return cnt<2, 2>(in); }
