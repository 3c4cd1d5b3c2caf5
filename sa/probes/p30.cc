// P30: functions whose header work loops over the rank, with the rank fixed
#include "mli_api.h"
#define P extern "C"
typedef mli_tensor T;
template <int R, int E> static inline const T *fix(T *t) { t->rank = R; t->el_type = (mli_element_type)E; return t; }
P int p_mov_fx8_r2(mli_mov_handle_t *h, T *in, const mli_mov_cfg_t *cfg, T *out) { return mli_mov_prepare(h, fix<2, MLI_EL_FX_8>(in), cfg, out); }
P int p_mov_fx16_r1(mli_mov_handle_t *h, T *in, const mli_mov_cfg_t *cfg, T *out) { return mli_mov_prepare(h, fix<1, MLI_EL_FX_16>(in), cfg, out); }
P int p_mov_sa8_r2(mli_mov_handle_t *h, T *in, const mli_mov_cfg_t *cfg, T *out) { return mli_mov_prepare(h, fix<2, MLI_EL_SA_8>(in), cfg, out); }
P int p_mov_sa32_r1(mli_mov_handle_t *h, T *in, const mli_mov_cfg_t *cfg, T *out) { return mli_mov_prepare(h, fix<1, MLI_EL_SA_32>(in), cfg, out); }
P int p_permute_sa8_r2(T *in, const mli_permute_cfg *cfg, T *out) { return mli_krn_permute_sa8(fix<2, MLI_EL_SA_8>(in), cfg, out); }
