// P27: every constructor and method of the tensor and iterator classes, instantiated once each
#include <new>
#include <cassert>
#include "mli_iterator.hpp"
using namespace snps_arc::metaware::mli;
typedef Tensor<OffsetBuffer, 3> TO; typedef Tensor<OffsetBuffer, 5> TO5; typedef Tensor<InternalBuffer, 3> TI; typedef Tensor<NoBuffer, 3> TN;
typedef IteratorCfg<3> C3; typedef IteratorCfg<2> C2;
typedef TensorIterator<OffsetBuffer, 3, 3> IO; typedef TensorIterator<NoBuffer, 3, 3> IN; typedef TensorIterator<InternalBuffer, 3, 3> II;
typedef TensorIterator<NoBuffer, 1, 3> IN1; typedef TensorIterator<Buffer, 3, 3> IB;
typedef BufferIterator<OffsetBuffer, 3> BI;
#define P extern "C"
// the caller's iterator / configuration with a known iteration order
template <class I> static inline void known(I &i, int a, int b, int c) { int32_t o[3] = {a, b, c}; const_cast<C3 &>(i.get_config()).UpdateOrder(o); i.@FULL@.set_rank(3); }
static inline C3 ordered(const C3 &c) { C3 r(c); int32_t o[3] = {0, 1, 2}; r.UpdateOrder(o); return r; }
#define U uint32_t
// buffers
P void p_buf_offset(OffsetBuffer *o, U a, U b, U c, U d) { new (o) OffsetBuffer(a, b, c, d); }
P void p_buf_offset_default(OffsetBuffer *o) { new (o) OffsetBuffer(); }
P void p_buf_offset_rel(OffsetBuffer *o, const OffsetBuffer &in, U a) { new (o) OffsetBuffer(in, a); }
P void p_buf_offset_set(OffsetBuffer *o, U a, U b) { o->set_size(a); o->set_elem_size(b); }
P U p_buf_offset_get_size(const OffsetBuffer &o) { return o.get_size(); }
P U p_buf_offset_get_elem_size(const OffsetBuffer &o) { return o.get_elem_size(); }
P U p_buf_offset_get_mem_idx(const OffsetBuffer &o) { return o.get_mem_idx(); }
P U p_buf_offset_get_offset(const OffsetBuffer &o) { return o.get_offset(); }
P void p_buf_internal(InternalBuffer *o, uint64_t a, U b, U c) { new (o) InternalBuffer(a, b, c); }
P void p_buf_internal_default(InternalBuffer *o) { new (o) InternalBuffer(); }
P void p_buf_internal_bases(InternalBuffer *o, const OffsetBuffer &in, uint64_t *bases, unsigned n) { new (o) InternalBuffer(in, bases, n); }
P void p_buf_internal_ptr(InternalBuffer *o, int16_t *p, U s) { new (o) InternalBuffer(p, s); }
P void p_buf_internal_set_buffer(InternalBuffer *o, int32_t *p, U s) { o->set_buffer(p, s); }
P void p_buf_internal_set_elem(InternalBuffer *o, U s) { o->set_elem_size(s); }
P U p_buf_internal_get_size(const InternalBuffer &o) { return o.get_size(); }
P U p_buf_internal_get_elem_size(const InternalBuffer &o) { return o.get_elem_size(); }
P int32_t *p_buf_internal_get_ptr(InternalBuffer &o) { return o.get_ptr<int32_t>(); }
P int16_t p_buf_internal_read(const InternalBuffer &o, U a) { return o.read<int16_t>(a); }
P void p_buf_internal_write(InternalBuffer &o, U a, int32_t v) { o.write<int32_t>(a, v); }
P void p_buf_buffer(Buffer *o, void *p, U s, U e) { new (o) Buffer(p, s, e); }
P void p_buf_buffer_set(Buffer *o, int16_t *p, U s) { o->set_buffer(p, s); }
P U p_buf_buffer_get_size(const Buffer &o) { return o.get_size(); }
P U p_buf_buffer_get_elem_size(const Buffer &o) { return o.get_elem_size(); }
P int32_t p_buf_buffer_read(const Buffer &o, U a) { return o.read<int32_t>(a); }
P void p_buf_buffer_write(Buffer &o, U a, int16_t v) { o.write<int16_t>(a, v); }
P void p_buf_nobuf(NoBuffer &o, U a) { o.set_elem_size(a); }
P U p_buf_nobuf_get(const NoBuffer &o) { return o.get_elem_size(); }
// tensors
P void p_tns_default(TO *o) { new (o) TO(); }
P void p_tns_full(TO *o, const OffsetBuffer &b, U *shape, int32_t *stride) { new (o) TO(b, shape, stride); }
P void p_tns_rank2(TO *o, const OffsetBuffer &b, U *shape, int32_t *stride) { new (o) TO(b, shape, stride, 2); }
P void p_tns_contig(TO *o, const OffsetBuffer &b, U *shape) { new (o) TO(b, shape); }
P void p_tns_contig2(TO *o, const OffsetBuffer &b, U *shape) { new (o) TO(b, shape, 2); }
P void p_tns_shape(TN *o, U *shape) { new (o) TN(shape); }
P void p_tns_shape_rank2(TN *o, U *shape) { new (o) TN(shape, 2); }
P void p_tns_shape_stride(TN *o, U *shape, int32_t *stride) { new (o) TN(shape, stride); }
P void p_tns_shape_stride_rank2(TN *o, U *shape, int32_t *stride) { new (o) TN(shape, stride, 2); }
P void p_tns_widen(TO5 *o, TO in) { new (o) TO5(in); }
P void p_tns_widen_shape(TO5 *o, TO in, U *shape) { new (o) TO5(in, shape); }
P void p_tns_rebuf(TO5 *o, const OffsetBuffer &b, TN in) { new (o) TO5(b, in); }
P void p_tns_bases(TI *o, TO in, uint64_t *bases, unsigned n) { new (o) TI(in, bases, n); }
P U p_tns_get_dim(const TO &t, U i) { return t.get_dim(i); }
P void p_tns_set_dim(TO &t, U v) { t.set_dim(1, v); }
P void p_tns_set_dims(TO &t, U *v) { t.set_dims(v); }
P void p_tns_get_dims(const TO &t, U out[3]) { t.get_dims(out); }
P int32_t p_tns_get_mem_stride(const TO &t, U i) { return t.get_mem_stride(i); }
P void p_tns_set_mem_stride(TO &t, int32_t v) { t.set_mem_stride((unsigned) 2, v); }
P void p_tns_get_mem_strides(const TO &t, int32_t out[3]) { t.get_mem_strides(out); }
P U p_tns_get_offs(const TO &t) { return t.get_offs(); }
P void p_tns_set_offs(TO &t, U v) { t.set_offs(v); }
P U p_tns_get_rank(const TO &t) { return t.get_rank(); }
P void p_tns_set_rank(TO &t, U v) { t.set_rank(v); }
P void p_tns_get_buf(const TO &t, OffsetBuffer *o) { *o = t.get_buf(); }
P void p_tns_set_buf(TO &t, const OffsetBuffer &b) { t.set_buf(b); }
P U p_tns_get_elem_size(const TO &t) { return t.get_elem_size(); }
P void p_tns_set_elem_size(TO &t, U v) { t.set_elem_size(v); }
P U p_tns_total(TO &t) { t.set_rank(3); return t.get_total_elem_num(); }
P U p_tns_get_offset(TO &t, U *pos) { t.set_rank(3); return t.get_offset(pos); }
P void p_tns_slice_pos(TO *o, TO &t, U *pos, U *size) { t.set_rank(3); new (o) TO(t.slice(pos, size)); }
P void p_tns_slice_off(TO *o, TO &t, U off, U *size) { t.set_rank(3); new (o) TO(t.slice(off, size)); }
P void p_tns_slice(TO *o, TO &t, U *size) { t.set_rank(3); new (o) TO(t.slice(size)); }
P void p_tns_transpose(TO *o, const TO &t) { U n[3] = {2, 0, 1}; new (o) TO(t.transpose(n)); }
P void p_tns_split(Tensor<OffsetBuffer, 4> *o, const TO &t, U n) { new (o) Tensor<OffsetBuffer, 4>(t.split(1, n)); }
P void p_tns_split_left(Tensor<OffsetBuffer, 4> *o, const TO &t, U n) { new (o) Tensor<OffsetBuffer, 4>(t.split(1, n, true)); }
P void p_tns_combine(Tensor<OffsetBuffer, 2> *o, const TO &t) { new (o) Tensor<OffsetBuffer, 2>(t.combine(1)); }
P void p_tns_combine_inner(Tensor<OffsetBuffer, 2> *o, const TO &t) { new (o) Tensor<OffsetBuffer, 2>(t.combine(1, false)); }
P int8_t p_tns_read8(const TI &t, U i) { return t.read<int8_t>(i); }
P int32_t p_tns_read32(const TI &t, U i) { return t.read<int32_t>(i); }
P void p_tns_write16(TI &t, U i, int16_t v) { t.write<int16_t>(i, v); }
// iterator configurations
P void p_cfg_default(C3 *o) { new (o) C3(); }
P void p_cfg_order(C3 *o, const int32_t *order) { new (o) C3(order); }
P void p_cfg_tensor(C3 *o, TO t) { new (o) C3(t); }
P void p_cfg_tensor_small(C3 *o, Tensor<OffsetBuffer, 2> t) { new (o) C3(t); }
P void p_cfg_explicit(C3 *o, int32_t *order, int32_t *count, int32_t *first_inc, int32_t *inc, int32_t *last_inc, int32_t *first_size, int32_t *size, int32_t *last_size, U tiles) {
  new (o) C3(order, count, first_inc, inc, last_inc, first_size, size, last_size, tiles); }
P void p_cfg_tiles(C3 *o, const TO &t, const U *tile) { const int32_t order[3] = {0, 1, 2}; new (o) C3(t, tile, order); }
P void p_cfg_tiles_order(C3 *o, const TO &t, const U *tile) { const int32_t order[3] = {2, 0, 1}; new (o) C3(t, tile, order); }
P void p_cfg_tiles_skew(C3 *o, const TO &t, const U *tile, U skew) { const int32_t order[3] = {0, 1, 2}; new (o) C3(t, tile, order, skew); }
P void p_cfg_kernel(C3 *o, const C3 &c, const TO t, const U *eks, const U *stride, const U *pad) { new (o) C3(ordered(c), t, eks, stride, pad); }
P void p_cfg_drop0(C2 *o, const C3 &c) { new (o) C2(c, (uint32_t) 0); }
P void p_cfg_drop1(C2 *o, const C3 &c) { new (o) C2(c, (uint32_t) 1); }
P void p_cfg_drop2(C2 *o, const C3 &c) { new (o) C2(c, (uint32_t) 2); }
P void p_cfg_buffer(C3 *o, const C3 &c) { new (o) C3(c, false); }
P void p_cfg_buffer_cyclic(C3 *o, const C3 &c) { new (o) C3(c, true); }
P void p_cfg_shrink(C3 &c) { c.ShrinkCfg(false); }
P void p_cfg_shrink_cyclic(C3 &c) { c.ShrinkCfg(true); }
P void p_cfg_overlap(C3 &c) { c.RemoveOverlapAdjacentTiles(); }
P void p_cfg_set_config(C3 *o, const C3 &c) { o->set_config(c); }
P void p_cfg_transpose(C3 *o, const C3 &c) { U n[3] = {2, 1, 0}; new (o) C3(ordered(c).transpose_order(n)); }
P void p_cfg_update_order(C3 &c, const int32_t *order) { c.UpdateOrder(order); }
P void p_cfg_zero_inc(C3 &c, const int32_t *mask) { c.SetZeroIncrements(mask); }
P void p_cfg_disable(C3 &c, const int32_t *mask, const TO &t) { c.DisableTiling<OffsetBuffer, 3>(mask, t); }
P void p_cfg_override(C3 &c, const int32_t *inc, const TO &t) { c.OverrideIncrements<OffsetBuffer, 3>(inc, t); }
P int32_t p_cfg_get_order(const C3 &c, U d) { return c.get_order(d); }
P int32_t p_cfg_get_count(const C3 &c, U d) { return c.get_count(d); }
P int32_t p_cfg_get_first_inc(const C3 &c, U d) { return c.get_first_inc(d); }
P int32_t p_cfg_get_inc(const C3 &c, U d) { return c.get_inc(d); }
P int32_t p_cfg_get_last_inc(const C3 &c, U d) { return c.get_last_inc(d); }
P U p_cfg_get_first_size(const C3 &c, U d) { return c.get_first_size(d); }
P U p_cfg_get_size(const C3 &c, U d) { return c.get_size(d); }
P U p_cfg_get_last_size(const C3 &c, U d) { return c.get_last_size(d); }
P U p_cfg_get_diff_code(const C3 &c, U d) { return c.get_diff_code(d); }
P U p_cfg_get_buf_tiles_num(const C3 &c) { return c.get_buf_tiles_num(); }
P void p_cfg_set_count1(C3 &c, int32_t v) { c.SetCount(v, 1); }
P void p_cfg_set_count(C3 &c, int32_t *v) { c.set_count(v); }
// buffer iterators
P void p_bit_make(BI *o, const TO &t, int32_t *order, int32_t *count, int32_t *first_inc, int32_t *inc, int32_t *last_inc, int32_t *first_size, int32_t *size, int32_t *last_size, U tiles) {
  int32_t ord[3] = {0, 1, 2}; C3 c(ord, count, first_inc, inc, last_inc, first_size, size, last_size, tiles); new (o) BI(t, c); }
P void p_bit_update(BI &b, const TO &t, const C3 &c, U off) { b.UpdateConfig(t, c, off); }
P void p_bit_next_first(BI &b) { b.Next(1, kFirstTile); }
P void p_bit_next_middle(BI &b) { b.Next(1, kMiddleTile); }
P void p_bit_next_last(BI &b) { b.Next(1, kLastTile); }
P void p_bit_end(BI &b) { b.EndOfDim(1); }
P U p_bit_offset(BI &b) { return b.GetBufferOffset(); }
// tensor iterators
P void p_it_tensor(IO *o, TO t) { new (o) IO(t); }
P void p_it_config(IO *o, TO t, const C3 &c) { t.set_rank(3); new (o) IO(t, ordered(c)); }
P void p_it_tiles(IO *o, TO t, U *tile) { const int32_t order[3] = {0, 1, 2}; new (o) IO(t, tile, order); }
P void p_it_copy(IN *o, IN &i) { known(i, 0, 1, 2); new (o) IN(i); }
P void p_it_rebuf(IO *o, IN &i) { known(i, 0, 1, 2); new (o) IO(i); }
P void p_it_bases(II *o, IO &i, uint64_t *bases, unsigned n) { known(i, 0, 1, 2); new (o) II(i, bases, n); }
P void p_it_kernel(IO *o, const TO &t, IO &i, U *eks, U *stride, U *pad) { known(i, 0, 1, 2); new (o) IO(t, i, eks, stride, pad); }
P void p_it_weights(IN *o, const TN &t, IN &i) { known(i, 0, 1, 2); const int32_t mask[3] = {1, 1, 0}; new (o) IN(t, i, nullptr, mask); }
P void p_it_zp(IN1 *o, const Tensor<NoBuffer, 1> &t, IN &i) { known(i, 0, 1, 2); const int32_t mask[3] = {1, 1, 0}; const int32_t order[3] = {-1, -1, 0}; new (o) IN1(t, i, order, mask); }
P void p_it_sub(IO *o, IO &i) { known(i, 0, 1, 2); new (o) IO(i.GetSubTensorIterator()); }
P void p_it_tile_201(TO *o, IO &i) { known(i, 2, 0, 1); new (o) TO(i.GetSubTensor()); }
P void p_it_tile_skip(TO *o, IO &i) { known(i, 0, 1, -1); new (o) TO(i.GetSubTensor()); }
P void p_it_tile(TO *o, IO &i) { known(i, 0, 1, 2); new (o) TO(i.GetSubTensor()); }
P void p_it_reset(IO &i) { i.Reset(); }
P bool p_it_next(IO &i) { return i.Next(); }
P bool p_it_next1(TensorIterator<OffsetBuffer, 1, 1> &i) { return i.Next(); }
P bool p_it_next2(TensorIterator<OffsetBuffer, 2, 2> &i) { return i.Next(); }
P bool p_it_next_offset(IO &i, int32_t *inc) { known(i, 0, 1, 2); return i.Next(*inc); }
P bool p_it_next_pos(IO &i, int32_t inc[3]) { known(i, 2, 0, 1); return i.Next(inc); }
P int32_t p_it_read(II &i) { return i.read<int32_t>(); }
P void p_it_write(II &i, int8_t v) { i.write<int8_t>(v); }
P U p_it_get_dim(const IO &i, U d) { return i.get_dim(d); }
P void p_it_get_full_shape(const IO &i, U out[3]) { i.get_full_shape(out); }
P void p_it_get_mem_strides(const IO &i, int32_t out[3]) { i.get_mem_strides(out); }
P U p_it_get_mem_stride(const IO &i, U d) { return i.get_mem_stride(d); }
P void p_it_set_buf(IO &i, const OffsetBuffer &b) { i.set_buf(b); }
P void p_it_get_buf(IO &i, OffsetBuffer *o) { *o = i.get_buf(); }
P void p_it_set_config(IO &i, const C3 &c) { i.set_config(c); }
P void p_it_get_config(const IO &i, C3 *o) { *o = i.get_config(); }
P int32_t p_it_get_offset(const IO &i) { return i.get_offset(); }
P void p_it_get_pos(const IO &i, int32_t out[3]) { i.get_pos(out); }
P int32_t p_it_GetPos(const IO &i, U d) { return i.GetPos(d); }
P void p_it_get_tile_idx(const IO &i, int32_t out[3]) { i.get_tile_idx(out); }
P bool p_it_is_first(const IO &i, U d) { return i.is_first_tile(d); }
P bool p_it_is_last(const IO &i, U d) { return i.is_last_tile(d); }
P U p_it_total(const IO &i) { return i.GetTotalCount(); }
P void p_it_get_tensor(const IO &i, TO *o) { *o = i.get_tensor(); }
P U p_it_get_rank(const IO &i) { return i.get_rank(); }
P U p_it_get_elem_size(IO &i) { return i.get_elem_size(); }
P void p_it_set_elem_size(IO &i, U v) { i.set_elem_size(v); }
P U p_it_update_idx1(const TensorIterator<OffsetBuffer, 1, 1> &i) { return i.get_update_idx(); }
P U p_it_update_idx2(const TensorIterator<OffsetBuffer, 2, 2> &i) { return i.get_update_idx(); }
P U p_it_update_idx(const IO &i) { return i.get_update_idx(); }
P void p_it_overlap(IO &i) { i.RemoveOverlapAdjacentTiles(); }
P void p_it_prepad(IO &i, U pad[3]) { known(i, 0, 1, 2); i.ApplyPrePadding(pad); }
P void p_it_aligns(IO &i, U al[3]) { known(i, 0, 1, 2); i.ApplyAlignsToSizes(al); }
P void p_it_override(IO &i, int32_t ov[3]) { i.OverrideIncrements(ov); }
P void p_it_set_count(IO &i, int32_t v) { i.SetCount(v, 1); }
P void p_it_set_counts(IO &i, int32_t *v) { i.SetCount(v); }
P int32_t p_it_shape(IO &i, int32_t d) { return i.GetTensorShape(d); }
P void p_it_transpose(IO *o, IO &i) { known(i, 0, 1, 2); U n[3] = {2, 1, 0}; new (o) IO(i.transpose(n)); }
P U p_it_maxbuf(IO &i) { known(i, 0, 1, 2); return i.ComputeTiledMaxBufferSize(); }
P void p_it_strides(IO &i) { known(i, 0, 1, 2); i.UpdateMemstrides(); }
P U p_it_shrink(TensorIterator<OffsetBuffer, 1, 1> &i, U n, U al[1]) { return i.ShrinkBuffer(n, true, al); }
P void p_cfg_gran(C3 &c, int32_t o, int32_t n) { int32_t ord[3] = {0, 1, 2}; c.UpdateOrder(ord); c.ConvertGran(1, o, n); }
