// P26: the encoders of parameters and the sizes they report
#include "mli_ref_compiler_api.hpp"
#include "mli_service_functions.hpp"
using namespace snps_arc::metaware::mli;
namespace R = snps_arc::metaware::mli::ref;
#define P extern "C"
typedef Tensor<Buffer, 1> V;
// the parameter types, complete
P void q_types(Tensor<Buffer, kConvWRank> &a, Tensor<Buffer, kDepthwiseWRank> &b, Tensor<Buffer, kFullyConnectedWRank> &c, TensorIterator<Buffer, kConvWRank, kConvIterRank> &d, TensorIterator<Buffer, kDepthwiseWRank, kDepthwiseIterRank> &e, TensorIterator<Buffer, kFullyConnectedWRank, kFullyConnectedIterRank> &f, TensorIterator<Buffer, kFullyConnectedZPRank, kFullyConnectedIterRank> &g, TensorIterator<Buffer, kConvZPRank, kConvZPIterRank> &h, TensorIterator<Buffer, kDepthwiseZPRank, kDepthwiseIterRank> &i) { (void)a.get_buf(); (void)b.get_buf(); (void)c.get_buf(); (void)d.get_tensor(); (void)e.get_tensor(); (void)f.get_tensor(); (void)g.get_tensor(); (void)h.get_tensor(); (void)i.get_tensor(); }
P mli_status p_conv2d_w(R::Conv2d_CS *cs, Tensor<Buffer, kConvWRank> &w, Buffer &enc) { return cs->R::Conv2d_CS::EncodeWeights(w, enc); }
P mli_status p_conv2d_wz(R::Conv2d_CS *cs, TensorIterator<Buffer, kConvWRank, kConvIterRank> &w, TensorIterator<Buffer, kConvZPRank, kConvZPIterRank> &z, Buffer &enc) { return cs->R::Conv2d_CS::EncodeWeightsAndZeroPts(w, z, enc); }
P mli_status p_conv2d_iz(R::Conv2d_CS *cs, Tensor<Buffer, kInpZPRank> &z, Buffer &enc) { return cs->R::Conv2d_CS::EncodeInpZeroPts(z, enc); }
P mli_status p_conv2d_iz_it(R::Conv2d_CS *cs, TensorIterator<Buffer, kConvZPRank, kConvZPIterRank> &z, Buffer &enc) { return cs->R::Conv2d_CS::EncodeInpZeroPts(z, enc); }
P mli_status p_conv2d_z(R::Conv2d_CS *cs, Tensor<Buffer, kConvZPRank> &z, Buffer &enc) { return cs->R::Conv2d_CS::EncodeWtsZeroPts(z, enc); }
P unsigned p_conv2d_wsz(R::Conv2d_CS *cs) { return cs->R::Conv2d_CS::GetEncodedWeightsSize(); }
P unsigned p_conv2d_izsz(R::Conv2d_CS *cs) { return cs->R::Conv2d_CS::GetEncodedInpZeroPtsSize(); }
P unsigned p_conv2d_zsz(R::Conv2d_CS *cs) { return cs->R::Conv2d_CS::GetEncodedWtsZeroPtsSize(); }
P mli_status p_dw_w(R::DepthwiseConv2d_CS *cs, Tensor<Buffer, kDepthwiseWRank> &w, Buffer &enc) { return cs->R::DepthwiseConv2d_CS::EncodeWeights(w, enc); }
P mli_status p_dw_wz(R::DepthwiseConv2d_CS *cs, TensorIterator<Buffer, kDepthwiseWRank, kDepthwiseIterRank> &w, TensorIterator<Buffer, kDepthwiseZPRank, kDepthwiseIterRank> &z, Buffer &enc) { return cs->R::DepthwiseConv2d_CS::EncodeWeightsAndZeroPts(w, z, enc); }
P mli_status p_dw_iz(R::DepthwiseConv2d_CS *cs, Tensor<Buffer, kDepthwiseZPRank> &z, Buffer &enc) { return cs->R::DepthwiseConv2d_CS::EncodeInpZeroPts(z, enc); }
P mli_status p_dw_iz_it(R::DepthwiseConv2d_CS *cs, TensorIterator<Buffer, kDepthwiseZPRank, kDepthwiseIterRank> &z, Buffer &enc) { return cs->R::DepthwiseConv2d_CS::EncodeInpZeroPts(z, enc); }
P mli_status p_dw_z(R::DepthwiseConv2d_CS *cs, Tensor<Buffer, kDepthwiseZPRank> &z, Buffer &enc) { return cs->R::DepthwiseConv2d_CS::EncodeWtsZeroPts(z, enc); }
P unsigned p_dw_wsz(R::DepthwiseConv2d_CS *cs) { return cs->R::DepthwiseConv2d_CS::GetEncodedWeightsSize(); }
P unsigned p_dw_izsz(R::DepthwiseConv2d_CS *cs) { return cs->R::DepthwiseConv2d_CS::GetEncodedInpZeroPtsSize(); }
P unsigned p_dw_zsz(R::DepthwiseConv2d_CS *cs) { return cs->R::DepthwiseConv2d_CS::GetEncodedWtsZeroPtsSize(); }
P mli_status p_tconv_w(R::TransposeConv2D_CS *cs, Tensor<Buffer, kTransposeConvWRank> &w, Buffer &enc) { return cs->R::TransposeConv2D_CS::EncodeWeights(w, enc); }
P mli_status p_tconv_wz(R::TransposeConv2D_CS *cs, TensorIterator<Buffer, kTransposeConvWRank, kTransposeConvIterRank> &w, TensorIterator<Buffer, kTransposeConvZPRank, kTransposeConvZPIterRank> &z, Buffer &enc) { return cs->R::TransposeConv2D_CS::EncodeWeightsAndZeroPts(w, z, enc); }
P mli_status p_tconv_iz(R::TransposeConv2D_CS *cs, Tensor<Buffer, kTransposeConvZPRank> &z, Buffer &enc) { return cs->R::TransposeConv2D_CS::EncodeInpZeroPts(z, enc); }
P mli_status p_tconv_iz_it(R::TransposeConv2D_CS *cs, TensorIterator<Buffer, kTransposeConvZPRank, kTransposeConvZPIterRank> &z, Buffer &enc) { return cs->R::TransposeConv2D_CS::EncodeInpZeroPts(z, enc); }
P mli_status p_tconv_z(R::TransposeConv2D_CS *cs, Tensor<Buffer, kTransposeConvZPRank> &z, Buffer &enc) { return cs->R::TransposeConv2D_CS::EncodeWtsZeroPts(z, enc); }
P unsigned p_tconv_wsz(R::TransposeConv2D_CS *cs) { return cs->R::TransposeConv2D_CS::GetEncodedWeightsSize(); }
P unsigned p_tconv_izsz(R::TransposeConv2D_CS *cs) { return cs->R::TransposeConv2D_CS::GetEncodedInpZeroPtsSize(); }
P unsigned p_tconv_zsz(R::TransposeConv2D_CS *cs) { return cs->R::TransposeConv2D_CS::GetEncodedWtsZeroPtsSize(); }
P mli_status p_fc_w(R::FullyConnected_CS *cs, const Tensor<Buffer, kFullyConnectedWRank> &w, Buffer &enc) { return cs->R::FullyConnected_CS::EncodeWeights(w, enc); }
P mli_status p_fc_wz(R::FullyConnected_CS *cs, TensorIterator<Buffer, kFullyConnectedWRank, kFullyConnectedIterRank> &w, TensorIterator<Buffer, kFullyConnectedZPRank, kFullyConnectedIterRank> &z, Buffer &enc) { return cs->R::FullyConnected_CS::EncodeWeightsAndZeroPts(w, z, enc); }
P mli_status p_fc_z(R::FullyConnected_CS *cs, const V &z, Buffer &enc) { return cs->R::FullyConnected_CS::EncodeWtsZeroPts(z, enc); }
P unsigned p_fc_wsz(R::FullyConnected_CS *cs) { return cs->R::FullyConnected_CS::GetEncodedWeightsSize(); }
P unsigned p_fc_zsz(R::FullyConnected_CS *cs) { return cs->R::FullyConnected_CS::GetEncodedWtsZeroPtsSize(); }
P mli_status p_matmul(R::MatMul_CS *cs, const Buffer &b1, const Buffer &b2, Buffer &enc) { return cs->R::MatMul_CS::EncodeParams(b1, b2, enc); }
P unsigned p_matmul_sz(R::MatMul_CS *cs) { return cs->R::MatMul_CS::GetEncodedParamsSize(); }
P mli_status p_rescale(R::Rescale_CS *cs, const V &in_bias, const V &scale, const V &shift, const V &out_bias, Buffer &enc) { return cs->R::Rescale_CS::EncodeParams(in_bias, scale, shift, out_bias, enc); }
P unsigned p_rescale_sz(R::Rescale_CS *cs) { return cs->R::Rescale_CS::GetEncodedParamsSize(); }
P mli_status p_prelu(R::Prelu_CS *cs, Tensor<Buffer, kPreluParamRank> &bias, Tensor<Buffer, kPreluParamRank> &posscale, Tensor<Buffer, kPreluParamRank> &negscale, Tensor<Buffer, kPreluParamRank> &posshift, Tensor<Buffer, kPreluParamRank> &negshift, Tensor<Buffer, kPreluParamRank> &asymm, Buffer &enc) { return cs->R::Prelu_CS::EncodeParams(bias, posscale, negscale, posshift, negshift, asymm, enc); }
P unsigned p_prelu_sz(R::Prelu_CS *cs) { return cs->R::Prelu_CS::GetEncodedParamsSize(); }
P mli_status p_clip(R::Clip_CS *cs, V &min_value, V &max_value, Buffer &enc) { return cs->R::Clip_CS::EncodeParams(min_value, max_value, enc); }
P unsigned p_clip_sz(R::Clip_CS *cs) { return cs->R::Clip_CS::GetEncodedParamsSize(); }
