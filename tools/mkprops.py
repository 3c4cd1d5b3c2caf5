import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    if 'observe_at' in kw: kw['observe_at']=[kw['observe_at']]
    if 'state' in kw: kw['state']=[{"name":kw['state'],"meaning":"the only mutable static state","where":files[-1]}]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],**kw}})

CHK="lib/src/private/src/mli_check.cc"
p("P01","Rejected arguments never reach a kernel",
 "In every build that returns status codes, each public C kernel, helper and data-movement function first applies its own parameter check to exactly the arguments it was given. If the check does not return MLI_STATUS_OK, the function returns that status and has neither read tensor data nor written anything through its arguments; otherwise it runs the computation and returns MLI_STATUS_OK or the status the computation itself reports.",
 ["inputs","configurations"],"all argument values of all mli_krn_*, mli_hlp_*, mli_mov_* entry points that own a check, in every return-code mode",
 "The tests call kernels with valid arguments only, and two of the three test configurations compile the checks out; a missing, misplaced, wrong-argument or ignored check is invisible to them.",
 ["lib/src/kernels/convolution/mli_krn_conv2d_hwcn.cc","lib/src/kernels/common/mli_krn_fully_connected.cc","lib/src/helpers/src/mli_helpers.cc","lib/src/move/mli_mov_api.cc","lib/src/private/mli_debug.h"],
 [("entry prologue `ret = MLI_CHECK_STATUS(mli_chk_X(...)); if (ret != OK) return ret;`","every lib/src/kernels/**/*.cc entry"),("MLI_CHECK_STATUS","lib/src/private/mli_debug.h")],observe_at="return status and side effects of the public C entry points")
p("P02","Tensor validation accepts exactly well-formed tensors",
 "The shared tensor validators return MLI_STATUS_OK only for a tensor that is non-null, has a non-null data pointer for its element type, a rank within MLI_MAX_RANK, positive non-overlapping strides, positive shapes, sufficient capacity and, for asymmetric types, valid quantization parameters. A tensor meeting all of those conditions is accepted; scalar-tensor, overlap, fractional-bit, bias-scale and LUT validators likewise accept exactly the documented cases.",
 ["inputs"],"all mli_tensor / mli_lut / mli_data_container values",
 "Rejection behaviour over the space of malformed tensors is not exercised by any test, and every kernel's safety rests on these predicates.",
 [CHK,"lib/src/private/mli_check.h","include/mli_types.h"],
 [("mli_chk_tensor, check_tensor_private, mli_chk_tensor_quant_params, mli_chk_scalar_tensor",CHK),("mli_chk_containers_not_overlapped, mli_chk_bias_frac_fx, mli_chk_out_frac_fx, mli_chk_bias_scale_asym, mli_chk_lut",CHK)],observe_at="return value of the validators")
p("P03","Convolution, dense and pooling checks accept exactly documented arguments",
 "The parameter check of every convolution, depthwise, group, transposed convolution, fully connected and pooling kernel variant returns MLI_STATUS_OK if and only if the documented requirements on ranks, shapes, strides, layout, configuration, element types, quantization axes, overlap and fixed kernel size hold for that variant. No requirement is dropped, weakened or applied to the wrong tensor in any variant.",
 ["inputs"],"all tensors and configurations passed to these kernels",
 "Tests use a few valid shapes; dropping or weakening one of several dozen requirements changes no test result, but turns a reported error into silent out-of-bounds access or garbage.",
 [CHK,"include/api/mli_kernels_api.h"],[("mli_chk_conv2d_hwcn*, mli_chk_depthwise_conv2d_hwcn*, mli_chk_group_conv2d_hwcn*, mli_chk_transpose_conv2d_hwcn*",CHK),("mli_chk_fully_connected*, mli_chk_maxpool_hwc*, mli_chk_avepool_hwc*",CHK)],observe_at="return value of the checks / of the kernels")
p("P04","Elementwise, activation and RNN checks accept exactly documented arguments",
 "The parameter check of every relu, leaky relu, prelu, eltwise, activation, softmax, L2-normalisation, RNN-dense, LSTM and GRU kernel variant returns MLI_STATUS_OK if and only if the documented requirements on ranks, shapes, strides, configuration, element types, quantization, overlap and scratch capacity hold for that variant. No requirement is dropped, weakened or applied to the wrong tensor in any variant.",
 ["inputs"],"all tensors and configurations passed to these kernels",
 "Tests use a few valid shapes and never observe the rejection side of the contract.",
 [CHK,"include/api/mli_kernels_api.h"],[("mli_chk_relu*, mli_chk_leaky_relu*, mli_chk_prelu*, mli_chk_eltwise*, mli_chk_basic_activation*, mli_chk_softmax*, mli_chk_l2_normalize*",CHK),("mli_chk_rnn_dense*, mli_chk_lstm_cell*, mli_chk_gru_cell*",CHK)],observe_at="return value of the checks / of the kernels")
p("P05","Move, permute, argmax and helper checks accept exactly documented arguments",
 "The parameter checks of permute, argmax, tensor conversion, element counting, subtensor creation and data movement return MLI_STATUS_OK if and only if the documented requirements on tensors and configuration hold. In particular axes, permutations, offsets, sizes and steps are validated against the tensor they index.",
 ["inputs"],"all tensors and configurations passed to these functions",
 "Tests use a few valid configurations and never observe the rejection side of the contract.",
 [CHK,"include/api/mli_mov_api.h","include/api/mli_helpers_api.h"],[("mli_chk_permute*, mli_chk_argmax*, mli_chk_convert_tensor, mli_chk_count_elem_num, mli_chk_point_to_subtensor, mli_chk_create_subtensor, mli_chk_data_movement*",CHK)],observe_at="return value of the checks")
p("P06","Parameter checks report malformed arguments instead of faulting",
 "In return-code builds no parameter check dereferences a null tensor, configuration or lookup-table argument, or divides by a zero taken from a configuration or tensor: every such access is preceded on every path by the test that rules the value out. A caller passing a null pointer or a zero step gets an error status, not a crash.",
 ["inputs"],"all argument values, including null pointers and zero-valued fields, of all mli_chk_* functions",
 "No test passes an invalid argument; a crash on an invalid argument is only reachable through inputs the suite never builds.",
 [CHK],[("null tests before dereference in each mli_chk_*",CHK)],observe_at="absence of faults in the checks")
p("P07","A kernel's name determines the data path it runs",
 "Every public C kernel runs the implementation instantiated for the operand types, accumulator, quantization scheme, data layout, operation and fixed kernel size that its name promises, and validates with the parameter check of that same variant and size. No two variants with different names run the same instantiation by mistake, and no specialised variant runs a kernel size other than the one it validates.",
 ["inputs"],"all public kernel entry points and all arguments",
 "A wrong accumulator, type or size instantiation can coincide with the right one on the sampled tensors (for example when accumulators do not exceed 32 bits), so the suite's checksums do not pin it for every input.",
 ["lib/src/kernels/convolution","lib/src/kernels/pooling","lib/src/kernels/common","lib/src/kernels/transform","lib/src/kernels/eltwise","lib/src/kernels/diverse"],[("template instantiation in each mli_krn_* entry","lib/src/kernels/**/*.cc")],observe_at="computed output tensors")
p("P08","Kernels write only through their output arguments",
 "During a call, a public C kernel or helper stores only into its output tensor header and data, into the scratch and state memory its interface documents as written (recurrent cell state and scratch), and into its own locals. Input, weight, bias and lookup-table tensors, and configuration structures, are never modified, nor is the data container (pointer and capacity) of the output tensor. For the MLI 3.0 objects: construction, attaching and updating write only the object itself, Issue writes besides the object only the output tile, queries write only the arrays they are given.",
 ["inputs"],"all arguments of all public kernel entry points",
 "Tests compare outputs and a few checksums of inputs on sampled data; a store reachable only for some shape, padding or configuration is not seen.",
 ["lib/src/kernels","lib/src/bricks","lib/src/helpers"],[("all store instructions reachable from an entry point","lib/src")],observe_at="contents of input tensors and configurations after the call")
p("P09","The library keeps no hidden mutable state",
 "Apart from the DMA channel pool and callback table of the data-movement API, no code in the library reads or writes mutable static storage, allocates heap memory, or calls input/output (other than diagnostic messages) or other non-reentrant functions, so independent kernel calls on disjoint tensors never affect one another and may run concurrently. The call graph from every entry point is free of recursion.",
 ["schedules","histories","inputs"],"all interleavings and sequences of calls to any entry points",
 "Hidden state shows only for particular call histories or thread interleavings, none of which the single-threaded tests sample.",
 ["lib/src","include/mli_iterator.hpp"],[("absence of mutable globals outside lib/src/move/mli_mov_api.cc","whole library")],state="dma_pool, callbacktable in lib/src/move/mli_mov_api.cc",observe_at="outputs of interleaved calls")
p("P10","Debug mode never changes what is computed",
 "Compiling with a different MLI_DEBUG_MODE changes only diagnostics and the reporting of invalid arguments: the expressions given to MLI_CHECK, MLI_CHECK_STATUS, MLI_ASSERT, MLI_EXTRA_ASSERT, MLI_PRINTF and assert have no side effects the computation depends on, no other code depends on the mode, and each macro yields the documented value in each mode. In the release mode every status-returning public kernel returns MLI_STATUS_OK.",
 ["configurations","inputs"],"all debug modes and all arguments",
 "Each test binary is built in one mode; a side effect inside an assertion works in the mode that evaluates it and is silently lost in another.",
 ["lib/src/private/mli_debug.h","lib/src"],[("MLI_CHECK/MLI_ASSERT argument purity","all uses"),("release-mode MLI_CHECK_STATUS expansion","lib/src/private/mli_debug.h")],observe_at="outputs and status across builds")
p("P11","Fixed-point primitives saturate instead of overflowing",
 "The reference fixed-point primitives (add, subtract, negate, absolute value, limit, shift left, shift right, rounding shift, saturate to fewer bits, casts between widths and from accumulators to 8, 16 and 32 bit outputs, minimum, maximum and range bounding) return, for every operand and every shift amount from -32768 to 32767, the exact mathematical result in the rounding mode of the build, held to the limits of the returned type; a left shift is the negative right shift and shifts by the type's width or more are defined. They never perform a signed operation that can overflow or a shift by an out-of-range amount, and never drop significant bits when narrowing.",
 ["inputs"],"all operand values and shift amounts",
 "Overflow appears only for extreme operands and shift combinations out of 2^32 and more, of which tests sample a handful.",
 ["lib/src/pal/ref/mli_math.h"],[("mli_math_add_fx, mli_math_sub_fx, mli_math_neg_fx, mli_math_asl_fx, mli_math_sat_fx, mli_math_cast_fx, mli_math_acc_cast_fx","lib/src/pal/ref/mli_math.h")],observe_at="return values of the primitives and the kernel outputs built on them")
p("P12","Element-type tables are total and consistent",
 "For every supported element type, the size, scale, shift, zero-point and data-pointer accessors of the helper and private tensor API return the value defined for that type from the field that holds it (per tensor or per axis), fixed-point types behave as scale 1 and zero point 0, and accessors of different names agree on the size of an element.",
 ["inputs"],"all element types, per-tensor and per-axis quantization, all indices",
 "Some (type, quantization mode) rows are used by no test; a wrong row silently mis-scales or mis-addresses that type only.",
 ["lib/src/helpers/src/mli_helpers.cc","lib/src/private/mli_prv_tensor.h","include/mli_types.h"],[("mli_hlp_tensor_element_size/scale/scale_shift/zero_offset/data_ptr_cmp","lib/src/helpers/src/mli_helpers.cc")],observe_at="return values of the accessors")
p("P13","Data-movement configuration builders define every field",
 "Each mli_mov_cfg_for_* builder and mli_mov_cfg_all writes every element of every field of mli_mov_cfg_t on every path, takes each requested setting from the argument of that name and the same dimension, and leaves every other field at its neutral value (zero offsets, padding, sizes and strides, step one, identity permutation). The previous contents of the structure never influence the result.",
 ["inputs"],"all argument values and all prior contents of the configuration structure",
 "Tests build configurations in fresh storage with a few values; a field left over from earlier use, or crossed between dimensions that happen to be equal, is not observed.",
 ["lib/src/move/mli_mov_api.cc","include/api/mli_mov_api.h"],[("mli_mov_cfg_for_copy/slice/concat/subsample/permute/padding2d_chw/padding2d_hwc, mli_mov_cfg_all","lib/src/move/mli_mov_api.cc")],observe_at="fields of mli_mov_cfg_t after the call")
p("P14","Data-movement handles follow acquire, prepare, start, wait, release",
 "A synchronous move runs acquire, prepare, start and wait in that order, stops at the first failure, releases the handle on every path after a successful acquire and returns the first failing status. Acquire only hands out channels that lie inside the configured pool and were all free, marks exactly those in use and records them in the handle; release frees exactly the recorded channels; start marks the transfer done and runs the registered callback with its cookie; a handle is reported done only in the done state.",
 ["histories","fault_sequences","inputs"],"all sequences of data-movement calls, pool configurations and failing steps",
 "Channel leaks and state errors need failing steps or particular acquire/release histories that no test performs (the native tests run with an empty pool).",
 ["lib/src/move/mli_mov_api.cc"],[("mli_mov_tensor_sync, mli_mov_acquire_handle, mli_mov_release_handle, mli_mov_start, mli_mov_isdone, mli_mov_wait","lib/src/move/mli_mov_api.cc")],state="dma_pool.channel_status, mli_mov_handle_t",observe_at="handle fields, channel pool and returned status")
p("P15","Derived tensors get a complete and consistent header",
 "When a subtensor helper succeeds, every header field of the output tensor that describes it (data pointer, element type, rank, shape, strides where defined, quantization parameters) is written on every path, the data pointer is the input's pointer of the same element type advanced in elements of that type, and per-axis quantization pointers are advanced together. When conversion helpers fail internally they report that failure.",
 ["inputs"],"all valid inputs, element types and configurations",
 "Only some element types and rank reductions are exercised, and the returned status of the conversion is never observed failing.",
 ["lib/src/helpers/src/mli_helpers.cc"],[("mli_hlp_point_to_subtensor, mli_hlp_create_subtensor, mli_hlp_convert_tensor","lib/src/helpers/src/mli_helpers.cc")],observe_at="fields of the output tensor and returned status")
p("P16","Activation lookup tables are well-formed approximations",
 "Every entry of every built-in activation table (sigmoid, tanh, exp, inverse square root) equals the rounded value of the function it tabulates in the table's declared input and output formats, so the tables are monotone and as symmetric around the declared input offset as their function. The table-creation functions copy the whole table together with its length, fraction bits, input offset and element type into the user's table, need exactly the size that the matching get-size function reports, and the lookup functions index the table at input offset + floor(x / 2^shift), held to the ends of the table, and interpolate linearly between that entry and the next.",
 ["inputs"],"all entries of all built-in tables",
 "Tests sample a few dozen inputs of the interpolated function and accept them through checksums of small tensors; most entries are never read.",
 ["lib/src/private/src/mli_prv_activation_lut.cc"],[("sigmoid/tanh/exp/invsqrt tables and their activation_lut descriptors","lib/src/private/src/mli_prv_activation_lut.cc")],observe_at="activation outputs")
p("P17","Kernel views of a tensor keep extent and stride of every dimension",
 "The views through which the kernels reach tensor data (channel-first and channel-last feature maps, generic, axis and non-axis, weights in every layout, reordered, squashed and rotated views, element counts and element positions) give every dimension the extent and the memory stride of the tensor dimension it stands for and start at the tensor's data; dimensions are merged only where every tensor involved is contiguous; the position of an element is the sum of index times stride over all dimensions, and rotated views address the same elements mirrored or transposed.",
 ["inputs"],"all shapes, memory strides, ranks, axes and indices",
 "Tests use mostly contiguous tensors in which a stride equals the product of inner extents, so a crossed stride, a missing contiguity condition or a wrong fixed extent coincides with the right one.",
 ["lib/src/private/mli_prv_tensor.h"],[("mli_prv_get_tensor_chw/hwc, mli_prv_get_generic_tensor, mli_prv_get_axis_tensor, mli_prv_get_non_axis_tensor, mli_prv_squash_*, mli_prv_get_conv2d_weights_tensor_*, mli_prv_rotate_*, mli_prv_get_tensor_idx_pos, mli_prv_tensor_read/write","lib/src/private/mli_prv_tensor.h")],observe_at="elements read and written by the kernels")
p("P18","Requantization parameters come from the operands' own headers",
 "Every parameter of a requantization is derived from exactly the header fields of the operand it is named for, per tensor or per quantization axis: the bias and output shifts of fixed-point kernels from the fraction bits of input, weights, bias and output; the input, weights and output zero points, the input-to-output scale ratio and the shift of asymmetric kernels from the scale and scale fraction bits of the input, weights and output; the per-channel multiplier and shift from that channel's weights scale; the ReLU limits from the output's zero point, scale and fraction bits; the parameters of leaky ReLU and of element-wise kernels from the headers of both operands and the output; the reciprocal of average pooling from its window size. They are applied through the saturating primitives in the documented order: bias aligned to the accumulator before it is added, zero-point corrections with the opposite sign over the extents they are given, output multiplied, rounded and shifted, offset by the output zero point, saturated, and clipped to the ReLU limits last.",
 ["inputs"],"all header values, element types and quantization axes",
 "Tests fix one set of scales per kernel, often with equal fraction bits, per-tensor zero points of 0 or identical operand formats, so a parameter taken from the wrong operand coincides with the right one.",
 ["lib/src/bricks/impl/mli_prv_quant_ref.h","lib/src/private/mli_prv_tensor.h"],[("define_quant_params, define_requant_params, adjust_quant_params, weights_additive, in_additive, zp_additive, bias_additive, result_cast, ir_*, mli_prv_convert_*","lib/src/bricks/impl/mli_prv_quant_ref.h"),("mli_prv_get_relu_limits, mli_prv_calc_shift, mli_prv_calc_shift_idx","lib/src/private/mli_prv_tensor.h"),("calc_convert_params","lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h"),("calc_mul, get_mul_shift_value","lib/src/kernels/pooling/mli_krn_avepool_hwc.h")],observe_at="kernel outputs")
RT="lib/src/private/src/mli_runtime.cc"
p("P19","Kernels combine the documented elements in the documented order",
 "For every configuration and every tensor size and stride, each data kernel combines exactly the elements its documentation says and writes the result at the right place. For convolutions (plain, depthwise, group, transposed, with dilation) and pooling: the window of output (h, w) starts at h*stride_height - padding_top, w*stride_width - padding_left, steps by the dilation, is clipped to the input with the kernel clipped alike, runs over all channels (all of the group), and takes the bias of its output channel; average pooling divides by the number of elements actually in the window. Dense and recurrent kernels take the dot product of the whole input with the weights column of each output. Zero-point corrections (input zero point against the weights, for the symmetric weights the kernels document) cover the same elements as the sum they correct. Element-wise, activation, ReLU family, clip, rescale, permute, normalisation and argmax kernels visit every element once at its own strides, with the scale, shift and zero points of that element's channel. The accumulated value passes through bias, scaling, rounding, output offset and clipping in the documented order, with limits and parameters derived from the headers of the tensors involved.",
 ["inputs"],"all configurations, shapes and strides, for every data type and specialised variant the library instantiates",
 "Tests check a few shapes with packed strides, symmetric padding, unit dilation or equal height and width settings; an index, stride or clip that is wrong elsewhere, or in one specialised variant only, gives the same checksum.",
 ["lib/src/kernels","lib/src/bricks"],[("convolution2D, depthwise_convolution2D, group_convolution2D, transpose_conv2d_run","lib/src/kernels/convolution/impl"),("mli_krn_pool_hwc_*","lib/src/kernels/pooling/impl"),("dotprod, inner_product, rnn_dense_op, reduce","lib/src/bricks/impl"),("element-wise, transform and diverse kernels","lib/src/kernels/**/impl/*_ref.h")],observe_at="elements of the output tensor")
p("P20","Factories build the class that was asked for",
 "ExecutionInterface::Create inspects the kernel id stored in the private data and constructs, in the caller's buffer, the runtime class whose compile-time counterpart writes that id, passing the private data, its size and the memory bases through unchanged. It returns null and constructs nothing when the buffer is smaller than that class or the id is unknown, and ids of different kernels are distinct. Each method of the compile-time factory constructs the class it names in the caller's buffer from its arguments in their order and returns it, and the matching size query reports the size of that class.",
 ["programs","inputs"],"all kernels, private-data blobs and buffer sizes, all factory methods",
 "Each test creates one kernel with a correctly sized buffer; a wrong size guard or a crossed case shows only with other sizes or kernels.",
 [RT,"include/mli_runtime_api.hpp","include/mli_kernels_factory_ref.hpp","include/mli_types.hpp"],[("ExecutionInterface::Create",RT),("ref::KernelsFactory","include/mli_kernels_factory_ref.hpp"),("kernel_id_t","include/mli_types.hpp")],observe_at="dynamic type of the created object / null result")
p("P21","Compile-time settings survive the private-data round trip",
 "For every MLI 3.0 kernel, each setting captured by the compile-time object (tensor shapes, iterators, configuration fields, quantization parameters, element sizes) is copied into the private data and from there into the runtime member that plays the same role, so the runtime kernel computes with precisely the settings given at compile time. No field is left uninitialised, dropped, duplicated from another field or crossed with a sibling.",
 ["programs","inputs"],"all kernels and all settings",
 "Tests use symmetric or equal settings (equal strides, paddings, shapes) for many fields, so crossed or dropped fields coincide; fields unused by a tested variant are never observed.",
 ["lib/src/kernels","include/mli_ref_compiler_api.hpp","include/mli_ref_runtime_api.hpp"],[("GetKernelPrivateData of each *_CS","lib/src/kernels/**/*_compiler.cc"),("runtime constructors","lib/src/kernels/**/*_runtime.cc")],observe_at="settings used by Issue()")
p("P22","Attached buffers reach the tensors they were attached for",
 "For every MLI 3.0 kernel, AttachBufferOffsets binds each buffer argument to the corresponding tensor of the compile-time object, and after the round trip the runtime kernel reads and writes exactly that buffer for that tensor. Attaching succeeds only by binding all of them.",
 ["programs","histories"],"all kernels and all buffer bindings",
 "Buffers of equal element size, or unused optional buffers, can be crossed without any sampled test noticing.",
 ["include/mli_ref_compiler_api.hpp","lib/src/kernels"],[("AttachBufferOffsets of each *_CS","lib/src/kernels/**/*_compiler.cc")],observe_at="memory accessed by Issue()")
p("P23","Update advances every tile iterator exactly once",
 "For every tiled MLI 3.0 kernel, each call of Update() advances each tensor iterator of the kernel exactly once on every path, and then refreshes every cached tile view (subtensors, tile shapes and paddings) from the iterators before the next Issue(). No iterator is skipped, advanced twice or left with a stale tile.",
 ["histories","schedules"],"all sequences of Issue/Prefetch/Update and all tilings",
 "Tests use a few tilings in which some iterators do not move; a missed or doubled advance of such an iterator is not observed.",
 ["lib/src/kernels","include/mli_iterator.hpp"],[("Update() of each runtime class","lib/src/kernels/**/*_runtime.cc"),("TensorIterator::Next","include/mli_iterator.hpp")],observe_at="tile processed by the next Issue()")
p("P24","Issue dispatches on element sizes that match the data",
 "For every MLI 3.0 kernel, each successful path of Issue() runs the kernel implementation instantiated for element types whose sizes are the runtime element sizes tested on that path, on the tile tensors of this object, exactly once. Issue() does not report MLI_STATUS_OK on a path that ran no kernel, other than paths declared unsupported by assertion.",
 ["inputs","programs"],"all element-size combinations",
 "Only supported and popular combinations are tested; a case calling an instantiation of another width reads or writes beyond the tile for that combination only.",
 ["lib/src/kernels"],[("Issue() of each runtime class","lib/src/kernels/**/*_runtime.cc")],observe_at="output tile after Issue()")
p("P25","I/O position queries report each tensor's own tile",
 "GetIOSizesAndOffsets of every MLI 3.0 runtime kernel fills each output array from the iterator or tile of the tensor that the array is named for: sizes from the tile dimensions and offsets from the position of that same tensor. Every output array is filled and none is taken from a sibling tensor.",
 ["histories","inputs"],"all kernels, tilings and positions",
 "Tests compare only some arrays, with tilings for which sibling tensors share positions.",
 ["lib/src/kernels","include/mli_ref_runtime_api.hpp"],[("GetIOSizesAndOffsets of each runtime class","lib/src/kernels/**/*_runtime.cc")],observe_at="returned size and offset arrays")
p("P26","Encoded parameter buffers are written and read with one layout",
 "For every MLI 3.0 kernel that encodes weights, zero points or quantization parameters, the encoder writes each parameter at the offset from which the runtime later reads that same parameter with the same element width, the reported sizes of the encoded buffers cover the parameters (for combined buffers of weights and zero points, together), and the writes of different parameters do not overlap.",
 ["programs","inputs"],"all kernels, parameter shapes and element widths",
 "Tests use one or two shapes per kernel; a mismatch that depends on the channel count or width (padding, per-axis counts) is not sampled.",
 ["lib/src/kernels","lib/src/helpers"],[("EncodeWeights/EncodeWtsZeroPts/EncodeParams/EncodeInpZeroPts and Get*Size","lib/src/kernels/**/*_compiler.cc"),("readers in runtime kernels","lib/src/kernels/**/*_runtime.cc")],observe_at="parameters used by Issue()")
p("P27","Copying and reshaping iterators and tensors preserves each field",
 "Constructors, conversions and accessors of the buffers, Tensor, IteratorCfg, BufferIterator and TensorIterator transfer every field to the field of the same meaning: converting an iterator (to other buffers, to memory bases, for another tensor) keeps position, buffer offset, order, counts, first, middle and last increments and sizes, dropping an axis keeps those of each remaining axis in their own slots, slices, splits and combinations of a tensor address the same elements, getters return and setters change only the field they name. Next, Reset and GetSubTensor change position, tile index and buffer offset by exactly the increments of the configuration, restart an axis when its last tile was left, and deliver the size of the first, middle or last tile at the current position.",
 ["inputs","histories"],"all ranks, tilings and iteration histories",
 "Crossed fields are invisible whenever increments and sizes coincide, which holds for the tilings the tests use.",
 ["include/mli_iterator.hpp","include/mli_types.hpp"],[("IteratorCfg and TensorIterator constructors, Next, Reset, get_pos","include/mli_iterator.hpp"),("Tensor constructors","include/mli_types.hpp")],observe_at="positions and sub-tensors produced by iterators")
p("P28","Reported object and buffer sizes cover what is written",
 "For every MLI 3.0 kernel, GetRuntimeObjectSize returns the size of the runtime class the factory will construct, GetKernelPrivateDataSize returns exactly the number of bytes GetKernelPrivateData writes, the stored size and id header equals that class's constants, and the runtime constructor copies no more than that many bytes.",
 ["programs"],"all kernels",
 "Over-allocation in the tests hides a size that is too small; memory past the caller's buffer is not inspected.",
 ["lib/src/kernels","include/mli_ref_compiler_api.hpp",RT],[("GetKernelPrivateDataSize/GetRuntimeObjectSize/GetKernelPrivateData","lib/src/kernels/**/*_compiler.cc"),("runtime constructors","lib/src/kernels/**/*_runtime.cc")],observe_at="bytes written into caller buffers")
p("P29","Runtime objects are defined by their construction alone",
 "Constructing an MLI 3.0 runtime object from its private data and memory bases defines every member that Issue, Prefetch, Update and the queries later read, including the quantization parameters and headers of its internal tile tensors. The previous contents of the buffer the object is built in never influence what the kernel computes or which memory it touches.",
 ["inputs","histories"],"all runtime classes and all previous contents of the object buffer",
 "The tests build every object in zero-filled storage, where a member that is never initialised happens to hold a harmless value.",
 ["include/api/mli_ref_runtime_api.hpp","lib/src/kernels"],[("runtime constructors and methods","lib/src/kernels/**/*_runtime.cc")],observe_at="outputs of Issue() for objects built in dirty memory")
p("P30","Kernels and copies leave the documented output header",
 "Every MLI 2 kernel leaves in the header of its output tensor exactly what the documentation says. Convolution, dense, element-wise, average pooling and leaky or parametric ReLU kernels change no header field. Max pooling and ReLU copy the element parameters of the input; sigmoid, tanh, softmax and L2 normalisation set the fixed output format of the function (fraction bits, or scale, fraction bits of the scale, zero point, parameter type and no quantization axis); argmax describes plain integers; permute carries the element parameters over and moves the quantization axis with its dimension, filling the caller's per-axis arrays or referring to the input's; recurrent cells set rank, shape and strides for one or all time steps. Preparing a copy fills the whole destination header: rank, type, shape after selection, padding, subsampling and permutation, unused dimensions, element parameters with the permuted quantization axis, and memory strides from the configuration, the destination or the shape.",
 ["inputs"],"all headers, configurations and quantization axes, for every kernel entry point",
 "Tests reuse prepared output headers and compare data, so a field left stale, or changed although it belongs to the caller, usually already holds the expected value.",
 ["lib/src/kernels","lib/src/move/mli_mov_api.cc","doc/documents/mli_kernels"],[("header updates of the kernels","lib/src/kernels/**/*.cc"),("mli_mov_prepare","lib/src/move/mli_mov_api.cc")],observe_at="fields of the output tensor after the call")
p("P40","Kernels compute the documented arithmetic",
 "Each kernel's output equals, within the documented accuracy, the mathematical definition in the documentation (convolution sums, pooling, normalisation, recurrent cell equations, requantization) for every input tensor and configuration.",
 ["inputs"],"all tensors, configurations and quantization parameters",
 "Tests compare checksums of a few tensors.",
 ["lib/src/kernels","doc"],[("kernel implementations","lib/src/kernels/**/impl/*_ref.h*")],observe_at="output tensors")
p("P41","Kernel memory accesses stay inside the tensors",
 "For arguments accepted by the parameter checks, every element a kernel reads or writes lies inside the memory described by the tensor it belongs to, including borders, padding, dilation and partial tiles.",
 ["inputs"],"all accepted tensors and configurations",
 "Out-of-bounds accesses depend on run-time shapes, strides, paddings and dilations of which tests sample a few.",
 ["lib/src/kernels","lib/src/bricks"],[("pointer arithmetic of the reference kernels","lib/src/kernels/**/impl/*_ref.h*")],observe_at="addresses accessed")
p("P42","Tiled execution equals whole-tensor execution",
 "Running a tiled MLI 3.0 kernel over all tiles produced by its iterators writes the same output as one untiled run, for every legal tiling.",
 ["inputs","histories"],"all tilings and shapes",
 "Tests use a few tilings.",
 ["include/mli_iterator.hpp","lib/src/kernels"],[("TensorIterator","include/mli_iterator.hpp")],observe_at="complete output tensor")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
