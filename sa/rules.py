"""property -> (module, rule text, assumptions)"""
_C = ('For every parameter check of this family the accept condition (the condition over argument fields under which it returns OK) is '
      'computed by condition data-flow over the current IR and compared, by propositional entailment with comparison lemmas, with the '
      'confirmed requirement table sa/spec/checks.json: each requirement clause must be implied (nothing invalid accepted) and nothing '
      'else may be demanded (nothing valid rejected); no check may store to caller memory.')
_A = ['callee checks are compared on their own and appear as opaque calls in callers',
      'quantified conditions are compared by range text and by propositional entailment of their bodies',
      'native reference configuration (DBG_MODE_RET_CODES and up)']
RULES = {p: ('p_checks', _C, _A) for p in ('P02', 'P03', 'P04', 'P05')}

RULES['P06'] = ('p_fault', 'Every load, store and division in every parameter check, and every call of an internal helper that assumes valid arguments, '
                'must be reached only under a condition that entails the pointer is not null (the divisor is not zero); conditions come from the '
                'condition data-flow, the entailment uses the null-ness facts of checks that returned OK, computed from their own bodies.',
                ['helper preconditions are the reviewed table PRE and are discharged at each call site', 'native reference configuration'])

RULES['P01'] = ('p_entry', 'In every public entry that owns a parameter check: the confirmed check(s) are called with exactly the entry\'s own arguments; every read through a '
                'checked argument, every store outside locals and every other call is reached only under a condition entailing check == MLI_STATUS_OK; every value '
                'returned when a check failed is that check\'s status; on success OK or the status of the computation is returned.',
                ['check and implementation functions are kept as calls; everything else, including extracted helpers, is inlined', 'return-code builds'])
RULES['P07'] = ('p_entry', 'Each mli_krn_* entry, after inlining of everything but checks and implementation functions, calls exactly the implementation instantiation '
                '(function, template arguments: types, accumulator, quantization, layout, operation, fixed sizes) with exactly the arguments of the confirmed table '
                'sa/spec/entries.json and validates with the check and size of that table; header fields the entry writes itself have the confirmed values.',
                ['table reviewed against the naming scheme of the documentation'])

RULES['P13'] = ('p_mov', 'For every builder the value of every leaf of *cfg at every return is computed (ordered guarded store log over the current IR, loops and loops of stores '
                'summarised); each must have exactly the confirmed value, as a function of the arguments only, of sa/spec/P13.json.', ['native reference configuration'])
RULES['P14'] = ('p_mov', 'For every handle function the returned status, the handle fields at return, the stores to the channel pool and the callback table and the ordered guarded '
                'calls of the protocol are computed over the current IR and compared with the confirmed table sa/spec/P14.json; mli_mov_wait must not return on a path where mli_mov_isdone reported false.',
                ['the copying bricks do not touch the handle state', 'native reference configuration'])

_M = ['Tile, Next and sub-iterator operations are functions of the content of the iterator (their own behaviour is P27)', 'tensors have the rank of their type',
      'executions that read uninitialised memory are not spoken about', 'native reference configuration, assertions off']
_MR = ('For every kernel and every constructor / AttachBufferOffsets overload a probe uses only the public API to build the compile-time object, attach buffers, write the private data, '
       'construct the runtime object and run one step; the guarded store-log data-flow over the IR of the probe and the current sources resolves ')
RULES['P21'] = ('p_m3', _MR + 'every field of every argument of the low level kernel to an expression over the arguments given at compile time, which must equal the confirmed one of sa/spec/P21.json under every condition.', _M)
RULES['P22'] = ('p_m3', _MR + 'every data pointer, buffer size and element size handed to the low level kernel to the attached buffers and memory bases; confirmed table sa/spec/P22.json.', _M)
RULES['P23'] = ('p_m3', _MR + 'after Update(), which iterators were advanced (exactly once: Next of the original content) and that every field of the kernel arguments is that of the next tile; confirmed table sa/spec/P23.json.', _M)
RULES['P24'] = ('p_m3', _MR + 'which kernel instantiation (template arguments) is called under which condition on the element sizes, the element types of its arguments and the status returned; confirmed table sa/spec/P24.json.', _M)
RULES['P25'] = ('p_m3', _MR + 'every element of every array filled by GetIOSizesAndOffsets, before and after Update(), to the tile or position of one tensor; confirmed table sa/spec/P25.json.', _M)
RULES['P28'] = ('p_m3', _MR + 'the reported object, private-data and buffer sizes, the extent of what GetKernelPrivateData writes, the header it stores and the bytes the runtime constructor copies; confirmed table sa/spec/P28.json.', _M)

RULES['P08'] = ('p_eff', 'For every public entry and every method of the MLI 3 classes the set of places that may be written, through all calls, is computed as access paths from the parameters; '
                'nothing may be reached through a parameter whose type is read-only (recurrent cells: scratch_data excepted), the data container of an output tensor may not be changed, '
                'runtime steps write only through the output members, queries write nothing.', ['distinct parameters are distinct objects', 'native reference configuration'])
RULES['P09'] = ('p_eff', 'Over the linked library: the call graph has no cycle, every call out of the library is to a pure function (messages only outside of what runs a kernel), '
                'no static variable is written outside lib/src/move and the state there is used only there.', ['the callback registered by the user is not part of the library'])
RULES['P29'] = ('p_eff', 'Every field of a runtime object that one of its methods (through all calls) reads must be written by its constructor or by the same method; and the value every such field has when the constructor '
                'returns (guarded store log, assertions on) may not be the previous content of the object or an uninitialised local under any condition, except for the confirmed '
                'elements of element-wise operands beyond their rank.', ['what the fields of an iterator and of a tensor hold after their own operations is P27'])

RULES['P20'] = ('p_fact', 'ExecutionInterface::Create constructs class X exactly when the id in the private data is that of X and the buffer holds sizeof(X) bytes (sizes and ids evaluated '
                'from the current types), at the start of the buffer, from the private data, its size and the memory bases, returns it then and null otherwise, and stores nothing; every method of ref::KernelsFactory '
                'constructs, at the start of the buffer, the class it names from its own arguments in order and reports that class\'s size; ids are distinct; confirmed table sa/spec/P20.json.',
                ['the asserts on the buffer hold', 'native reference configuration'])

RULES['P27'] = ('p_iter', 'A probe instantiates every constructor and method of the buffer, tensor, configuration and iterator classes once; the value of every field of every object at return, every returned value and every '
                'other store is computed by the guarded store-log data-flow over the current IR and must equal, under every condition, the confirmed expression over the fields and arguments given (sa/spec/P27.json).',
                ['rank 3 instances (rank 1 and 2 where the expressions branch most)', 'the asserts hold', 'native reference configuration'])

_T = ('A probe names every function of this family once (ranks fixed so that loops over dimensions are followed one by one; functions gone under their name are listed as not decided); the returned value, every field of every '
      'object written and every other store is computed by the guarded store-log data-flow over the current IR and must equal, under every condition, the confirmed expression of sa/spec/%s.json.')
RULES['P12'] = ('p_tsr', _T % 'P12', ['element types are those of mli_element_type', 'native reference configuration'])
RULES['P15'] = ('p_tsr', _T % 'P15' + ' Headers are spoken about when the helper returns MLI_STATUS_OK; the argument check and the conversion itself are kept as calls with confirmed arguments.',
                ['ranks 1 to 4 in the instances of sa/probes/p15.cc', 'native reference configuration'])
RULES['P17'] = ('p_tsr', _T % 'P17', ['ranks 1 to 4 in the instances of sa/probes/p17.cc', 'native reference configuration'])

RULES['P18'] = ('p_tsr', _T % 'P18' + ' The saturating primitives of mli_math.h and the plain summations stay named terms (their own behaviour is P11 and the accumulation of the kernels), so the confirmed expression fixes which header field enters which step, in which order.',
                ['element types are those of mli_element_type', 'native reference configuration', 'the primitives of mli_math.h are kept as named terms'])
RULES['P26'] = ('p_tsr', _T % 'P26' + ' Encoders: every byte stored, with its offset in closed form, when the encoder returns MLI_STATUS_OK; readers: the base, offset, width and quantization axis with which the runtime objects reach '
                'each encoded parameter (the facts about them in sa/spec/P21, P22 and P25).', ['loop counters do not wrap around', 'native reference configuration'])

RULES['P16'] = ('p_lut', 'Tables: every element of the constant initialiser of each built-in table, read from the compiler IR, is compared with the rounded value of the tabulated function in the formats the descriptor declares. Creation: the descriptor each create function hands on (length, formats, offset, element type), the bytes it copies and the size the get-size function returns agree with that table. Lookups: for every instantiation in sa/probes/p16.cc the returned value, in closed form with clamps in min/max normal form (table read, index, interpolation), is the confirmed one of sa/spec/P16.json.',
                ['element types are those of mli_element_type', 'native reference configuration', 'the primitives of mli_math.h are kept as named terms'])
RULES['P11'] = ('p_prim', 'Abstract interpretation of every instantiation of the primitives over its LLVM IR (compiled from the current header in both rounding modes): octagon over the arguments, values in closed form 2^k*floor((a.x+c)/2^m), partitioned by path and by shift amount. Every signed add, subtract, multiply is shown in range on its region, every shift amount below the width, and on every region the returned closed form equals the requirement of sa/probes/p11_spec.h interpreted the same way.',
                ['shift amounts lie in [-32768, 32767]; saturation shifts in [0, width-1]', 'reference (non-vector) primitives', 'a rounding shift right rounds by a saturating addition in UP mode and returns 0 for shifts of the width or more (the documented behaviour of the tree)'])
RULES['P10'] = ('p_dbg', 'Arguments: with the checking macros and <assert.h> replaced by brackets, every expression given to a check, assertion or debug message in the library is found in the LLVM IR; no store, block write or callee write (access-path summaries) inside a bracket may reach memory used outside the brackets. Units: with the macros bracketed, each library source has the same tokens in all five debug modes, or the same stores, calls, branches and returned values. Macros: what each macro of the real header yields, and when it stops the program, in every mode with and without NDEBUG. Release: every constant a status-returning kernel entry can return in release mode is MLI_STATUS_OK.',
                ['native reference configuration', 'writes through pointers returned by calls inside a check are counted, not decided'])
RULES['P30'] = ('p_out', 'For every kernel entry point and fixed-rank instances of permute and mli_mov_prepare, the value of every header field of every output tensor when the function reports success is computed by the guarded store-log '
                'data-flow over the current IR and must equal, under every condition, the confirmed expression of sa/spec/P30.json; a field the table does not name must be what the caller put there. The data loops stay calls: the provenance '
                'of their stores shows that they cannot reach a header.', ['distinct parameters are distinct objects', 'data pointers do not point into headers', 'ranks 1 and 2 where a header loop runs over the rank', 'native reference configuration'])
RULES['P19'] = ('p_win', 'Each data loop and each one-element computation of the kernels (one unit per template instance the library uses) is summarised from the current IR: loops with a trip count known in closed form give their counters, pointers and reductions in '
                'closed form, so that every store through memory of the arguments, every call of another unit with what it is given (objects of the caller by their contents) and the returned value become guarded expressions over the parameters. They must equal, '
                'under every condition, the confirmed ones of sa/spec/P19.json.', ['arithmetic primitives (mli_math_*) are decided by P11 and stay symbols here', 'distinct parameters are distinct objects', 'extents are not negative', 'integer overflow of addresses does not occur', 'native reference configuration'])
TECH = {'p_win': 'closed-form data-flow of counted loops (addresses, trip counts, reductions and guarded calls) over normalised LLVM IR against a confirmed table',
        'p_dbg': 'interprocedural effect analysis of the checked expressions, comparison of the program across debug modes, and return-constant data-flow over LLVM IR',
        'p_out': 'guarded store-log data-flow (final value of every header field) with access-path provenance of the data loops over normalised LLVM IR against a confirmed table',
        'p_prim': 'abstract interpretation (octagon domain with closed-form values, partitioned by path and shift amount) over the LLVM IR of the instantiated primitives',
        'p_lut': 'constant-initialiser evaluation against the defining function and value data-flow (closed-form returned value with min/max normal form) over the LLVM IR of instantiated lookups',
        'p_tsr': 'guarded store-log data-flow (returned value and every field at return) over the LLVM IR of instantiated helpers against a confirmed table',
        'p_iter': 'guarded store-log data-flow (value of every field after every method) over the LLVM IR of instantiated classes against a confirmed table',
        'p_fact': 'guarded-call data-flow over the LLVM IR of the two factories against a confirmed table with symbolic sizes and ids',
        'p_eff': 'interprocedural access-path provenance (who may read and write what) over the LLVM IR of the linked library',
        'p_m3': 'guarded store-log data-flow through the compile-time/run-time object pair over normalised LLVM IR (devirtualised, inlined) against confirmed tables',
        'p_mov': 'guarded store-log data-flow (final value of every field at return, ordered guarded calls) over normalised LLVM IR against confirmed tables',
        'p_entry': 'call-site and guard analysis (condition data-flow) of every public entry over normalised LLVM IR against a confirmed table',
        'p_fault': 'guarded-access data-flow (null and zero guards) over normalised LLVM IR with computed callee summaries',
        'p_checks': 'condition data-flow over normalised LLVM IR of the type-checked program, compared with reviewed requirement tables'}
NA = {'P40': 'the result of a kernel on data is a sum of products over run-time extents; equality with the mathematical operation quantifies over values no sound static argument in reach bounds',
      'P41': 'whether an index stays inside a buffer depends on run-time shapes, strides, paddings and capacities whose products and sums no sound static analysis in reach relates to the (unrecorded) buffer length',
      'P42': 'equivalence of tiled and untiled execution relates two runs with different run-time iteration spaces; it is a relational numeric statement out of reach of dataflow'}
