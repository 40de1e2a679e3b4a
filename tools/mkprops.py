import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
I=["inputs","configurations"]
EXT="every lane, every x86 SIMD extension (SSE2, SSE4.2, AVX, AVX2, AVX-512 KNL, AVX-512 Skylake), the CPU emulation back-end and every API layer (C base, C advanced, C++ base, C++ packs with any unroll factor, scalar functions)"
WHY0="Generated tests draw a few small random values, run the C base API on SSE2..AVX2 and the other layers on AVX2 only; AVX-512 and CPU back-ends are never executed and extreme values never drawn."
X86="egg/platform_x86.py"; CPU="egg/platform_cpu.py"; SC="egg/scalar.py"; OPS="egg/operators.py"; CXX="egg/gen_adv_cxx_api.py"; CADV="egg/gen_adv_c_api.py"
prop("C01","Integer arithmetic is exact modulo 2^n in every lane",
 "For every integer element type, add, sub, mul, neg and the four fused multiply-add forms return in each lane the mathematical result reduced modulo 2^n, div returns the quotient truncated toward zero, and min, max and abs return the exact value. This holds whatever the lane position, the neighbouring lanes, the SIMD extension or the API layer used. Division by zero, INT_MIN/-1 and abs(INT_MIN) are outside the contract.",
 I,"All operand values of i8..i64/u8..u64; "+EXT+".",WHY0,
 [X86,CPU,SC,OPS,CXX,CADV],[("per-type instruction selection (8-bit mul/div, 64-bit mul/min/max emulation)","egg/platform_x86.py: mul2, div2, minmax, abs1, neg1, fma_fms"),("struct-of-lanes emulation","egg/platform_cpu.py: get_impl"),("scalar reference functions","egg/scalar.py: get_impl")],["nsimd_{add,sub,mul,div,neg,abs,min,max,fma,fms,fnma,fnms}_<ext>_<type>"])
prop("C02","Saturated add and sub clamp to the type's range",
 "adds and subs on integer types return the exact sum or difference clamped to the smallest or largest value of the element type, in every lane. On floating-point types they are the ordinary IEEE add and sub.",
 I,"All operand pairs of every element type; "+EXT+".","Existing tests sample random pairs; overflow in both directions next to the type limits (for example subtracting INT_MIN) is practically never drawn for 32/64-bit types.",
 [X86,CPU,SC],[("native saturating instructions and min/max/compare based emulation","egg/platform_x86.py: adds, subs"),("scalar clamp","egg/scalar.py: get_impl adds/subs")],["nsimd_{adds,subs}_<ext>_<type>"])
prop("C03","Floating-point arithmetic is IEEE-754 correctly rounded",
 "add, sub, mul, div, sqrt, rec, neg and abs on f32 and f64 return in each lane the IEEE-754 round-to-nearest-even result, including NaN, infinities, subnormals and signed zeros; on f16 they return the f16 rounding of the single-precision result. fma, fms, fnma and fnms return either the fused or the separately rounded a*b+c, a*b-c, -a*b+c, -a*b-c; min and max return the smaller or larger operand (either one when an operand is NaN or they compare equal); addv returns the sum of all lanes up to rounding order.",
 I,"All bit patterns of f16/f32/f64 operands; "+EXT+".","Existing tests use small positive normal numbers with tolerance in ULPs, so special values, signs of zero and last-bit errors in one lane are not observed.",
 [X86,CPU,SC,"src/fp16.cpp"],[("float intrinsics and sign-bit manipulation","egg/platform_x86.py: simple_op2, neg1, abs1, sqrt1, fma_fms, addv"),("f16 emulated on pairs of f32 registers","egg/platform_x86.py: f16 branches")],["nsimd_{add,sub,mul,div,sqrt,rec,neg,abs,fma,...,addv}_<ext>_{f16,f32,f64}"])
prop("C04","Bitwise operators and shifts act exactly on every bit",
 "andb, orb, xorb, notb and andnotb (a AND NOT b) compute the bitwise function of the operand representations for integer, f32 and f64 lanes (for f16, of the 16 bits or of the widened f32 operands). shl and shr shift by any amount in [0, n) filling with zeros, shra fills with the sign bit for signed types and with zeros for unsigned types; no bit ever crosses a lane boundary.",
 I,"All operand bit patterns and all shift counts 0..n-1; "+EXT+".","Random tests sample shift counts and small values; emulated 8-bit and 64-bit shifts have per-count masks that a few samples do not exercise.",
 [X86,CPU,SC],[("emulated 8-bit shifts and 64-bit arithmetic shifts","egg/platform_x86.py: shl_shr, shra"),("bit reinterpretation for floats","egg/platform_cpu.py, egg/scalar.py")],["nsimd_{andb,orb,xorb,notb,andnotb,shl,shr,shra}_<ext>_<type>"])
prop("C05","Comparisons, logicals and selection are exact per lane",
 "eq, ne, lt, le, gt, ge return for each lane the truth value of the IEEE/integer comparison (a NaN operand makes all but ne false); andl, orl, xorl, notl, andnotl, if_else1 and the conversions between logicals, masks and stored 0/1 values compute the boolean function lane by lane. all, any and nbtrue report exactly whether all lanes are true, whether some lane is true and how many are true.",
 I,"All operand bit patterns, all mask patterns; "+EXT+".",WHY0,
 [X86,CPU,SC,CXX],[("signed-compare emulation of unsigned compares, movemask reductions, AVX-512 mask registers","egg/platform_x86.py: comp, all/any/nbtrue, to_mask, to_logical, if_else1"),("recursion over unrolled packs","include/nsimd/cxx_adv_api.hpp: all, any, nbtrue, if_else")],["nsimd_{eq,ne,lt,le,gt,ge,andl,orl,xorl,notl,andnotl,if_else1,all,any,nbtrue,to_mask,to_logical}"])
prop("C06","Rounding operators return the exact integral value",
 "floor, ceil, trunc and round_to_even return, for every floating-point lane, the integral value defined by the rounding direction (ties to even for round_to_even), return values of large magnitude, infinities and NaN unchanged, and are the identity on integer types.",
 I,"All bit patterns of f16/f32/f64 (sampled for f64) and integer values; "+EXT+".","Tests use small random values; half-way cases, values around 2^23/2^52, subnormals, infinities and NaN are not drawn, and the SSE2 emulation only fails there.",
 [X86,CPU,SC],[("SSE2 emulation through integer conversion and magic constants","egg/platform_x86.py: trunc1, round1, round_to_even1"),("scalar emulation","egg/scalar.py: get_impl round_to_even")],["nsimd_{floor,ceil,trunc,round_to_even}_<ext>_<type>"])
prop("C07","Conversions and reinterpretations preserve values and bits",
 "cvt, upcvt and downcvt map each lane, in order, to the converted value: exact when representable, modulo 2^n when narrowing integers, round-to-nearest when the destination is a float that cannot hold the value. upcvt yields the low half then the high half, downcvt concatenates its two operands, and reinterpret/reinterpretl keep every bit (resp. truth value); converting a float to an integer is only specified for integral values that fit.",
 I,"All source values within the stated domain for every (from,to) type pair accepted by the operator; "+EXT+".","Tests convert a few small random positive values, where sign extension, 64-bit halves, unsigned top bit, and rounding of large integers never matter.",
 [X86,CPU,SC],[("64-bit integer to float conversions, halves shuffles, f16 emulation","egg/platform_x86.py: convert1, upcvt1, downcvt1, reinterpret1, reinterpretl1"),("emulated half registers","egg/platform_cpu.py")],["nsimd_{cvt,upcvt,downcvt,reinterpret,reinterpretl}_<ext>_<to>_<from>"])
prop("C08","Contiguous loads/stores move exactly one register of memory",
 "loadu/loada return the len() consecutive elements at the pointer in order and storeu/storea write exactly those elements, touching no byte outside; set1/set1l replicate the value in all lanes, iota returns 0,1,2,..., len is the register width divided by the element size, and loadl/storel map zero/non-zero elements to false/true and back to 0/1. This holds for unaligned pointers with the u forms and for any unroll factor of packs.",
 I,"All element values, all (mis)alignments, placement next to unmapped memory; every element type; "+EXT+".","Tests use aligned heap arrays with slack and compare only the expected elements, so neighbouring bytes and alignment-dependent faults are not observed.",
 [X86,CPU,CXX,"include/nsimd/nsimd.h","include/nsimd/cxx_adv_api.hpp"],[("load/store selection","egg/platform_x86.py: load1234, store1234, loadl, storel, set1, iota"),("pack offsets","egg/gen_adv_cxx_api.py")],["nsimd_{loadu,loada,storeu,storea,loadlu,loadla,storelu,storela,set1,set1l,iota,len}"])
prop("C09","Masked loads/stores only touch and use active lanes",
 "masko_loadu1/loada1 return memory for active lanes and the 'otherwise' vector for inactive ones, maskz variants return zero, mask_storeu1/storea1 write active lanes only; memory of inactive lanes is never read (it may be unmapped) nor modified. mask_for_loop_tail(i, n) is true in lane j exactly when i + j < n, so a masked tail processes every element of an array exactly once.",
 I,"All masks, values, array lengths and tail positions with the array ending at an unmapped page; "+EXT+".","Tests use random masks over fully allocated aligned buffers, so reads or read-modify-writes of inactive lanes are invisible.",
 [X86,CPU,CXX],[("maskload/maskstore vs lane-wise fallback","egg/platform_x86.py: maskoz_load, mask_store, mask_for_loop_tail"),("pack recursion","egg/gen_adv_cxx_api.py")],["nsimd_{masko_loadu1,maskz_loadu1,mask_storeu1,...,mask_for_loop_tail}"])
prop("C10","Structure loads/stores deinterleave and interleave exactly",
 "load2/3/4{u,a} split k*len() consecutive elements so that register r holds member r of every structure, each lane holding the same structure in all k registers; lanes follow memory order on CPU, SSE and for k = 3, elsewhere a fixed order shared by the u and a forms and by loads and stores of that degree and type. store2/3/4{u,a} write the inverse permutation, both touch exactly k*len() elements, so a store after a load reproduces the memory bit for bit.",
 I,"All element values, alignments and placements next to unmapped memory; every element type, k in {2,3,4}; "+EXT+".","Tests compare sums of the loaded vectors on few random values, which a wrong permutation of equal sums or an access outside the block can survive.",
 [X86,CPU,CXX],[("shuffle networks per type and extension","egg/platform_x86.py: load1234, store1234, assoc* helpers"),("pack recursion with set_car/set_cdr","egg/gen_adv_cxx_api.py")],["nsimd_{load2u,load3u,load4u,store2u,...}_<ext>_<type>"])
prop("C11","Gather and scatter address exactly base + index elements",
 "gather returns, in lane j, the element at base[index_j] and scatter stores lane j at base[index_j] (last lane wins is not promised, so indices are distinct); the linear forms use base[j*step]. Negative indices are honoured, no other element is read or written, and results do not depend on the extension or on the unroll factor.",
 I,"All in-range index vectors (including negative and extreme spreads) and steps; every supported element type; "+EXT+".","Tests use small non-negative consecutive-like indices on AVX2.",
 [X86,CPU,CXX],[("hardware gather vs lane-wise emulation; 16-bit element emulation","egg/platform_x86.py: gather, gather_linear, scatter, scatter_linear"),("pack recursion","egg/gen_adv_cxx_api.py")],["nsimd_{gather,scatter,gather_linear,scatter_linear}_<ext>_<type>"])
prop("C12","Zip and unzip permute lanes exactly and are mutually inverse",
 "ziplo/ziphi interleave the low/high halves of two registers, unziplo/unziphi collect the even/odd lanes of their concatenation, zip/unzip return both parts; every output lane is bit-identical to the documented input lane and unzip(zip(a,b)) is (a,b).",
 I,"All lane contents, every element type; "+EXT+".","Tests compare against a reference on few random values for SSE2..AVX2; the AVX-512 shuffle tables are never run.",
 [X86,CPU,CXX],[("unpack/permute networks","egg/platform_x86.py: zip_half, unzip_half, zip, unzip")],["nsimd_{ziplo,ziphi,unziplo,unziphi,zip,unzip}"])
prop("C13","Approximate reciprocal operators meet their stated precision",
 "For every input whose exact result is a normal number, rec8/rsqrt8 have relative error at most 2^-8 and rec11/rsqrt11 at most 2^-11, in every lane; zero maps to infinity and infinity to zero for rec8/rec11 and rsqrt8/rsqrt11.",
 I,"All floats (every f16, dense f32 sweep, sampled f64); "+EXT+".","Tests measure the error on a few random normal values near 1.",
 [X86,CPU,SC],[("rcp/rsqrt intrinsics with Newton refinement","egg/platform_x86.py: rec11rsqrt11, rec8rsqrt8")],["nsimd_{rec8,rec11,rsqrt8,rsqrt11}"])
prop("C14","Elementary functions meet their stated ULP bound",
 "Each elementary math function (sin, cos, tan, asin, acos, atan, atan2, exp, exp2, exp10, expm1, log, log2, log10, log1p, sinh, cosh, tanh, asinh, acosh, atanh, cbrt, hypot, pow, sinpi, cospi, erf, erfc, lgamma, tgamma, fmod, remainder) with suffix uXX is within X.X ULP of the exact result in every lane over its documented domain. Special arguments (zeros, infinities, NaN, out-of-domain) give the value the C standard prescribes, and lanes never influence one another.",
 I,"All f32/f64 (and f16) arguments within the documented ranges; "+EXT+".","Tests compare with the host libm on a few random arguments with a loose tolerance; range-reduction boundaries, subnormals, huge arguments and special values are not reached.",
 ["src/sleefsimdsp.c","src/sleefsimddp.c","src/sleefsp.c","src/sleefdp.c","src/rempitab.c","egg/gen_archis.py",X86,OPS],[("Sleef kernels compiled per extension","src/sleefsimd{sp,dp}.c with helper<ext>.h"),("wrappers for f16 and for CPU lanes","egg/operators.py SrcOperator, egg/platform_cpu.py")],["nsimd_<fn>_uXX_<ext>_<type>"])
prop("C15","f16 conversion is exact, rounds to nearest even and keeps specials",
 "Converting any f16 to f32 is exact, converting any f32 to f16 rounds to nearest even, saturates to infinity on overflow, handles subnormals and keeps NaN and the sign, both in the scalar functions and in f16 vector loads and stores. The f16/f32/f64 classification helpers isnan and isinf hold exactly for NaNs and infinities, and isnormal is false exactly for subnormals, in the three formats alike.",
 I,"All 2^16 f16 values and all 2^32 f32 values; builds with and without hardware f16 support.","The existing fp16 test checks a limited number of values and rounding cases.",
 ["src/fp16.cpp","include/nsimd/nsimd.h",X86],[("bit-level conversion","src/fp16.cpp: nsimd_u16_to_f32, nsimd_f32_to_u16"),("classification macros","include/nsimd/nsimd.h: nsimd_isnan_*, nsimd_isinf_*, nsimd_isnormal_*")],["nsimd_f32_to_f16, nsimd_f16_to_f32, nsimd_isnan_f16..."])
prop("C16","Scalar functions agree with vector lanes on every input",
 "For every operator that has a scalar counterpart, applying the scalar function to the elements one by one gives bit for bit (NaN payloads and bitwise operators on f16 aside; approximate operators within their precision, fused multiply-adds fused or not) the lanes produced by the vector operator, in C and C++.",
 I,"All inputs of every operator, type, x86 extension and the CPU back-end on which the operator is specified.","Tests of the vector API compare against the scalar functions themselves on few random values; nothing checks edge inputs.",
 [SC,"egg/gen_scalar_utilities.py",X86,CPU],[("scalar implementations","egg/scalar.py: get_impl"),("generated header scalar_utilities.h","egg/gen_scalar_utilities.py")],["nsimd_scalar_<op>_<type>, nsimd::scalar_<op>"])
prop("C17","Pack expressions equal element-wise evaluation for any unroll",
 "A program written with C++ packs (overloaded and compound operators, named functions, masked and templated loads/stores, reductions, if_else, get_pack/to_pack) computes exactly what the same scalar expression computes element by element, for every unroll factor N, and len(pack) is N times the register length.",
 ["programs","inputs","configurations"],"All well-typed expressions over packs, all inputs, N in 1..4+, every extension.","Tests instantiate each operator alone with fixed small N on AVX2; compositions, odd N and cross-register effects are not covered.",
 ["include/nsimd/cxx_adv_api.hpp",CXX],[("car/cdr recursion","egg/gen_adv_cxx_api.py: gen_functions"),("hand-written overloads","include/nsimd/cxx_adv_api.hpp")],["nsimd::pack, packl, packx2..4"])
prop("C18","All API layers expose the same operator semantics",
 "For every operator and element type, the C base functions and macros, the C11 generic interface, the C++ base overloads, the C++ pack interface and its overloaded operators give bit-identical results (NaN payloads aside) for the same extension and inputs.",
 I,"All operators, types, extensions, API layers and inputs.","Each layer is tested alone against a tolerance, most of them for AVX2 only; wrong forwarding for a rare type/extension pair is not observed.",
 [CADV,CXX,"egg/gen_base_apis.py","include/nsimd/nsimd.h","include/nsimd/c_adv_api.h"],[("_Generic dispatch","egg/gen_adv_c_api.py"),("macro and template forwarding","egg/gen_base_apis.py, include/nsimd/nsimd.h")],["vadd, nsimd_add, nsimd::add, operator+"])
prop("C19","Aligned allocation returns disjoint, aligned, intact memory",
 "Memory obtained through the aligned allocation functions, the typed helpers, the scoped helper and the standard allocator is aligned for every SIMD type, large enough, never overlaps another live block and keeps its content until freed, through any history of allocations and releases; a container using the allocator behaves like the standard one. Impossible requests (whose byte size overflows) are refused rather than under-allocated.",
 ["histories","inputs"],"All interleavings of allocate/write/free with arbitrary sizes, through every allocation entry point.","The tests allocate a handful of blocks and check nothing about overlap or histories.",
 ["src/memory.cpp","include/nsimd/nsimd.h"],[("posix_memalign wrapper","src/memory.cpp: nsimd_aligned_alloc"),("allocator and helpers","include/nsimd/nsimd.h: allocator, aligned_alloc_for, scoped_aligned_mem_for")],["nsimd_aligned_alloc, nsimd::allocator"])
prop("C20","Fixed-point numbers follow raw scaled-integer arithmetic",
 "For every format (lf integer bits, rt fraction bits), construction from a float keeps exactly representable values exact, converting back returns raw/2^rt, add and sub are exact, mul is floor(a*b*2^-rt) on raw values and div truncates toward zero, whenever the intermediate fits the storage type; comparisons order values like the reals they represent. The SIMD (pack) versions give the same raw result in every lane, and loads/stores are raw copies.",
 I,"All representable operand values whose result is representable, for all formats, scalar and SIMD.","Tests use one or two formats and a few random values with tolerance.",
 ["include/nsimd/modules/fixed_point/","include/nsimd/modules/fixed_point.hpp"],[("raw arithmetic","include/nsimd/modules/fixed_point/function/*.hpp"),("SIMD overloads","include/nsimd/modules/fixed_point/function/simd_*.hpp")],["nsimd::fixed_point::fp_t, operators"])
prop("C21","tet1d expressions equal the scalar loop for every length and mask",
 "Evaluating a tet1d expression into an output writes element i of the scalar expression for every i in range, for any array length (including lengths below and not multiple of the register), any nesting, scalar literals, slices and unroll factor; a masked output changes exactly the elements whose mask is true. No element outside the destination range is written.",
 ["programs","inputs","configurations"],"All well-typed expressions, lengths, slices and inputs; CPU targets of every extension.","Tests evaluate single operators on one fixed length on AVX2.",
 ["egg/modules/tet1d/","include/nsimd/modules/tet1d.hpp"],[("kernel loop and scalar tail","include/nsimd/modules/tet1d.hpp: cpu_kernel_component_wise"),("expression templates","include/nsimd/modules/tet1d.hpp")],["tet1d::in, tet1d::out, TET1D_OUT, TET1D_IN"])
prop("C22","SPMD kernels behave as independent per-thread C programs",
 "Running an SPMD kernel over n threads gives, for each thread, the result of executing the kernel body as plain sequential C for that thread index: nested if/elseif/else, while loops, break, continue and return only affect the threads that take them, and threads beyond n have no effect. This holds for every n, unroll factor, element width and extension.",
 ["programs","inputs","configurations"],"All kernels built from the DSL, all n, inputs, unroll factors and extensions.","Tests only launch straight-line kernels generated per operator; no control flow at all is exercised.",
 ["include/nsimd/modules/spmd.hpp","egg/modules/spmd/"],[("mask algebra of k_if/k_while/k_break/k_continue/k_return","include/nsimd/modules/spmd.hpp"),("masked assignment k_set and masked k_store tails","include/nsimd/modules/spmd.hpp: k_set_, k_store")],["spmd_kernel_1d, spmd_launch_kernel_1d"])
prop("C23","Counter-based random generators match the reference algorithm",
 "Every Philox and Threefry generator returns, lane by lane, the value defined by the published counter-based algorithm with the given word size, number of words and rounds, for every counter and key, independent of extension and neighbouring lanes.",
 I,"All counters and keys for all generator variants; every extension.","Tests compare with a reference for a few counters on AVX2.",
 ["egg/modules/random/","include/nsimd/modules/random/functions.hpp"],[("generated rounds and key schedules","egg/modules/random/hatch.py")],["nsimd::random::philox_*, threefry_*"])
prop("C24","Host/device memory helpers preserve content and never lose blocks",
 "Through any history of device/pair allocations, fills, copies and frees, the data read back on the host equals what was last written, calloc variants are zero filled, copies move exactly the requested number of elements, and releasing leaves the other blocks intact. A request whose byte size overflows or cannot be satisfied is reported as a failure, never as a short block.",
 ["histories","inputs"],"All sequences of memory_management operations with arbitrary element types and sizes (CPU back-end).","Only a single allocate/copy/free sequence is exercised.",
 ["include/nsimd/modules/memory_management.hpp"],[("copy and pair helpers","include/nsimd/modules/memory_management.hpp")],["nsimd::device_malloc, pair_malloc, copy_to_host..."])
prop("C25","Floating comparison helper ufp counts common leading bits exactly",
 "For every pair of normal f16, f32 or f64 values, the ufp helpers return the significand precision minus the bit length of the difference of their magnitudes counted in units in the last place of the smaller one (signs are ignored, as documented), and nothing positive when the exponents differ by more than one or no bit agrees. The result is symmetric and maximal exactly on equal magnitudes, so agreement is never over-reported.",
 ["inputs"],"All pairs of values of the three float types.","Tests check a few hand-written pairs.",
 ["src/ufp.cpp","include/nsimd/nsimd.h"],[("bit-level comparison","src/ufp.cpp: nsimd_ufp_*")],["nsimd_ufp_f16, nsimd_ufp_f32, nsimd_ufp_f64"])
prop("C26","Register programs give the same result on every extension",
 "Any straight-line program over SIMD registers (arithmetic, bitwise, logical, comparison, selection, permutation, conversion and memory operators mixed, intermediates kept in registers) computes on every extension what the operator-by-operator reference model computes, so code is portable across extensions without change.",
 ["programs","inputs","configurations"],"All finite operator sequences over a register file, all initial contents, every extension and element type.","Existing tests apply one operator at a time between a load and a store, so a non-canonical mask or internal representation that a second operator misreads is never seen.",
 [X86,CPU],[("canonical representation of vectors and logicals between operators","egg/platform_x86.py, egg/platform_cpu.py")],["all nsimd_<op>_<ext>_<type>"])
prop("C27","The code generator is deterministic and subset-consistent",
 "Regenerating the library from the same sources produces byte-identical files whatever the history of earlier runs (full, restricted, forced or incremental) and the hash seed. Restricting generation to a subset of SIMD extensions yields for those extensions, and for the files they share, exactly the files of a full generation, so a library built for one extension does not depend on what else was generated. Listing the files (-L) writes nothing and names exactly the library files that generation with the same options writes, each once; a run without --force creates missing files and leaves every existing one as it is.",
 ["configurations","histories"],"All subsets of SIMD extensions accepted by the generator, all sequences of runs and hash seeds.","Nothing in the test-suite runs the generator twice or with options.",
 ["egg/hatch.py","egg/common.py","egg/gen_archis.py"],[("file emission","egg/common.py: open_utf8, can_create_filename"),("option parsing","egg/hatch.py: parse_args")],["egg/hatch.py output tree"])
prop("C28","Printing a register shows every lane once and reports failures",
 "put, putl and their macros write exactly '{ x0, x1, ... }' with every lane in order, formatted with the given or the default conversion, and return the number of characters written, or a negative number when the stream refuses a byte. The stream operators of pack and packl print every lane of every register in order, logical lanes as 0 or 1.",
 ["inputs","fault_sequences","configurations"],"All lane contents, types, formats, stream states and failure points; every extension.","No test prints a register.",
 ["egg/gen_src.py","egg/gen_archis.py","include/nsimd/cxx_adv_api.hpp"],[("put functions of the binary library","egg/gen_src.py: get_put_impl"),("stream operators","include/nsimd/cxx_adv_api.hpp: operator<<")],["nsimd_put_<ext>_<type>, nsimd::put, nsimd::putl, operator<<"])
prop("C29","Operators and modules keep no hidden state and are thread safe",
 "The result of any operator, elementary function or module call depends only on its operands: it is the same bits after any history of other calls and while other threads call the same or other functions on their own data. No call changes the floating-point control state (rounding mode, flush-to-zero, exception masks) of the caller.",
 ["schedules","histories","inputs"],"All interleavings of calls from several threads on disjoint data, all call histories, every operator, type and extension.","The tests are single threaded and evaluate each operator once per process, so a shared temporary or a leaked rounding mode is invisible.",
 [X86,CPU,SC,"src/","include/nsimd/modules/"],[("stateless operator bodies, local temporaries only","egg/platform_x86.py, egg/platform_cpu.py"),("elementary functions","src/sleefsimd*.c")],["all nsimd_<op>_<ext>_<type>, modules"])
prop("C30","Public headers combine freely across units, standards and compilers",
 "Any subset of the public headers, included in any order and any number of times, in any number of C and C++ translation units linked together, compiles with every supported language standard (C89 to C17, C++98 to C++20), GCC or Clang, optimisation level and extension, and the resulting program computes the same values.",
 ["configurations","programs"],"All combinations of headers, translation units, languages, standards, compilers, optimisation levels and extensions available here.","Each test is one translation unit built with one standard and compiler.",
 ["include/nsimd/","egg/gen_modules.py","egg/gen_adv_cxx_api.py"],[("inline definitions and include guards","include/nsimd/*.h*, include/nsimd/modules/*"),("language detection and concepts","include/nsimd/nsimd.h")],["nsimd/nsimd.h, nsimd/nsimd-all.hpp, nsimd/modules/*.hpp"])
prop("C31","Operators touch only the memory and lanes they own",
 "A call of any operator reads and writes nothing but its register operands, the memory block its documentation names (exactly len(), len()*k or the selected elements) and its own properly sized temporaries; it never runs past a stack temporary or a lookup table. Results are right in a build instrumented with AddressSanitizer exactly as in a normal build.",
 I,"All operands, types, extensions; memory blocks at page and block ends.","The tests work on large static buffers and are not instrumented, so reading one element too many of a temporary changes nothing they see.",
 [X86,CPU,SC],[("emulation through stack buffers","egg/platform_x86.py, egg/platform_cpu.py"),("lookup tables","egg/platform_x86.py: iota, mask_for_loop_tail")],["nsimd_<op>_<ext>_<type>"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
