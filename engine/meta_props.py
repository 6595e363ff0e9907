prop("C01", "Element-wise arithmetic equals scalar arithmetic in every lane",
     "For every vector type and instruction set, each lane of a+b, a-b, a*b, a/b, -a, ++a, a++, --a, a--, of the compound assignments and of the "
     "forms with a scalar operand equals the scalar operation on that lane's operands. Integers wrap modulo 2^n; integer division truncates "
     "exactly for all defined operand pairs; floating point is IEEE-754 round-to-nearest.",
     ["inputs", "configurations"], "all operand bit patterns in all lanes (division: b != 0 and not MIN/-1), every vector type, Scalar/SSE2..AVX2",
     WHY + "Integer multiplication and division are emulated (through float or double) differently per instruction set.",
     ["Vc/sse/vector.tcc", "Vc/sse/detail.h", "Vc/avx/detail.h", "Vc/avx/vector.tcc", "Vc/scalar/operators.h", "Vc/common/operators.h"],
     [("integer mul/div emulation", "Vc/sse/detail.h, Vc/avx/detail.h: mul, div"), ("ushort division with saturation workaround", "Vc/sse/vector.tcc, Vc/avx/vector.tcc operator/"),
      ("operand promotion", "Vc/common/operators.h: ReturnType")])
prop("C02", "Comparisons and logical tests give the scalar result per lane",
     "For every vector type and instruction set, lane i of a==b, a!=b, a<b, a<=b, a>b, a>=b, !a, a&&b and a||b is true exactly when the scalar "
     "expression is true for that lane's operands, including NaN, infinities, signed zeros and the unsigned/signed extremes.",
     ["inputs", "configurations"], "all operand bit patterns in all lanes, vector/vector, vector/scalar and mixed operand types",
     WHY + "Unsigned compares are emulated by biasing and NaN handling depends on which compare predicate is used.",
     ["Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/avx/detail.h", "Vc/sse/intrinsics.h", "Vc/common/operators.h"],
     [("compare predicates", "Vc/sse/vector.tcc, Vc/avx/vector.tcc"), ("unsigned compare emulation", "Vc/sse/intrinsics.h cmplt_epu*, Vc/avx/intrinsics.h cmpgt_epu*")])
prop("C03", "Integer bit operations, shifts and remainder are exact per lane",
     "For every integer vector type and instruction set, each lane of &, |, ^, ~, <<, >> (by a scalar or by a vector) and % and their compound "
     "assignments equals the C++ operation on that lane, with arithmetic right shift for signed and logical for unsigned types.",
     ["inputs", "configurations"], "all operand bit patterns; shift counts 0..bits-1; divisor != 0 and not MIN/-1",
     WHY + "Per-lane variable shifts and the remainder are emulated.",
     ["Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/sse/detail.h", "Vc/avx/detail.h", "Vc/scalar/operators.h"],
     [("shift emulation", "Vc/sse/vector.h operator<<(AsArg), Vc/avx/vector.h"), ("remainder through division", "Vc/sse/vector.tcc, Vc/avx/vector.tcc operator%")])
prop("C04", "Loads and stores move exactly Size elements, converted like static_cast",
     "A load reads exactly Size consecutive elements of the memory type and yields their static_cast to the vector's entry type, lane i from element i; "
     "a store writes exactly Size elements and nothing else; masked stores write only lanes whose mask is set. Aligned accesses need only the "
     "documented alignment and unaligned ones none.",
     ["inputs", "configurations"], "all element values, all vector types, all supported memory types, all load/store flags",
     WHY + "Over-reading by a wide register load or touching a masked-out element is invisible to a value comparison.",
     ["Vc/common/loadinterface.h", "Vc/common/storeinterface.h", "Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/sse/detail.h", "Vc/avx/detail.h", "Vc/scalar/vector.tcc"],
     [("converting loads", "Vc/sse/detail.h, Vc/avx/detail.h: load"), ("masked stores", "Vc/sse/vectorhelper.h, Vc/avx/vectorhelper.h: store with mask")])
prop("C05", "Masked operations change exactly the selected lanes",
     "A write through a mask (v(m) op= x, where(m)|v op= x, masked ++/--, assign, setZero(m), setZeroInverted(m), conditional assignment) gives the "
     "operation's result in lanes where the mask is set and leaves every other lane bit-identical; iif(m, a, b) selects lane-wise.",
     ["inputs", "configurations"], "all vector values, all masks, all compound operators and vector types",
     WHY + "All 2^Size masks times all operand values have to be covered.",
     ["Vc/common/where.h", "Vc/common/writemaskedvector.h", "Vc/common/iif.h", "Vc/sse/vector.h", "Vc/avx/vector.h", "Vc/sse/vectorhelper.h"],
     [("blend", "Vc/sse/vectorhelper.h, Vc/avx/vectorhelper.h: blend"), ("masked proxy", "Vc/common/where.h MaskedLValue, Vc/common/writemaskedvector.h")])
prop("C06", "Masks behave as arrays of independent bools",
     "A mask is observationally an array of Size bools: logical operators act lane-wise, ==/!= compare all lanes, count, toInt, firstOne, isFull, "
     "isEmpty, isMix, all_of/any_of/none_of/some_of follow from the lanes, lane reads and writes affect one lane, shifted moves lanes, where(mask) "
     "visits the set lanes once in ascending order, and loading/storing bools touches exactly Size bytes.",
     ["inputs", "configurations"], "all masks of every vector type",
     WHY + "Mask words have per-type layouts and population counts are emulated without POPCNT.",
     ["Vc/sse/mask.h", "Vc/sse/mask.tcc", "Vc/avx/mask.h", "Vc/avx/mask.tcc", "Vc/scalar/mask.h", "Vc/common/iterators.h"],
     [("mask_count/mask_to_int", "Vc/sse/mask.tcc, Vc/avx/mask.tcc"), ("mask load/store", "Vc/sse/mask.tcc mask_load, mask_store; Vc/avx/mask.tcc")])
prop("C07", "Gathers and scatters access exactly the addressed elements",
     "v.gather(mem, idx[, mask]) / V(mem, idx[, mask]) sets lane i to mem[idx[i]] (unselected lanes keep their value, or are zero in a constructor) and "
     "reads no other memory, whatever the indexes of unselected lanes are; v.scatter(mem, idx[, mask]) writes each selected lane to its element and "
     "nothing else, for converting memory types, index vectors, index arrays and every gather implementation variant.",
     ["inputs", "configurations"], "all memory contents, all index values in range, all masks; memory of 5 elements of each type",
     WHY + "Out-of-extent reads and accesses through indexes of unselected lanes are invisible unless the element lies at the end of a page.",
     ["Vc/common/gatherinterface.h", "Vc/common/scatterinterface.h", "Vc/common/gatherimplementation.h", "Vc/common/scatterimplementation.h", "Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/avx/vector.h"],
     [("masked gather loops", "Vc/common/gatherimplementation.h executeGather"), ("hardware gathers", "Vc/avx/vector.h, Vc/sse/vector.h gatherImplementation")],
     note="memory of 5 elements, any in-range indexes of selected lanes, any indexes of the others; the population-count variant only up to 8 lanes; the inline-assembly BSF variant is not covered.")
prop("C08", "Interleaved struct access moves exactly the named members",
     "InterleavedMemoryWrapper: after tie(v0, ..., vN-1) = w[idx] lane i of vj is member j of struct idx[i]; w[idx] = tie(v0, ...) writes exactly these "
     "members and no other member, struct or byte; the same for successive structs w[first]; reads stay within the structs of the array.",
     ["inputs", "configurations"], "all memory contents and vector values, all (distinct for writes) in-range indexes, struct sizes 2..8, 2..8 members",
     WHY + "Each of the (vector width, member count) pairs has its own hand-written shuffle network.",
     ["Vc/common/interleavedmemory.h", "Vc/sse/detail.h", "Vc/avx/detail.h", "Vc/scalar/detail.h"],
     [("InterleaveImpl", "Vc/sse/detail.h, Vc/avx/detail.h, Vc/scalar/detail.h")],
     note="arrays of 3 structs for indexed reads, Size(+1) structs for writes; indexed writes of more than 4 lanes use permutations i^x.")
prop("C09", "Conversions between vectors and masks act lane by lane like static_cast",
     "simd_cast<To>(x...), simd_cast<To, offset>(x) and converting constructors put static_cast<T>(source lane) into the corresponding lane for every "
     "pair of vector types and ABIs, and zero where there is no source lane; mask conversions keep each bool; reinterpret_components_cast keeps bits.",
     ["inputs", "configurations"], "all values whose truncation fits the destination (else undefined in C++), all masks, all type pairs, 1 to 8 arguments, offsets 1..3",
     WHY + "Unsigned conversions are emulated piecewise and only special value pairs in different lanes expose a wrong select or a double rounding.",
     ["Vc/sse/simd_cast.h", "Vc/avx/simd_cast.h", "Vc/scalar/simd_cast.h", "Vc/sse/casts.h", "Vc/avx/casts.h", "Vc/common/simd_cast.h", "Vc/sse/detail.h", "Vc/avx/detail.h"],
     [("convert", "Vc/sse/casts.h, Vc/avx/casts.h: convert(v, ConvertTag)"), ("mask_cast", "Vc/sse/detail.h, Vc/avx/detail.h: mask_cast")])
prop("C10", "Permutations move every lane to its documented place",
     "shifted(n) and shifted(n, in) for every n, rotated(n) for every int n, reversed, interleaveLow/High, interleave, deinterleave from memory, "
     "transpose, v[permutation], v[Reversed] and broadcast<i> deliver each lane's exact bits at its documented position, with constant and runtime arguments.",
     ["inputs", "configurations"], "all lane values, shift amounts within two vector lengths, every int rotation",
     WHY + "Each amount selects a different immediate shuffle and compile-time constants take their own path.",
     ["Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/sse/shuffle.h", "Vc/avx/shuffle.h", "Vc/sse/deinterleave.tcc", "Vc/avx/deinterleave.tcc", "Vc/common/interleave.h", "Vc/common/transpose.h"],
     [("shifted/rotated", "Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/avx/detail.h"), ("deinterleave", "Vc/sse/deinterleave.tcc, Vc/avx/deinterleave.tcc")],
     note="shift amounts -2*Size-1 .. 2*Size+1 (with shiftIn -Size..Size).")
prop("C11", "sorted() returns the entries in ascending order",
     "v.sorted() returns a permutation of v's entries in ascending order, for every entry type, vector width and instruction set (floats without NaN).",
     ["inputs", "configurations"], "all entry values (floating point: no NaN), all ties and orders",
     WHY + "A wrong comparator of a sorting network shows only for particular orders.",
     ["src/sse_sorthelper.cpp", "src/avx_sorthelper.cpp", "Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/avx/sorthelper.h", "Vc/sse/sorthelper.h"],
     [("sorting networks", "src/sse_sorthelper.cpp, src/avx_sorthelper.cpp: SortHelper::sort"), ("sorted()", "Vc/sse/vector.h, Vc/avx/vector.tcc")])
prop("C12", "Reductions combine every (selected) entry exactly once",
     "min() and max() return the smallest and largest entry, sum() and product() the sum and product of all entries (integers modulo 2^n; floating point up to "
     "the order of summation), partialSum() in lane i the sum of lanes 0..i; with a mask only selected entries take part (sum 0 and product 1 for none). "
     "minIndex()/maxIndex() give the extreme value and the index of an entry that has it.",
     ["inputs", "configurations"], "all entry values (minima and maxima of floats: no NaN), all masks; see the note for floating-point sums",
     WHY + "Horizontal operations fold lanes through hand-written shuffles and neutral elements.",
     ["Vc/sse/vector.tcc", "Vc/sse/vectorhelper.h", "Vc/avx/vector.tcc", "Vc/avx/vectorhelper.h", "Vc/avx/detail.h", "Vc/scalar/vector.h"],
     [("horizontal folds", "Vc/sse/vectorhelper.h, Vc/avx/detail.h: min, max, add, mul"), ("masked reductions, partialSum", "Vc/sse/vector.tcc, Vc/avx/vector.tcc")],
     note="floating-point sums: one arbitrary entry among zeros, and all entries integers of magnitude up to 16000; products: one arbitrary entry among ones; masked min/max with at least one entry selected.")
ARRNOTE = "array sizes 3, 4, 7, 8 (quick) and 1..9, 11, 12, 13, 16, 17 (thorough); "
prop("C13", "SimdArray operations equal the scalar operation on every entry",
     "For SimdArray<T, N> of any N (not only multiples of the register width) arithmetic, comparison, logical, bit, shift and remainder operators, with "
     "array or scalar operands, and writes through masks (v(m) op= x, where(m)|v op= x, assign, setZero(m), setZeroInverted(m), iif) act on every "
     "entry exactly like the scalar operation and leave unselected entries bit-identical.",
     ["inputs", "configurations"], "all entry values, all masks, all six entry types",
     WHY + "A SimdArray is split recursively into registers; each (N, instruction set) pair is a different decomposition.",
     ["Vc/common/simdarray.h", "Vc/common/simdmaskarray.h", "Vc/common/simdarrayhelper.h", "Vc/common/writemaskedvector.h", "Vc/common/where.h"],
     [("forwarding to the parts", "Vc/common/simdarray.h: SimdArray<T, N, V, Wt>"), ("argument splitting", "Vc/common/simdarrayhelper.h: Split")], note=ARRNOTE)
prop("C14", "SimdMaskArray behaves as an array of N independent bools",
     "Masks of SimdArray<T, N> obey everything stated for masks in C06: lane-wise logic, ==/!=, count, toInt, firstOne, isFull/isEmpty/isMix, "
     "any_of/all_of/none_of/some_of, lane access, shifted, generate, visiting the set lanes, loads and stores of exactly N bools.",
     ["inputs", "configurations"], "all masks of all entry types",
     WHY + "The parts have different mask layouts and widths.",
     ["Vc/common/simdmaskarray.h", "Vc/common/simdarrayhelper.h", "Vc/common/elementreference.h"],
     [("SimdMaskArray", "Vc/common/simdmaskarray.h")], note=ARRNOTE)
prop("C15", "SimdArray memory access touches exactly the addressed elements",
     "Loads and stores of SimdArray<T, N> read and write exactly N consecutive elements (converted like static_cast), masked stores only selected ones; "
     "gathers and scatters access exactly the elements addressed by (selected) entries of the index array, whatever the other indexes are.",
     ["inputs", "configurations"], "all memory contents, indexes and masks",
     WHY + "Each part accesses memory at its own offset; an over-read by a wide register load or a wrong offset of one part is invisible to most values.",
     ["Vc/common/simdarray.h", "Vc/common/gatherinterface.h", "Vc/common/scatterinterface.h", "Vc/common/loadinterface.h", "Vc/common/storeinterface.h"],
     [("gatherImplementation, scatterImplementation", "Vc/common/simdarray.h"), ("load, store", "Vc/common/simdarray.h")],
     note=ARRNOTE + "memory of 5 elements for gathers and scatters;")
prop("C16", "SimdArray permutations, reductions and sorting see one sequence of N entries",
     "shifted(n), shifted(n, in), rotated(n), reversed, interleave, min, max, sum, product, partialSum (also masked) and sorted of SimdArray<T, N> "
     "give the result for one sequence of N entries; where it is split into registers is not observable.",
     ["inputs", "configurations"], "all entry values (minima, maxima and sorting of floats: no NaN), all masks, all shift distances to twice the length",
     WHY + "Entries have to cross the seams between differently sized parts.",
     ["Vc/common/simdarray.h", "Vc/common/interleave.h", "src/sse_sorthelper.cpp", "src/avx_sorthelper.cpp"],
     [("shifted, rotated, reversed, interleaveLow/High, sortedImpl", "Vc/common/simdarray.h")],
     note=ARRNOTE + "masked sums and products: every mask up to 8 entries, every interval of entries above;")
prop("C17", "SimdArray conversions keep every entry in place",
     "Converting SimdArray<T, N> (and its mask) to other entry types, other sizes, to and from Vector, from several arguments or with an offset puts "
     "static_cast<U>(entry) at the corresponding position of the concatenation and zero (false) where there is no source.",
     ["inputs", "configurations"], "all values whose truncation fits the destination, all 36 pairs of entry types",
     WHY + "Each pair of decompositions takes a different chain of casts with offsets.",
     ["Vc/common/simdarray.h", "Vc/common/simdmaskarray.h", "Vc/common/simdarrayhelper.h", "Vc/common/simd_cast.h", "Vc/common/simd_cast_caller.tcc"],
     [("simd_cast_impl_smaller_input/larger_input, simd_cast_with_offset, simd_cast_drop_arguments", "Vc/common/simdarray.h")],
     note=ARRNOTE + "targets of (N+1)/2, N, N+1, 2N, 2N+1, 3N entries, 1 to 3 arguments; double to unsigned int with size changes only for N <= 4;")
prop("C18", "Math functions with an exactly defined result return it in every lane",
     "abs, copysign, sqrt, floor, ceil, trunc, round, min, max, isfinite, isinf, isnan, isnegative, fpclassify, frexp, ldexp, exponent and fma return "
     "in every lane of every vector (and SimdArray) type the result C99 defines for the scalar function, including signed zeros, infinities, NaN, "
     "subnormal numbers and magnitudes beyond the integer range (round to nearest even as documented).",
     ["inputs", "configurations"], "all operand bit patterns (min/max: no NaN; fma of floats: integral operands; ldexp: results that are normal numbers)",
     WHY + "The instruction sets without a rounding instruction emulate it with integer conversions and magic constants, which fail at the edges only.",
     ["Vc/sse/math.h", "Vc/avx/math.h", "Vc/scalar/math.h", "Vc/common/math.h", "Vc/sse/vectorhelper.h", "Vc/avx/vectorhelper.h", "Vc/sse/detail.h", "Vc/avx/detail.h", "Vc/common/simdarray.h"],
     [("rounding emulation", "Vc/sse/math.h: floor_shift, trunc, round"), ("exponent manipulation", "Vc/sse/math.h, Vc/avx/math.h: frexp, ldexp; Vc/sse/detail.h: exponent"),
      ("classification by integer compares", "Vc/sse/math.h, Vc/sse/detail.h, Vc/avx/detail.h")],
     note="SimdArray sizes 3, 8 (quick) and 1..9, 11, 12, 13, 16, 17 (thorough); fma of double only where the instruction set has it.")
prop("C19", "Transcendental functions work per lane and keep their symmetries and specials",
     "Every lane of log, log2, log10, exp, sin, cos, sincos, asin, atan, atan2, rsqrt and reciprocal depends on the same lane of the operands only, "
     "and the same values in a 128- or a 256-bit vector give the same results. Zeros, infinities, NaN and arguments outside the domain give the "
     "results of C99 Annex F, log2 of a power of two is exact, sin, asin and atan are odd, cos is even, and sincos returns what sin and cos return.",
     ["inputs", "configurations"], "all operand bit patterns in all lanes (sin/cos: lanes within the same argument reduction range)",
     WHY + "A lane that leaks into another one through a horizontal test or a mask of the wrong width changes only mixed vectors.",
     ["Vc/common/logarithm.h", "Vc/common/exponential.h", "Vc/common/trigonometric.h", "src/trigonometric.cpp", "src/const.cpp", "Vc/sse/math.h", "Vc/avx/math.h", "Vc/sse/const.h", "Vc/avx/const.h"],
     [("polynomials and argument reduction", "src/trigonometric.cpp: foldInput, sin, cos, sincos, asin, atan, atan2"), ("log", "Vc/common/logarithm.h"), ("exp", "Vc/common/exponential.h, Vc/sse/math.h")],
     note="values of sin and cos are not specified beyond these relations; asin and atan of -0 may have either sign.")
prop("C20", "Processor detection reports what CPUID says, and nothing the system cannot run",
     "isImplementationSupported, bestImplementationSupported, bestImplementation's extra flags and currentImplementationSupported answer true only for "
     "instruction sets that every required CPUID bit announces and, for AVX and later, whose register state the operating system has enabled (OSXSAVE and "
     "XCR0); XGETBV is executed only if OSXSAVE allows it. The feature queries, family/model/stepping and cache data of CpuId are the fields CPUID "
     "defines: AMD leaves, Intel's deterministic leaf 4, or the one-byte descriptors of leaf 2.",
     ["inputs", "configurations"], "all register contents returned by CPUID and XGETBV, within the assumptions listed in note",
     "A test observes the one processor it runs on. " + WHY,
     ["Vc/cpuid.h", "src/cpuid.cpp", "Vc/support.h", "src/support_x86.cpp", "Vc/global.h"],
     [("feature bits, identification", "Vc/cpuid.h; src/cpuid.cpp: CpuId::init"), ("cache descriptors", "src/cpuid.cpp: CpuId::interpret"),
      ("supported instruction sets", "src/support_x86.cpp: isImplementationSupported, extraInstructionsSupported")],
     note="CPUID and XGETBV are replaced by a symbolic processor: leaves 0, 1, 2, 4 (at most four caches), 7, 80000001h/5h/6h and XCR0 arbitrary; "
          "at least basic leaf 7; extended family at most 255 in sum, family 0Bh excluded; AMD associativity codes of the published table; leaf 2 needs "
          "one call; for currentImplementationSupported the instruction sets form a chain.")
prop("C21", "Entry access, constants and entry-wise functions address exactly the entries named",
     "v[i] reads and (assignment, compound assignment, increment, swap) writes entry i of every vector and no other, for every i; V(), Zero(), One(), "
     "IndexesFromZero(), V(x) and their tags hold the stated values; generate(g) and V(g) call g(0), g(1), ... once and in order; apply(f) and apply(f, mask) "
     "replace every (selected) entry by f of it and call f once per selected entry; call(f), call(f, mask) pass the (selected) entries in order; "
     "fill stores the results in order.",
     ["inputs", "configurations"], "all entry values, all entry numbers, all masks (apply(f, mask): at most two selected entries for more than four)",
     WHY + "Access to one entry of a register goes through aliasing memory, an extract/insert instruction, or the part of an array, depending on type and size.",
     ["Vc/common/elementreference.h", "Vc/common/storage.h", "Vc/common/generalinterface.h", "Vc/sse/vector.h", "Vc/avx/vector.h", "Vc/scalar/vector.h",
      "Vc/common/simdarray.h", "Vc/common/set.h", "Vc/common/const.h", "src/const.cpp"],
     [("ElementReference", "Vc/common/elementreference.h"), ("Storage::m, Storage::set", "Vc/common/storage.h"), ("apply, call, fill, generate", "Vc/sse/vector.h, Vc/avx/vector.h, Vc/common/simdarray.h")],
     note="SimdArray sizes 3, 8 (quick) and 1..9, 11, 12, 13, 16, 17 (thorough).")
prop("C22", "Memory<V, ...> stores exactly its entries, padded to whole vectors and aligned",
     "Memory<V, N>, Memory<V> (run-time size) and Memory<V, R, C> hold entriesCount() entries in vectorsCount() whole vectors at an aligned address: entry i, "
     "vector(i), vector(i, shift), vectorAt, gather, rows, iterators, ranges, firstVector/lastVector, broadcast, setZero, copies, swap, arithmetic and "
     "comparison with another Memory or scalar address exactly the entries named; nothing outside of the object is touched and dynamic memory is released once.",
     ["inputs", "sizes", "configurations"], "all entry values; sizes 1, Size+1, 3*Size (fixed), 0, 1, 2*Size, 2*Size+1 (dynamic), 2 x (Size+1), 3 x Size, 5 x 3 (two-dimensional)",
     WHY + "Padding makes off-by-one errors in the number of vectors invisible for sizes that are multiples of the vector size.",
     ["Vc/common/memory.h", "Vc/common/memorybase.h", "Vc/common/memoryfwd.h", "Vc/common/malloc.h", "Vc/common/data.h"],
     [("padding and sizes", "Vc/common/memory.h"), ("vector iterators and flagged accessors", "Vc/common/memorybase.h"), ("entry-wise operators", "Vc/common/memorybase.h")])
prop("C23", "Allocated memory is large enough, aligned as requested and released exactly once",
     "malloc<T, A>(n) requests at least n*sizeof(T) bytes with the alignment A names, returns a null pointer when the system has no memory, and its result "
     "can be used with aligned vector accesses; Allocator<T>::allocate(n) yields n*sizeof(T) bytes aligned for T for every n up to max_size(), throws for more, and "
     "deallocate releases the original block; operator new of VectorAlignedBase/MemoryAlignedBase classes is aligned; make_unique and std::vector of Vc vectors "
     "keep their contents and destroy and release everything exactly once.",
     ["inputs", "sizes", "configurations"], "every n up to 2^63 bytes, every block address operator new may return (a multiple of 16)",
     WHY + "Overflow of the padded size and a wrong block pointer show only for particular sizes and addresses the system allocator happens to return.",
     ["Vc/Allocator", "Vc/common/malloc.h", "Vc/common/alignedbase.h", "Vc/common/make_unique.h", "Vc/vector.h"],
     [("extra bytes and pointer in front of the block", "Vc/Allocator"), ("padding of the size, alignment", "Vc/common/malloc.h")])
prop("C24", "simd_for_each visits every element of the range once and in order",
     "simd_for_each(first, last, f) and simd_for_each_n(first, n, f) pass every element of the range exactly once and in order to f, in vectors that may "
     "differ in width, for every length including zero; if f takes its argument by reference the result is stored back to the same elements; no element outside of the "
     "range is read or written; the function object is returned with its state. The same holds for ranges of std::pair, std::tuple and structures with Vc_SIMDIZE_INTERFACE.",
     ["inputs", "sizes", "configurations"], "all element values; every length 0..2*Size+1; pointers and std::vector iterators",
     WHY + "The transition from whole vectors to the remainder depends on the length modulo the vector size.",
     ["Vc/common/algorithms.h", "Vc/common/simdize.h", "Vc/common/interleavedmemory.h"],
     [("main loop and remainder", "Vc/common/algorithms.h"), ("interleaved access to the members", "Vc/common/simdize.h load_interleaved, store_interleaved")])
prop("C25", "Vectorized structures and iterators behave as arrays of scalar structures",
     "simdize<S> holds Size values of S: assign, extract, decorate(v)[i], swap (between vectorized objects, entries and scalar structures), shifted, broadcast and generator "
     "construction, conditional assignment through where, load_interleaved and store_interleaved address the entry named in every member and no other; simdized iterators "
     "read and write the Size consecutive elements they stand for and move by whole vectors.",
     ["inputs", "sizes", "configurations"], "all member values, all entry numbers, all masks, all shift counts -Size..Size; structures, std::array, std::pair and std::tuple with 2 to 4 members of equal and different types",
     WHY + "Members of different types have different vector types, and the masks and entries have to be matched between them.",
     ["Vc/common/simdize.h", "Vc/common/where.h", "Vc/common/interleavedmemory.h", "Vc/common/vectortuple.h"],
     [("Adapter, assign_impl, extract_impl, swap_impl, shifted_impl", "Vc/common/simdize.h"), ("Iterator, Reference, Pointer", "Vc/common/simdize.h IteratorDetails")])
prop("C26", "Subscripts with index vectors address exactly the named elements of containers",
     "c[i] with an index vector, an array, a std::vector or an initializer list of indexes i, for Vc::array, Vc::vector and arrays of them, followed by any chain of &S::member, "
     "[k] or further index vectors, converts to the vector of the elements c[i[0]], c[i[1]], ... and assigns lane by lane to them; masked with where(m) only the "
     "selected lanes are read or written; nothing else is read or changed, whatever the size of the structures and the type of the indexes.",
     ["inputs", "configurations"], "all element values, all in-range indexes, all masks; containers of 4 elements, structures with nested structures and arrays, indexes of 8 to 32 bits",
     WHY + "The scaling of the indexes depends on the ratio of the sizes of structure and member and on the instruction set.",
     ["Vc/common/subscript.h", "Vc/common/detail.h", "Vc/array", "Vc/vector", "Vc/common/where.h", "Vc/common/gatherinterface.h"],
     [("applyScale, applyScaleAndAdd, SubscriptOperation", "Vc/common/subscript.h"), ("convertIndexVector", "Vc/common/detail.h"), ("hardware gathers with scale", "Vc/avx/vector.h gatherImplementation")])
prop("C27", "Iteration visits every entry, selected entry or vector once and in order",
     "begin(v), end(v), cbegin, cend of vectors and masks are random access iterators over exactly the Size entries, which read and, for non-const vectors, write the entry they "
     "stand for; for (i : where(m)) visits exactly the selected entry numbers in ascending order; makeIterator<V>(p) steps through an array by whole vectors; "
     "makeContainer stores the listed values in order, padded with zeros to whole vectors.",
     ["inputs", "configurations"], "all entry values, all masks, all pairs of iterator positions; lists of 0, 1, Size, Size+1, 2*Size-1 and 2*Size values",
     WHY + "The order and the end of the iteration over a mask depend on the pattern of its bits.",
     ["Vc/common/iterators.h", "Vc/common/elementreference.h", "Vc/common/where.h", "Vc/common/makeContainer.h", "Vc/common/memorybase.h"],
     [("Iterator, BitmaskIterator, begin, end, makeIterator", "Vc/common/iterators.h"), ("make_container_helper", "Vc/common/makeContainer.h")])
prop("A01", "Transcendental functions are accurate to a few units in the last place",
     "log, log2, log10, exp, sin, cos, asin, atan and atan2 differ from the mathematical function by no more than a few units in the last place over their documented range.",
     ["inputs"], "all finite operands", WHY,
     ["Vc/common/logarithm.h", "Vc/common/exponential.h", "src/trigonometric.cpp"], [("polynomial coefficients", "src/trigonometric.cpp, src/const_data.cpp")],
     na="no SMT theory with transcendental functions combined with IEEE rounding is within reach: already bounding the rounding error of one degree-8 "
        "polynomial in the floating-point theory does not finish for 32-bit operands, and the true function is not expressible.")
