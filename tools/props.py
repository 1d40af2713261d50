BASE = ('Every obligation (functional postcondition, frame, bounds, alignment, trapping division, loop invariants) of every contract case is discharged for all lengths, '
        'values and alignments. Assumes: clang/LLVM extraction and the verification-condition generator are right, arrays do not partially overlap, array data aligned to the element size, lengths below 2^40; termination is not proved. ')
prop('P01', 'Unary operations compute the same function at every position',
     'For every element-wise unary operation and element type served natively, each output element equals the mathematical definition of the operation applied to the input element at the same position, and no other memory is written. The result does not depend on array length, on strides, on memory alignment, on whether the output reuses the input array, nor on the position of the element.',
     ['inputs', 'configurations'], 'all lengths, element values, strides, alignments and in-place use, for each operation and element type',
     'Each kernel has a vector path, a scalar tail and a strided path chosen at run time by length, alignment and stride; tests run a few short aligned arrays per operation and type.',
     ['src/UnaryOps.cpp', 'src/RipTide.cpp'],
     [('kernel selection', 'src/UnaryOps.cpp GetUnaryOpFast/GetUnaryOpSlow'), ('vector loop plus scalar tail', 'src/UnaryOps.cpp UnaryOpFast, UnaryNanFast*'), ('scalar strided loops', 'src/UnaryOps.cpp UnaryOpSlow*')],
     note=BASE + 'libm functions are uninterpreted: the property says which libm function of which value is stored where, not that libm is accurate.')
prop('P02', 'Binary arithmetic computes the same function at every position',
     'For every element-wise binary arithmetic, bitwise or logical operation and element type served natively, each output element equals the operation applied to the operand elements at the same position, a scalar operand standing for its value at every position; no other memory is written and no operand value traps. Integer operations wrap, integer floor division and modulo by zero give zero. The result does not depend on array length, alignment, which operand is the scalar, or on whether the output reuses an operand.',
     ['inputs', 'configurations'], 'all lengths, operand values, alignments, scalar sides and in-place use, for each operation and element type',
     'Each operation has separate vector loops for array/array, scalar/array, array/scalar, aligned in-place and tails; tests sample a few short arrays with the scalar on one side and never zero or minimum divisors.',
     ['src/BasicMath.cpp'],
     [('kernel selection', 'src/BasicMath.cpp CheckMathOpTwoInputs, GetSimpleMathOp*'), ('vector loops', 'src/BasicMath.cpp SimpleMathOpFast, SimpleMathOpFastSymmetric, SimpleMathOpFastDouble'), ('scalar loops', 'src/BasicMath.cpp SimpleMathOpSlow, SimpleMathOpSlowDouble')],
     note=BASE + 'pow, fmod and remainder are uninterpreted libm functions; floor, rounding and IEEE arithmetic are interpreted. Boolean modulo is left out (no agreed meaning); integer modulo is the C remainder. Conversions of mixed operand types happen before these kernels.')
prop('P03', 'Comparisons give the mathematical answer at every position',
     'For every element-wise comparison (==, !=, <, >, <=, >=) of arrays, or of an array and a scalar, of booleans, integers of every width and float32/float64, each output element is 1 when the relation holds between the operand values at that position and 0 otherwise, independent of length, alignment, scalar side and element position; no other memory is written. NaN compares unequal to everything, and int64 against uint64 compares the integer values, not their bit patterns.',
     ['inputs', 'configurations'], 'all lengths, operand values, alignments and scalar sides, for each comparison and operand type pair served natively',
     'The kernels compute 4 to 32 results per step through shuffles, masks and lookup tables and finish with a scalar tail; tests sample short arrays and never the extreme values of mixed signedness.',
     ['src/Compare.cpp', 'src/RipTide.cpp'],
     [('kernel selection', 'src/Compare.cpp GetComparisonOpFast'), ('vector kernels', 'src/Compare.cpp CompareFloat, CompareDouble, CompareInt8/16/32/64, CompareInt32S'), ('scalar kernels and mixed signedness', 'src/Compare.cpp CompareAny, COMP_*_int64_t, COMP_*_uint64_t')],
     note=BASE + 'The boolean lookup tables are taken at their initialised contents.')
prop('P04', 'Conversions and masked writes keep every value and every invalid',
     'Converting an array of booleans, integers of any width, float32, float64 or long double to another of these types stores, at every position, the C conversion of the element at that position. The invalid-preserving conversion turns the invalid value of the input type (the integer sentinel, NaN; also an infinity when the output is an integer) into the invalid value of the output type; booleans and same-type copies have no invalid value and float to float keeps infinities. A masked write does the same at exactly the positions where the mask is true and leaves all others unchanged. Nothing depends on length, strides or position, and no other memory is written.',
     ['inputs', 'configurations'], 'all lengths, element values, strides and masks, for each input/output type pair and conversion family',
     'There are 144 type pairs with several kernels each, contiguous and strided; tests convert a few short contiguous arrays and rarely contain sentinels at arbitrary positions.',
     ['src/Convert.cpp', 'src/RipTide.cpp'],
     [('kernel selection', 'src/Convert.cpp GetConversionFunctionSafe, GetConversionFunctionUnsafe, GetConversionPutMask'), ('kernels', 'src/Convert.cpp ConvertBase<T,U>::OneStubConvert*, PutMask*')],
     note=BASE + 'Values outside the range of an integer output type give whatever the C conversion gives (unspecified but fixed per value). The sentinels the callers pass are fixed by contract to the per-type invalid values; output arrays are contiguous as in the callers.')
prop('P05', 'Parallel work: every element goes to exactly one kernel call',
     'Work that the library splits over threads is done as if by one thread: for any number of elements, number of worker threads and interleaving, the elements are partitioned into blocks, each block is handed to exactly one call of the kernel with every array pointer advanced to the first element of that block (scalar operands and shared tables unmoved) and with the number of elements of that block, the last block taking the rest. The call that distributes work returns only after the kernel calls of all blocks have returned and no worker thread is still awake, and workers look at a work item only after all of its fields are set. With threading off, or for small inputs, one direct call (or one call per index, in order) does the same work.',
     ['schedules', 'inputs', 'configurations'], 'all lengths, thread counts, numbers of woken threads and interleavings of workers and caller',
     'Tests run a few sizes on however many cores the machine has; races, lost or doubled blocks and early returns need particular interleavings, and the last-block length depends on the length modulo the block size.',
     ['src/MathThreads.h', 'src/MathThreads.cpp', 'src/MathWorker.h', 'src/BasicMath.cpp', 'src/UnaryOps.cpp', 'src/Convert.cpp', 'src/Merge.cpp', 'src/Bins.cpp'],
     [('tickets, block lengths, publication', 'src/MathThreads.h stMATH_WORKER_ITEM::GetNextWorkBlock, GetNextWorkIndex, CompleteWorkBlock; stWorkerRing::SetWorkItem'),
      ('distribution and join', 'src/MathWorker.h WorkMain, DoMultiThreadedWork, DoMultiThreadedChunkWork, WorkGroupByCall'),
      ('worker thread loop', 'src/MathThreads.cpp WorkerThreadFunction'),
      ('worker callbacks', 'src/BasicMath.cpp WorkTwoStubCall, BasicMathThreadCallback; src/UnaryOps.cpp UnaryThreadCallbackStrided; src/Convert.cpp ConvertThreadCallback, CombineThreadCallback, CombineThreadAccum2Callback; src/Merge.cpp GetItemCallback; src/Bins.cpp ReIndexThreadCallback')],
     note='Thread-modular (rely/guarantee) obligations, all discharged for arbitrary lengths, threads and interleavings at the granularity of the accesses to the shared fields. Assumes: sequentially consistent accesses (x86 ordering of the volatile fields), a single caller at a time (the interpreter lock), no Ctrl-C, fewer than 64 workers, the futex call only wakes or waits; termination and wake-up latency are not proved. Callers that fill a callback structure inside functions full of Python API calls (ConvertUnsafe, GetItem, ReIndex ...) are covered from the callback on; the scatter/gather reductions and the group-by band callers are not covered.')
prop('P07', 'Group-by sums, means, extremes and variances equal the per-bin definition',
     'For every group-by accumulation (sum, mean, min, max, var, std and their nan-skipping forms) and input type, and any assignment of rows to bins, the output of each bin of the processed range is the operation folded over exactly the rows whose bin number is that bin, in row order; rows with a bin number outside the range have no effect, and bins outside the range are not touched. A bin containing an invalid row gives the invalid value in the plain forms; the nan-forms skip invalid rows; bins without (enough) valid rows give the invalid value where the definition has none. Counts hold the number of valid rows, or -1 once an invalid row was seen. Continuing an accumulation over several passes gives the fold over all passes.',
     ['inputs', 'histories'], 'all row counts, bin numbers, element values, bin ranges and pass kinds, for each operation and element type',
     'Tests compare a few small groupings with numpy; the interplay of invalid rows, row order, bin ranges (bins are split over threads), counts and multi-pass accumulation has unboundedly many histories.',
     ['src/GroupBy.cpp'],
     [('kernel selection', 'src/GroupBy.cpp GetGroupByFunction'), ('accumulators', 'src/GroupBy.cpp GroupByBase::AccumSum, AccumSumFloat, AccumNanSum, AccumMin, AccumMax, AccumMean, AccumVar, AccumStd and their Nan forms')],
     note=BASE + 'Ghost folds over the rows with loop invariants checked inductively. Index width and count width rotate over the element types in the quick tier (all four combinations in the thorough tier); in the quick tier the multi-pass forms run for int32, float32 and float64. The second pass of the float32 mean is not covered. Sums for means with 32-bit counts assume fewer than 2^31 rows. Floating point sums are the left-to-right IEEE sums in the accumulator type; booleans have no invalid value in min/max. Merging of per-thread results and the other group-by operations (first, last, nth, count, median, quantile ...) are not covered.')
prop('P09', 'Indexing by an integer array returns the indexed items or the default',
     'Indexing an array by an integer array of any width and signedness gives, at every position, the item of the value array at that index, negative indices counting from the end, and the default (invalid) item where the index is out of range in either direction; no item outside the value array is ever read, for every item size, stride of the values and stride of the index.',
     ['inputs', 'configurations'], 'all lengths, index values including the extreme ones, item sizes 1, 2, 4, 8, 16 and the byte loop for other sizes, strides of values and index',
     'Out-of-range and extreme index values (minimum integers, unsigned values above the signed range) read outside the array only for particular value and length combinations; tests use small valid indices.',
     ['src/Merge.cpp'],
     [('kernel selection', 'src/Merge.cpp GetItemFunction'), ('kernels', 'src/Merge.cpp GetItemInt, GetItemUInt, GetItemIntVariable, GetItemUIntVariable')],
     note=BASE + 'Items of other sizes are verified for sizes 3 and 12 (the code is the same byte loop for every size). Boolean indexing and the choice of the default item by the caller are not covered.')
prop('P11', 'Cumulative operations by group follow every row of the group in order',
     'A cumulative operation by group (sum, product, minimum, maximum and their invalid-skipping forms, running count of the group) gives, at every row, the operation folded over the rows of the same group up to and including that row: rows masked out by the include filter leave the running value of their group unchanged and show it, a reset mask restarts the group before its row, rows without a group (bin 0) get the invalid value (0 for the running count). The plain minimum and maximum become invalid at the first invalid row and stay so; the skipping forms ignore invalid rows. Groups do not influence each other, and no memory outside the output and the workspace is written.',
     ['inputs', 'histories'], 'all row counts, group numbers, element values, filters and resets, for each operation, element type and key width',
     'The running value depends on the whole history of the group with masks and resets interleaved; tests run a few short unmasked columns.',
     ['src/Ema.cpp'],
     [('kernel selection', 'src/Ema.cpp GetEmaByFunction'), ('kernels', 'src/Ema.cpp CumSum, CumProd, CumExtreme, CumNanExtreme, FindNth')],
     note=BASE + 'Group numbers lie in 0..number of groups (contract of the callers). Floating point sums and products are the left-to-right IEEE ones. The key width rotates over the element types in the quick tier. A reset row in the skipping minimum/maximum restarts with its own value even if that is invalid, as in the code.')
prop('P08', 'Group-by first, last and nth return the selected row of each group',
     'Given rows sorted by group (the rows of each group listed together, with the start and the number of rows of every group), first, last and nth give for every group of the processed range the item of the column at the first row, the last row, or the nth row of the group counted from its start (from its end for a negative n), and the invalid value (zero bytes for strings) for a group that is empty or has no such row. Groups outside the range and all other memory are untouched, and no item outside the column is read.',
     ['inputs'], 'all groupings, group ranges, n, row counts, element types and item values, for both index widths',
     'Empty groups, n beyond the group size in either direction and extreme n matter only for particular groupings; tests use a few small dense groupings.',
     ['src/GroupBy.cpp'],
     [('kernel selection', 'src/GroupBy.cpp GetGroupByXFunction'), ('kernels', 'src/GroupBy.cpp GroupByBase::AccumFirst, AccumLast, AccumNth and their String forms')],
     note=BASE + 'The grouping arrays form a valid grouping (contract of the callers). String items are verified for sizes 3 and 8 (the copy is by item size).')
