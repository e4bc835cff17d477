import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state:a["state"]=[{"name":state,"meaning":"state the property is about"}]
    if observe:a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Naive reference multiplication returns the true product in both layouts",
"For every matrix order N >= 1 and every pair of finite float or double matrices, the naive reference multiplication returns the N x N matrix whose entry (i,j) is the sum over k of A(i,k)*B(k,j), up to rounding. The flavour for transposed operands returns the same product when B is handed over stored transposed. The answer does not depend on how many threads compute it, and the operands are left untouched.",
["inputs","schedules"],"every N, every A and B, every thread count",
"The repository's naive test multiplies by the identity and by one fixed random matrix for a handful of power-of-two orders; a wrong index that is symmetric under those inputs, or an order that is not a power of two, is never sampled.",
["src/reference_kernels/naive.hpp"],
[("naive_matrix_multiply","src/reference_kernels/naive.hpp"),("naive_matrix_multiply_transposed","src/reference_kernels/naive.hpp")],
"result vector C","return value")

p("P02","Block kernels compute exactly the requested sub-block of the product",
"Given matrices of order N, a block origin (x,y) and a block size b with the block inside the matrix, each block kernel (plain, transposed-B, and cache-blocked transposed-B) delivers in its b x b output precisely the entries (x+i, y+j) of the product, up to rounding. The cache-blocked kernel does so for every input chunk length >= 1, dividing N or not and larger than N or not, for block sizes that are multiples of 4 and a zeroed output. No element outside the b x b output is written and no element outside the two matrices is read.",
["inputs"],"every N, block origin, block size, chunk length, matrix content",
"No test calls the kernels directly; the variants that use them are only run with chunk lengths that divide N.",
["src/reference_kernels/kernel.hpp"],
[("kernel::kernel","src/reference_kernels/kernel.hpp"),("kernel::kernel_transposed","src/reference_kernels/kernel.hpp"),("kernel::kernel_transposed_blocked","src/reference_kernels/kernel.hpp")],
"output block C","output block after the call")

p("P03","The SIMD reference kernels multiply correctly for every order N",
"The algorithms kernel_test and kernel_tiled return the product A*B, up to rounding, for every order N >= 1 (padding to the internal cache and register block sizes never leaks into or out of the result), for both values of the transposed flag (true meaning that B is stored transposed), every repetition count >= 1 and every number of OpenMP threads. kernel_tiled reports as its duration only the time spent in that call.",
["inputs","schedules","configurations"],"every N, A, B, orientation, repetition count, thread count",
"They have no test at all; the command line only multiplies by the identity, which hides a wrong orientation.",
["src/reference_kernels/kernel_test.cpp","src/reference_kernels/kernel_tiled.cpp"],
[("kernel_test::matrix_multiply","src/reference_kernels/kernel_test.cpp"),("kernel_tiled ctor (padding) and matrix_multiply","src/reference_kernels/kernel_tiled.cpp")],
"padded copies of A, B, C","return value")

p("P04","The combined variant multiplies correctly for every order N",
"The algorithm combined returns the product A*B (B not transposed), up to rounding, for every order N >= 1, whatever N is relative to its internal block sizes, for every repetition count >= 1, every verbosity and every way the runtime distributes its parallel blocks over threads.",
["inputs","schedules","configurations"],"every N, A, B, repetitions, verbosity, schedule of the parallel blocks",
"Tests use powers of two up to 1024 with one repetition; residues modulo the block sizes (420/256/256, 70/64/128, 35/16/64) and repeated runs are not sampled.",
["src/variants/combined.cpp","src/variants/combined.hpp","src/variants/index_iterator.hpp"],
[("combined::combined padding","src/variants/combined.cpp"),("combined::matrix_multiply","src/variants/combined.cpp"),("iterate_indices","src/variants/index_iterator.hpp")],
"padded/tiled copies","return value")

p("P05","The algorithms variant multiplies correctly for every order and block size",
"The algorithm named algorithms returns the product of A with the matrix whose transpose is given as B, up to rounding, for every N >= 1, every result block size (0 meaning no blocking) and every input chunk length >= 1: neither has to divide N and both may exceed N. The result is the same for every way the runtime distributes the result blocks over threads.",
["inputs","schedules","configurations"],"every N, A, B, block sizes, schedule",
"Tests only use block size 1 for tiny N and 128 for multiples of 128; the program's own default (N=4 with blocks of 128) is not tested.",
["src/variants/algorithms.hpp"],
[("algorithms::matrix_multiply","src/variants/algorithms.hpp"),("dim_index_iterator / index_iterator","src/variants/algorithms.hpp")],
"C, per-block scratch","return value")

p("P06","The looped variant multiplies correctly for every order and block size",
"The algorithm looped returns the product of A with the matrix whose transpose is given as B, up to rounding, for every N >= 1, every result block size (0 meaning no blocking) and every input chunk length >= 1, dividing N or not and larger than N or not.",
["inputs","configurations"],"every N, A, B, block sizes",
"Tests only use block sizes that divide N, so an iteration count that rounds down, or an iteration that runs past the end, is not seen.",
["src/variants/looped.hpp"],
[("looped::matrix_multiply","src/variants/looped.hpp"),("looped::iterate_indices","src/variants/looped.hpp")],
"C","return value")

p("P07","The semi variant multiplies correctly for every order and block size",
"The algorithm semi returns the product of A with the matrix whose transpose is given as B, up to rounding, for every N >= 1 (multiple of its register block or not) and every input chunk length >= 1, dividing N or not and larger than N or not, regardless of the result block size passed.",
["inputs","configurations"],"every N, A, B, block sizes",
"Tests use N = 2, 4, 8 with chunk length 1 and multiples of 128 with 128, and compare against the tested program's own arithmetic; out-of-bounds reads past the matrix happen to return zeros there.",
["src/variants/semi.cpp","src/variants/index_iterator.hpp"],
[("semi::matrix_multiply","src/variants/semi.cpp")],
"A/B/C working copies","return value")

p("P08","The single-node recursive variant returns the product under every task schedule",
"The algorithm single returns the product of A and B (B given transposed or not, according to the flag), up to rounding, for every order N that can be halved evenly until it is no larger than the result block size (0 meaning no blocking), every input chunk length >= 0 (0 meaning no chunking), every repetition count and verbosity. This holds in whatever order, and on however many threads, the runtime executes the spawned tasks and continuations.",
["inputs","schedules","configurations"],"every admissible N, A, B, block sizes, orientation, task order",
"Tests run a few power-of-two orders once under whatever schedule the machine produces.",
["src/variants/single.cpp","src/variants/components/recursive.cpp","src/variants/components/multiplier.cpp"],
[("single::matrix_multiply","src/variants/single.cpp"),("recursive::distribute_recursively / extract_submatrix","src/variants/components/recursive.cpp"),("multiplier::calculate_submatrix","src/variants/components/multiplier.cpp")],
"sub-blocks assembled into C","return value")

p("P09","The distributed pseudodynamic variant returns the product on any set of nodes",
"The algorithm pseudodynamic returns the product of A and B (B given transposed or not, according to the flag), up to rounding, for any number of localities >= 1, any minimum work size, any imbalance tolerances, repetition count and verbosity, for every order N that can be halved evenly until it is no larger than the result block size (0 meaning no blocking). This holds for every order in which remote tasks run and their results arrive.",
["inputs","schedules","configurations"],"every N, A, B, locality count, tolerance, task order",
"Tests run on one locality only, with tolerances zero, so nothing is ever distributed.",
["src/variants/pseudodynamic.cpp","src/variants/static_improved.cpp","src/variants/components/recursive.cpp","src/variants/components/multiplier.cpp"],
[("pseudodynamic::matrix_multiply","src/variants/pseudodynamic.cpp"),("static_improved::matrix_multiply / insert_submatrix","src/variants/static_improved.cpp")],
"C assembled from remote sub-blocks","return value")

p("P10","Distributed work covers every result cell exactly once and is balanced as asked",
"For any N, number of localities, minimum work size and tolerances, the work packages handed out by the pseudodynamic algorithm in one repetition are square, disjoint, and together cover the N x N result exactly; with more than one locality the root computes nothing, otherwise it computes everything, and no package that is not larger than the minimum work size is ever split. Nothing is split if the undivided work already meets the absolute tolerance or only one locality computes. Splitting stops only when the load difference is below the absolute tolerance or, with every compute locality loaded, the difference relative to the smallest load is below the relative tolerance, or when no most-loaded locality has an evenly divisible package larger than the minimum size whose splitting would not increase the imbalance. Each package is computed on the locality it was assigned to and its result lands at its own position.",
["inputs","configurations"],"every N, locality count 1..n, minimum size, tolerances",
"With a single locality (the only tested configuration) the schedule is one package; every interesting case needs several nodes.",
["src/variants/static_improved.cpp","src/variants/matrix_multiply_work.hpp"],
[("static_improved::create_schedule","src/variants/static_improved.cpp"),("static_improved::fulfills_constraints","src/variants/static_improved.cpp"),("static_improved::matrix_multiply","src/variants/static_improved.cpp")],
"work packages per locality","remote actions issued: target locality and arguments")

p("P11","Tiling is a lossless rearrangement and undoing it restores the original",
"For arrays of any dimension >= 1, any extents and any tile sizes that divide the extents, converting to tiled layout stores the tiles one after another in row-major order of the tile index, each tile's elements in row-major order, so every element is kept exactly once. Undoing the tiling returns the original array exactly, for any element type and allocator, and neither operation changes its input. The flat index computed from an index and the extents, as plain or standard arrays, is the row-major position.",
["inputs"],"every dimension, extent and tile size per direction, element type, allocator",
"Tests tile one square 256x256 matrix with 4x4 tiles; undoing is never called, and non-square shapes are where strides get swapped.",
["src/memory_layout/tile_array.hpp","src/memory_layout/util.hpp","src/memory_layout/loop_nest.hpp","src/memory_layout/tile_iterator.hpp","src/memory_layout/tile_view.hpp"],
[("make_tiled","src/memory_layout/tile_array.hpp"),("undo_tiling","src/memory_layout/tile_array.hpp"),("flat_index","src/memory_layout/util.hpp")],
"tiled vector","return values")

p("P12","Tile views address exactly their own tile, visited once each in order",
"Iterating over the tiles of a tiled array of any dimension calls the visitor exactly once per tile in row-major order of the tile index, and the view it receives reports that tile's index, the number of tiles per direction and the number of elements in a tile. Reading or writing through a view by flat offset, by index array or by separate coordinates accesses the element of that tile with those in-tile coordinates and no other element. This holds for views created directly and for views kept after their visit; a visitor may itself iterate, and an exception it throws ends the iteration and reaches the caller.",
["inputs"],"every dimension, extents, tile sizes, tile index and in-tile coordinate",
"Tests look at one square two-dimensional layout, where row and column roles can be swapped unnoticed.",
["src/memory_layout/tile_iterator.hpp","src/memory_layout/tile_view.hpp"],
[("iterate_tiles","src/memory_layout/tile_iterator.hpp"),("tile_view","src/memory_layout/tile_view.hpp")],
"underlying tiled vector","visitor calls, view accessors")

p("P13","Blocked index iteration visits every index of its range exactly once",
"Iterating over an index range with any number of blocking levels, any combination of parallel directions and final steps calls the function exactly once for every index min, min+step, ... below max in every direction, and for no index outside the range, for every dimension, every lower bound, extents that are not multiples of the block sizes included, provided each blocking is a multiple of the next finer one. The plain loop nest over arrays visits the same indices in row-major order, the one of the meta-programming example likewise. The order among parallel blocks may vary, nothing else. The function may itself iterate; an exception it throws in the plain loop nest ends it and reaches the caller.",
["inputs","configurations","schedules"],"every dimension, bounds, blockings, parallel directions, steps",
"Not tested directly; the variants built on it only use ranges that are multiples of the blocks.",
["src/variants/index_iterator.hpp","src/memory_layout/index_iterator.hpp","src/memory_layout/loop_nest.hpp","src/variants/looped.hpp","learning/MetaProgrammingCPP.cpp"],
[("iterate_indices / dim_index_iterator","src/variants/index_iterator.hpp"),("iterate_indices / dim_index_iterator","src/memory_layout/index_iterator.hpp"),("iterate_indices","src/variants/looped.hpp"),("loop_nest","src/memory_layout/loop_nest.hpp"),("Looper","learning/MetaProgrammingCPP.cpp")],
"visited index multiset","calls of the user function")

p("P14","Parallel multiplications are free of data races and schedule-independent",
"No execution of any parallel multiplication (naive, kernel_test for multiples of 512, kernel_tiled, algorithms, combined, single, pseudodynamic, and the parallel experiment kernels) performs two unsynchronised conflicting accesses to the same memory, and for given operands and parameters the result is bit-identical for every number of threads and every scheduling of the parallel parts.",
["schedules","inputs"],"every interleaving and thread count",
"A race is benign under most schedules and never visible to a test that checks one result under one schedule.",
["src/variants/combined.cpp","src/variants/algorithms.hpp","src/variants/components/recursive.cpp","src/variants/static_improved.cpp","src/reference_kernels/naive.hpp","src/reference_kernels/kernel_test.cpp","src/reference_kernels/kernel_tiled.cpp","src/variants/index_iterator.hpp","otherExperiments/"],
[("parallel for_each_n bodies","src/variants/combined.cpp, src/variants/algorithms.hpp, src/variants/index_iterator.hpp"),("OpenMP loops","src/reference_kernels/*, otherExperiments/*"),("async/then continuations","src/variants/components/recursive.cpp, src/variants/static_improved.cpp")],
"shared matrices","all memory accesses (ThreadSanitizer), return values")

p("P15","Every operation stays inside its memory and leaves its operands unmodified",
"On every valid input (for kernel_test: orders that are multiples of 512), no multiplication variant, block kernel, tiling routine, matrix helper or experiment kernel reads or writes outside the objects it was given or allocated, reads memory it never initialised, executes undefined behaviour, violates an alignment its vector instructions require, or loses the memory it allocated. The operand matrices passed in are bitwise unchanged afterwards.",
["inputs","configurations"],"every valid input and configuration of every operation",
"Out-of-bounds and uninitialised accesses usually go unnoticed by a test that only looks at results; the repository has no sanitizer build.",
["src/reference_kernels/","src/variants/","src/memory_layout/","src/util/","otherExperiments/"],
[("all element accesses","src/variants/*, src/reference_kernels/*, src/memory_layout/*, otherExperiments/*")],
"operands, padded and tiled copies","all memory accesses (AddressSanitizer, UndefinedBehaviorSanitizer)")

p("P16","Repeating a multiplication never changes its result",
"For every algorithm that accepts a repetition count (single, pseudodynamic, combined, kernel_test for multiples of 512, kernel_tiled), the result with any repetition count R >= 1 is bit-identical to the result with R = 1, and calling multiply again on the same object returns the bit-identical matrix again; the other variants likewise give the same answer when called repeatedly.",
["histories","inputs"],"every repetition count and call history",
"Tests always use one repetition on a fresh object.",
["src/variants/combined.cpp","src/variants/static_improved.cpp","src/variants/single.cpp","src/reference_kernels/kernel_test.cpp","src/reference_kernels/kernel_tiled.cpp","src/variants/algorithms.hpp","src/variants/looped.hpp","src/variants/semi.cpp"],
[("repetition loops","src/variants/combined.cpp, src/variants/single.cpp, src/variants/static_improved.cpp, src/reference_kernels/*.cpp")],
"accumulators kept across repetitions","return values of successive calls")

p("P17","The program's result check tells the truth",
"Running the program with checking enabled prints 'check passed' exactly when every entry of the computed matrix is within 1e-10 of the reference product, and 'error: check failed!' otherwise (wrong entry anywhere, NaN, or wrong size), for every algorithm, size and parameter; for every admissible combination of parameters (kernel_test: orders that are multiples of 512) the check passes, the program's default parameters included. With verbosity 2 the matrices printed as A, B and C satisfy C = A*B in their printed precision, B being printed in its logical orientation.",
["inputs","configurations","fault_sequences"],"every algorithm, parameter combination, and corrupted result",
"The program itself is not run by any test; a check that always says 'passed' is invisible unless results are corrupted on purpose.",
["src/matrix_multiply_application/matrix_multiply.cpp","src/util/util.hpp"],
[("check in main","src/matrix_multiply_application/matrix_multiply.cpp"),("hpx_main dispatch","src/matrix_multiply_application/matrix_multiply.cpp")],
"A, B, C, Cref","standard output, exit status")

p("P18","The program rejects what it cannot do and runs what it was told to",
"An unknown algorithm name makes the program say that the name is not a valid algorithm and exit with status 1 without reporting a result; algorithms, looped and semi without a transposed B, and combined with one, are refused with an error naming the algorithm and a failure status instead of a result. Every documented algorithm name with every admissible parameter combination (kernel_test: orders that are multiples of 512) completes with status 0, and its printed N and repetition count (1 for algorithms, looped and semi, which do not repeat) reflect the parameters given; at verbosity >= 2, and only then, it prints the operands A and B (the identity), their product and, when checking, the reference product. Asking for help lists all options, computes nothing and succeeds.",
["inputs","configurations"],"every algorithm name, orientation flag and parameter combination",
"No test runs the command-line program.",
["src/matrix_multiply_application/matrix_multiply.cpp"],
[("option table, hpx_main dispatch, main epilogue","src/matrix_multiply_application/matrix_multiply.cpp")],
"option values","standard output/error, exit status")

p("P19","Invalid requests fail with a catchable, readable error",
"Asking to tile, or undo tiling, with a tiling description whose dimension does not match raises the library's layout exception; mismatched dimensions given to the blocked index iteration (range bounds, block vectors, parallel flags) and a second allocation on the single-block aligned allocator raise an exception the caller can catch as a standard exception, with the objects involved still usable. The text of the library's layout and multiplication exceptions, for messages of any content and length, is the class name followed by the message, and stays readable for as long as the exception object, or a copy of it, exists.",
["inputs","histories"],"every mismatching argument, every message text and length",
"No test triggers an error path; a dangling message text often still prints correctly.",
["src/memory_layout/memory_layout_exception.hpp","src/util/matrix_multiplication_exception.hpp","src/memory_layout/tile_array.hpp","src/variants/index_iterator.hpp","src/memory_layout/index_iterator.hpp","src/variants/looped.hpp","src/aligned_allocator.hpp"],
[("what()","src/memory_layout/memory_layout_exception.hpp, src/util/matrix_multiplication_exception.hpp"),("dimension checks","src/memory_layout/tile_array.hpp, src/variants/index_iterator.hpp, src/variants/looped.hpp")],
"exception message","exceptions reaching the caller")

p("P20","Matrix helpers build and transpose matrices correctly for every size",
"For every size, the identity helper returns ones exactly on the diagonal and zeros elsewhere, the enumerating helper numbers the entries 0, 1, 2, ... row by row, and the random helper returns the requested number of values in [0,1), always the same ones for the same size and not constant. Transposing a square matrix, or a rectangular one given its row length and the row length of the result, puts the element at row r, column c to row c, column r, so that transposing twice returns the original, and leaves the argument unchanged.",
["inputs"],"every size, shape, element type and content",
"Only used indirectly in tests with square power-of-two sizes and compared against itself.",
["src/util/create_identity_matrix.hpp","src/util/create_random_matrix.hpp","src/util/pattern_matrices.hpp","src/util/transpose_matrix.hpp"],
[("create_identity_matrix","src/util/create_identity_matrix.hpp"),("create_random_matrix","src/util/create_random_matrix.hpp"),("create_enumerating_matrix","src/util/pattern_matrices.hpp"),("transpose_matrix","src/util/transpose_matrix.hpp")],
None,"return values")

p("P21","Matrix printing shows every element once at its place",
"Printing a matrix of any number of rows and columns, on the host or through the runtime's console, writes one line per row with the row's elements in order separated by ', ', and printing it transposed writes the transposed matrix the same way (with two sizes given, the first is the number of printed rows and the second the number of printed columns). No element is left out, repeated or taken from outside the matrix.",
["inputs"],"every shape, content and printing function",
"Output is never inspected by tests; row and column counts can only be confused when they differ.",
["src/util/util.hpp"],
[("print_matrix*, print_matrix_transposed*, *_host","src/util/util.hpp")],
None,"standard output")

p("P22","The aligned allocator hands out one aligned, fully usable block",
"For every element type, element count >= 1 and power-of-two alignment at least that of the type, the allocator returns a block aligned as requested that can hold that many elements without touching other memory. The block stays valid and unmoved until the allocator is destroyed, which releases it exactly once, a second allocation from the same allocator is refused without disturbing the first, and a request that cannot be met - more bytes than can be represented or than there is memory - raises std::bad_alloc and leaves the allocator usable.",
["inputs","histories"],"every type, count, alignment, and call history",
"No test uses it.",
["src/aligned_allocator.hpp"],
[("aligned_allocator::alloc / destructor","src/aligned_allocator.hpp")],
"owned buffer","returned pointer, heap accesses (AddressSanitizer)")

p("P23","Every experiment kernel computes the true product",
"Each stand-alone experiment kernel (naive, transposed, counter, exchanged, blocked2, blocked4, asm, gpu, gpuasm, register, intrinLoop) stores the product of A and B in C, up to rounding, for every order that is a multiple of its block size and every content of the matrices, with B given transposed for transposed, counter, blocked2, blocked4, asm, gpu and gpuasm and as is for the others, 64-byte aligned operands, and C zeroed beforehand for naive and transposed, arbitrary for the others. This holds whether or not the compiler may use fused multiply-add. It writes only C and gives the same result for every number of threads.",
["inputs","schedules"],"every admissible order, matrix content, thread count",
"The benchmark multiplies a constant matrix by the identity and prints one norm, which a kernel that skips products or swaps operands also produces.",
["otherExperiments/"],
[("mult* kernels","otherExperiments/mult*.cpp")],
"C","output matrix C")

p("P24","The benchmark driver runs the chosen kernel on the documented problem",
"Given the name of an implementation, the experiment benchmark calls that kernel and no other, exactly once, on 64-byte aligned, disjoint matrices of the stated order with A constant 2, B the identity and C zero, and prints the flop count 2n^3 and, as its check value, the Frobenius norm of the result the kernel produced. Without a name, or with an unknown one, it says so, calls no kernel and exits normally.",
["inputs","configurations"],"every implementation name and every result the kernel may produce",
"Nothing in the test suite runs the benchmark.",
["otherExperiments/benchmark.cpp","otherExperiments/mult.hpp"],
[("main dispatch, setup and norm","otherExperiments/benchmark.cpp")],
"A, B, C","kernel calls and their arguments, standard output")
p("P25","A part that fails is reported, never returned as a wrong product",
"If a part of a multiplication fails - a remote action, a continuation inserting a partial result or an item of a parallel loop throws, or the memory for a matrix or a block cannot be had - single, pseudodynamic, algorithms, looped, semi and combined report it to the caller as an exception instead of returning a matrix with missing or wrong entries, wait for the parts still running, and leave the operands as they were; the program then reports no result and fails. So do kernel_tiled, the naive multiplication, the block kernels, tiling and the matrix helpers when any of their allocations fails. Afterwards the same operation, undisturbed, gives the right result.",
["inputs","schedules","fault_sequences"],"every part that can fail, in every order of completion, on every locality",
"Tests never make anything fail; a dropped failure shows only as wrong numbers on a bad day.",
["src/variants/","src/reference_kernels/","src/memory_layout/tile_array.hpp","src/util/"],
[("distribute_recursively, insert_submatrix","src/variants/components/recursive.cpp"),("matrix_multiply","src/variants/static_improved.cpp"),("parallel loops","src/variants/algorithms.cpp, src/variants/looped.cpp, src/variants/semi.cpp, src/variants/combined.cpp")],
"matrices, operands","exception or product reaching the caller; exit status and output of the program")

p("P26","Reported times, rates, sizes and warnings describe the run that took place",
"For every algorithm and admissible parameters, the printed total time covers all the runs made, is positive and no longer than the program ran; the average time is the total divided by the number of runs (1 for algorithms, looped and semi, which warn, naming the algorithm, that repetitions > 1 and verbose > 0 have no effect); the performance is runs * 2N^3 / total in Gflops, the reference performance 2N^3 / reference time when checking. At verbosity >= 1 combined and kernel_tiled report padded sizes that are N plus the reported padding, combined an inner duration that covers the multiplication and does not exceed the total, and an inner rate of runs * 2XYK / inner duration, with X, Y, K the padded sizes, and pseudodynamic, for each computing locality, exactly the sizes of the work packages that locality then computes.",
["inputs","configurations"],"every algorithm and parameter combination, any distribution of the time over the parts",
"No test runs the program, and a wrong divisor or a timer around too little still prints a plausible number.",
["src/matrix_multiply_application/matrix_multiply.cpp","src/variants/combined.cpp","src/variants/static_improved.cpp","src/reference_kernels/kernel_tiled.cpp"],
[("timing and reporting","src/matrix_multiply_application/matrix_multiply.cpp"),("inner timing, padding report","src/variants/combined.cpp, src/reference_kernels/kernel_tiled.cpp"),("work distribution printing","src/variants/static_improved.cpp")],
"durations, repetition count, work packages","standard output")
p("P27","Multiplications running at the same time do not affect each other",
"When several multiplications or helpers run at the same time in one program, each called from a thread of its own on an object and operands of its own or on operands that all of them only read, every one of them returns what it returns alone: the right product, block, transpose, tiling or generated matrix. No state is shared between them in an unsynchronized way, also not on their first use. This holds for the naive, block, tiled and 512-block kernels, algorithms, looped, semi, combined, the helpers, tiling, the aligned allocator and the experiment kernels in any mixture, and for one single or pseudodynamic multiplication among them (these use names that exist once per program).",
["inputs","schedules"],"every mixture of operations, operands and interleavings",
"Tests run one multiplication at a time; a scratch buffer or cache shared between calls is invisible then.",
["src/","otherExperiments/"],
[("naive_matrix_multiply","src/reference_kernels/naive.hpp"),("kernel","src/reference_kernels/kernel.hpp"),("matrix_multiply","src/reference_kernels/kernel_tiled.cpp, src/variants/combined.cpp, src/variants/algorithms.hpp, src/variants/looped.hpp, src/variants/semi.cpp"),("helpers","src/util/, src/memory_layout/"),("mult* kernels","otherExperiments/mult*.cpp")],
"result matrices, scratch buffers","returned values, every memory access (ThreadSanitizer)")

p("P28","Infinities, NaNs and extreme values reach exactly the entries they should",
"Each entry of a product depends on its row of A and its column of B and on nothing else: an infinity or NaN anywhere else in the operands, in padding or in an incomplete block leaves it at its exact value, and infinities, NaNs and zeros within the row and column give the infinity or NaN that IEEE arithmetic prescribes (zero times infinity and opposite infinities are NaN, also where a zero could be skipped). Subnormal values and values close to the largest number are multiplied like any others. This holds for the naive, block, tiled and 512-block kernels, algorithms, looped, semi, combined, single and pseudodynamic with all their block sizes, orientations, repetitions and schedules, when compiled without -ffast-math.",
["inputs","schedules","configurations"],"every position and combination of special values, block size, order and schedule",
"Tests only multiply random finite numbers, for which skipping a zero or multiplying unwanted values by zero makes no difference.",
["src/reference_kernels/","src/variants/"],
[("naive_matrix_multiply","src/reference_kernels/naive.hpp"),("kernel","src/reference_kernels/kernel.hpp"),("matrix_multiply","src/reference_kernels/kernel_tiled.cpp, src/variants/combined.cpp, src/variants/algorithms.hpp, src/variants/looped.hpp, src/variants/semi.cpp"),("calculate_submatrix","src/variants/components/multiplier.cpp, src/variants/components/recursive.cpp")],
"operands, padded copies","result matrix")

p("P29","Repeated work needs no more memory than the first time",
"However often an operation is called, on one object or on new ones, the memory in use after a call does not grow from call to call: besides the returned result and what the object holds while it exists, everything is released. While it runs, the most memory in use does not grow by anything of the size of a matrix when more repetitions are asked for. The distributed algorithm pseudodynamic keeps one copy of the operands per computing locality, however many work packages and repetitions it computes there. This holds for the naive, block, tiled and 512-block kernels, algorithms, looped, semi, combined, single and pseudodynamic, the helpers, tiling, the aligned allocator and the experiment kernels, on any number of threads and localities.",
["inputs","histories"],"every operation, parameters, number of calls and repetitions, localities and threads",
"A buffer kept reachable is no leak to a leak checker, and no test calls anything often enough to notice.",
["src/reference_kernels/","src/variants/","src/util/","src/memory_layout/","otherExperiments/"],
[("matrix_multiply","src/variants/single.cpp, src/variants/static_improved.cpp, src/variants/combined.cpp, src/variants/algorithms.hpp, src/variants/looped.hpp, src/variants/semi.cpp, src/reference_kernels/kernel_tiled.cpp"),("make_tiled, undo_tiling","src/memory_layout/tile_array.hpp"),("mult* kernels","otherExperiments/mult*.cpp")],
"heap memory in use","every allocation and release (sanitizer allocation hooks)")
p("P30","A call leaves the settings of its thread and process as it found them",
"Apart from its result and what it prints, a call to a multiplication, block kernel, helper, tiling, printing function or experiment kernel changes nothing that outlives it. As before, whatever they were before, are: floating-point control (rounding, flush-to-zero, exception masks) of the calling thread and of the OpenMP threads, x87/MMX state, the registers and flags a function must preserve, the OpenMP settings (except that experiment kernels may fix the number of threads), format, state and buffers of the standard streams and the number format of the runtime's console, locale, C random sequence, signal handling, timers, environment, working directory, file mode mask, resource limits, processor affinity and priority, and open files. This includes calls that fail with an exception.",
["inputs","configurations"],"every operation and parameters, any settings beforehand",
"Tests look at the returned matrix; a flush-to-zero mode left on or a changed stream format only shows in whatever runs next.",
["src/reference_kernels/","src/variants/","src/util/","src/memory_layout/","otherExperiments/"],
[("naive_matrix_multiply","src/reference_kernels/naive.hpp"),("matrix_multiply","src/reference_kernels/kernel_tiled.cpp, src/variants/"),("create_random_matrix","src/util/create_random_matrix.hpp"),("print_matrix*","src/util/util.hpp"),("mult* kernels, inline assembly","otherExperiments/mult*.cpp")],
"thread and process settings","registers, control words, stream state, system settings around each call")
p("P31","Independent parts of a parallel multiplication do not wait for each other",
"The result blocks of a multiplication do not depend on each other, and the parallel multiplications let them be computed at the same time. Recursive (single), pseudodynamic: all blocks that one repetition divides the product into, within and across packages and nodes, can be computed simultaneously given enough workers. Algorithms, combined: all result blocks (of the largest size, in combined) can. Naive, tiled and SIMD reference kernels, experiment kernels (except multTransposed, which is sequential): rows or largest blocks are divided among the OpenMP threads, so that with several of both no thread does nearly all of the work. No lock is held while a block is computed. Hence the time needed with enough workers is several times shorter than the total work, for every order, block size, orientation, number of nodes and repetitions with more than one part.",
["inputs","configurations","schedules"],"every order, block size, number of nodes and threads that give more than one part to compute",
"A test only sees that the product is right; that parts wait for each other needlessly (a wait too early, a lock, chunks too large, a lost pragma) changes no result.",
["src/variants/","src/reference_kernels/","otherExperiments/"],
[("matrix_multiply","src/variants/static_improved.cpp"),("distribute_recursively","src/variants/components/recursive.cpp"),("calculate_submatrix","src/variants/components/multiplier.cpp"),("matrix_multiply","src/variants/algorithms.hpp, src/variants/combined.cpp"),("omp parallel for","src/reference_kernels/, otherExperiments/mult*.cpp")],
"tasks, parallel loops, OpenMP threads, locks","critical path, busiest thread and lock holding times of each call")
p("P32","Work grows with N^3, memory with N^2, and a repetition repeats just the work",
"Every multiplication (naive, tiled and SIMD kernels, algorithms, looped, semi, single, pseudodynamic, combined, experiment kernels) executes a number of steps proportional to the cube of the matrix order and holds memory proportional to its square, with the block sizes given: twice the order takes at most about eight times the steps and four times the memory. The matrix helpers (identity, enumerating, random, transposed) take steps proportional to the number of entries, and making, undoing and iterating a tiling takes steps and memory proportional to the number of elements. Each repetition really computes the product again, at about the cost of a single run: k repetitions take about k times the steps of one and hold no more memory than one.",
["inputs","configurations"],"every order, block size, number of nodes, tiling and number of repetitions",
"Tests use tiny matrices and look only at results; a needless copy per row, blocks computed again on each level or runs growing with the square of the repetitions change no result.",
["src/variants/","src/reference_kernels/","src/memory_layout/","src/util/","otherExperiments/"],
[("matrix_multiply","src/variants/, src/reference_kernels/"),("distribute_recursively","src/variants/components/recursive.cpp"),("make_tiled, undo_tiling, iterate_tiles","src/memory_layout/"),("transpose_matrix","src/util/transpose_matrix.hpp"),("mult*","otherExperiments/mult*.cpp")],
"executed basic blocks, allocations","steps and memory of each call")

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
