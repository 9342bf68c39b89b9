#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                  technique=technique, note=note))


TESTS = ("The tests run six sizes per dimension on the default register tile, p=2..4, one machine description, alpha 1 and beta 0, through three entry "
         "points; ")
SG = "src/cake_sgemm.cpp"

prop("P01", "cake_sgemm computes the product under every schedule",
     "For any valid dimensions, thread count, cache description and core count, under the K-first, M-first, N-first and automatic schedules, cake_sgemm leaves "
     "C equal to A*B: exactly where the products and sums are exactly representable, and otherwise within the forward error bound of a K-term "
     "single-precision sum. Every element of C is written.",
     ["inputs", "configurations"], "all M,N,K,p >= 1, all four schedules, all cache sizes that hold a register tile, all core counts; all matrices of floats",
     TESTS + "whether a remainder block, a short team or a cache size breaks an index is a question over all shapes and machines, and an absolute tolerance of 1e-3 "
     "hides single wrong terms.",
     [SG, "src/cake_sgemm_k_first.cpp", "src/cake_sgemm_m_first.cpp", "src/cake_sgemm_n_first.cpp", "src/block_sizing.cpp", "src/pack_k_first.cpp",
      "src/pack_m_first.cpp", "src/pack_n_first.cpp", "src/unpack_k_first.cpp"],
     [("schedules over CB blocks, remainder blocks and per-core shares", "src/cake_sgemm_{k,m,n}_first.cpp"), ("block plan", "src/block_sizing.cpp init_block_dims"),
      ("packing and unpacking", "src/pack_*_first.cpp, src/unpack_*_first.cpp")],
     "runtime monitoring: product oracle over generated shapes and machines",
     "Exploration: thousands of calls per run, shapes snapped to the plan's own block edges; exact oracle on integer data.", [SG + " cake_sgemm"])

prop("P02", "cake_sgemm_online computes the product without pre-packing",
     "For any valid dimensions, thread count, cache description and core count, the online-packing entry point leaves C equal to A*B: exactly where the "
     "arithmetic is exactly representable, and otherwise within the forward error bound of a K-term single-precision sum. Every element of C is written.",
     ["inputs", "configurations"], "all M,N,K,p >= 1, all cache sizes that hold a register tile, all core counts; all matrices of floats",
     TESTS + "the online path packs panel by panel inside the parallel loops, and its edge panels depend on every remainder at once.",
     [SG, "src/cake_sgemm_k_first.cpp", "src/pack_ob.cpp", "src/block_sizing.cpp"],
     [("on-the-fly packing of A and B panels per core", "src/cake_sgemm_k_first.cpp schedule_KMN_online"), ("panel packing", "src/pack_ob.cpp")],
     "runtime monitoring: product oracle over generated shapes and machines", "Exploration: thousands of calls per run; exact oracle on integer data.",
     [SG + " cake_sgemm_online"])

prop("P03", "cake_sgemm_2d computes the product on any two-dimensional core grid",
     "For any valid dimensions, cache description and thread count, also beyond the core count the library was built for, the 2-d entry point leaves C equal "
     "to A*B: exactly where the arithmetic is exactly representable, and otherwise within the forward error bound of a K-term single-precision sum. "
     "Every element of C is written, whatever grid of cores the shape leads to.",
     ["inputs", "configurations"], "all M,N,K,p >= 1; libraries built on machines of any core count; all cache sizes that hold a register tile",
     TESTS + "the grid depends on the aspect ratio and on a table generated at build time for the core count of the build machine; the tests see one such table and p <= 4.",
     [SG, "src/cake_sgemm_k_first.cpp", "src/block_sizing.cpp", "include/tiling.h", "python/grid_gen.py"],
     [("grid choice and table", "include/tiling.h grid_dims_2d, python/grid_gen.py"), ("2-d block plan", "src/block_sizing.cpp init_block_dims_2d"),
      ("2-d schedule", "src/cake_sgemm_k_first.cpp schedule_KMN_2d")],
     "runtime monitoring: product oracle over generated shapes, team sizes and build-time core counts",
     "Exploration: libraries configured for several core counts, thousands of calls each.", [SG + " cake_sgemm_2d"])

prop("P04", "The product does not depend on register tile or block tile sizes",
     "Every entry point computes the product for every register tile the kernel generator supports, also in libraries generated for larger tiles, for every "
     "legal set of block sizes fixed by the caller, and through the small-matrix 2-d entry point. Tuning parameters change speed, never the result.",
     ["inputs", "configurations"], "all generated register tiles, all user block sizes that are multiples of the register tile with any depth, all shapes",
     TESTS + "all of them with one register tile and without user tile sizes.",
     [SG, "src/cake_sgemm_k_first.cpp", "src/cake_sgemm_m_first.cpp", "src/cake_sgemm_n_first.cpp", "src/block_sizing.cpp", "python/kernel_gen.py"],
     [("register tile selection", "src/block_sizing.cpp update_mr_nr"), ("user tile sizes", "src/block_sizing.cpp init_block_dims mcu/kcu/ncu"),
      ("kernel table", "python/kernel_gen.py kernel_map")],
     "runtime monitoring: product oracle over tuning parameters", "Exploration: all tiles of two generated kernel sets, random user tiles, four entry points.",
     [SG + " cake_sgemm, cake_sgemm_online, cake_sgemm_2d, cake_sgemm_2d_small"])

prop("P05", "alpha and beta scale as BLAS says",
     "Every entry point leaves C equal to alpha*A*B + beta*C for any finite alpha and beta. With beta 0 the previous content of C is never read into the "
     "result, not even NaN or infinity; with beta not 0 every element of the previous C, be it NaN or infinite, counts exactly once.",
     ["inputs"], "all alpha and beta, all previous contents of C, all entry points, schedules and shapes",
     "No test passes an alpha other than 1 or a beta other than 0.",
     [SG], [("saving and scaling C around the schedules", "src/cake_sgemm.cpp save_C, scale_C")],
     "runtime monitoring: alpha/beta oracle", "Exploration: elementwise oracle in double precision.", [SG])

prop("P06", "Pre-packed operands give the result of the unpacked call",
     "Operands packed once through the packing interface and announced as packed give, in any combination with unpacked ones, bit for bit the result of the "
     "unpacked call, again and again. A packed operand stays the caller's: it is neither modified nor freed.",
     ["inputs", "histories"], "all schedules, shapes, teams and combinations of packed operands, reused over several calls",
     "No test passes a packed operand.",
     [SG, "src/pack_helper.cpp", "src/pack_k_first.cpp", "src/pack_m_first.cpp", "src/pack_n_first.cpp"],
     [("packed operand switches", "src/cake_sgemm.cpp packedA/packedB"), ("packing interface", "src/pack_helper.cpp, include/packing.h")],
     "runtime monitoring: differential monitor over packed and unpacked calls", "Exploration: bitwise comparison, packed buffers read-only and guarded.",
     [SG + " cake_sgemm"])

prop("P07", "No call reads or writes outside its memory or is undefined",
     "No entry point, packing or transposition routine, block planner, kernel or result checker reads or writes outside the caller's operands and its own live "
     "allocations, or executes undefined behaviour, for any valid arguments. This includes operands that end exactly at unreadable memory.",
     ["inputs", "configurations"], "all valid arguments of the public routines, all register tiles and machine descriptions, operands placed flush against inaccessible pages",
     "Tests run without sanitizers on heap blocks with slack; an over-read of a few floats has no visible effect there.",
     ["src", "include", "python/kernel_gen.py"],
     [("edge handling of panels and blocks", "src/pack_*.cpp, src/unpack_*.cpp, src/cake_sgemm_*_first.cpp"), ("workspace sizes", "src/pack_helper.cpp")],
     "AddressSanitizer, UndefinedBehaviorSanitizer and guard pages", "Exploration: instrumented executions of every driver of the dense interface.")

prop("P08", "A call writes only its result, and reads C only when beta asks",
     "A call modifies no operand, packed or not, nothing around C, no description of the machine in its context, and nothing of the caller's state but its OpenMP team size: not its floating-point control, signal mask and handlers, processor set, priority, locale, environment, directory or sequence of random numbers; and it prints nothing. With beta 0 two "
     "calls that differ only in what C held before give the same bits, and all of C is overwritten.",
     ["inputs"], "all entry points, shapes, schedules and previous contents",
     "Tests compare C only; a corrupted operand or a neighbour of C is never looked at.",
     [SG, "src/unpack_k_first.cpp", "src/unpack_m_first.cpp", "src/unpack_n_first.cpp", "src/pack_ob.cpp"],
     [("unpacking into C", "src/unpack_*.cpp"), ("context passed by pointer", "src/cake_sgemm.cpp")],
     "runtime monitoring: read-only pages, canaries, before/after comparison", "Exploration: page protection makes any write to an operand fatal.")

prop("P09", "No data races inside a call",
     "The threads of one call never access the same memory without ordering when one of them writes: not C, not the packed panels, not the workspaces, not "
     "shared loop state. This holds for every entry point, schedule and parallel helper, whatever team the runtime grants.",
     ["schedules", "inputs"], "all interleavings of the team, all team sizes granted, all shapes and schedules",
     "A race gives a right result in nearly every run; the tests neither detect races nor vary the schedule.",
     ["src/cake_sgemm_k_first.cpp", "src/cake_sgemm_m_first.cpp", "src/cake_sgemm_n_first.cpp", "src/pack_k_first.cpp", "src/pack_m_first.cpp", "src/pack_n_first.cpp",
      "src/transpose.cpp", SG],
     [("private clauses and disjoint per-core blocks", "src/cake_sgemm_*_first.cpp #pragma omp parallel for"), ("implicit barriers between blocks", "src/cake_sgemm_*_first.cpp")],
     "ThreadSanitizer over an OpenMP stand-in that exposes only fork/join ordering",
     "Happens-before detection on executed paths: independent of the interleaving that occurs, not of the shape.")

prop("P10", "Results are deterministic for given arguments",
     "A call gives the same bits every time: in whatever order the iterations of its parallel loops run, on however many threads they are spread, and from "
     "one run to the next. Only the arguments decide.",
     ["schedules"], "all orders and overlaps of the parallel iterations, all team sizes granted for a requested p",
     "Tests compare one run with a tolerance.", ["src/cake_sgemm_k_first.cpp", "src/cake_sgemm_m_first.cpp", "src/cake_sgemm_n_first.cpp", SG],
     [("accumulation order fixed by the schedule, not by arrival", "src/cake_sgemm_*_first.cpp")],
     "runtime monitoring under a controlled scheduler: bitwise differential", "Exploration: six orders per case over the stand-in, and repetition on the real runtime.")

prop("P11", "Concurrent callers do not disturb each other",
     "Several threads of a program may call the library at once, each with its own context and C, also on shared read-only operands. Each gets the bits it "
     "would have got alone, also when these calls are the first in the process, and no data race arises between the calls.",
     ["schedules", "histories"], "all overlaps of calls of any kind from several threads",
     "The tests are single-threaded at the level of calls.", ["src"],
     [("no global mutable state in the library", "src/*.cpp")],
     "runtime monitoring: concurrent histories compared with solo runs, and ThreadSanitizer",
     "Exploration: real concurrent executions, natively and with race detection.")

prop("P12", "A call depends on its arguments, not on earlier calls",
     "In any sequence of calls on one context, with other entry points, schedules, register tiles, packed operands and helper routines in between, each call "
     "gives the bits that the same call gives alone in a fresh process on a fresh context.",
     ["histories"], "all finite sequences of library calls on one context",
     "Tests run each configuration in a process of its own or with one kind of call.", [SG, "src/block_sizing.cpp"],
     [("derived values recomputed in every call", "src/block_sizing.cpp"), ("per-call workspaces", "src/cake_sgemm.cpp")],
     "runtime monitoring: history checker against fresh processes", "Exploration: random histories of up to a dozen operations, bitwise comparison.",
     state=[("context", "machine description, register tile and kernel indices, reused over calls", "include/common.h cake_cntx_t")])

prop("P13", "Repeated calls leave no memory, descriptors, children or threads behind",
     "After every call of every routine, all the heap memory it took is released except what it hands to the caller, and repeating a call does not let heap "
     "blocks, file descriptors, child processes or threads grow. Nothing is freed twice, and no operand of the caller is freed.",
     ["histories"], "all routines, arguments and numbers of repetitions",
     "Each test process makes a few calls and exits.", [SG, "src/block_sizing.cpp", "src/util.cpp"],
     [("workspace release", "src/cake_sgemm.cpp"), ("pipes to system tools", "src/block_sizing.cpp get_num_physical_cores, get_cache_size")],
     "runtime monitoring: allocation interposer and process accounting", "Exploration: every heap call of the process counted over repeated calls.")

prop("P14", "Results never depend on uninitialised memory",
     "No element of a result, and no decision on the way to it, depends on memory that nobody initialised: on stack or heap leftovers, on padding of packed "
     "panels, or on unset fields of a context or plan.",
     ["inputs", "histories"], "all calls over all previous contents of stack and heap",
     "Fresh test processes get zeroed pages, which hide reads of unset memory.", [SG, "src/block_sizing.cpp", "src/pack_k_first.cpp", "src/pack_m_first.cpp", "src/pack_n_first.cpp", "src/pack_ob.cpp"],
     [("zeroed padding and workspaces", "src/pack_*.cpp, src/cake_sgemm.cpp calloc"), ("complete initialisation of contexts and plans", "src/block_sizing.cpp")],
     "valgrind memcheck, and differential runs over patterned and zeroed locals and dirty heaps", "Exploration: bit-precise definedness tracking on small cases, bitwise comparison on larger ones.")

prop("P15", "Special values stay in their own row and column",
     "NaN, infinities and subnormals affect exactly the elements of C that their own rows of A and columns of B reach, as IEEE arithmetic has it: padding and "
     "blocking neither spread nor swallow them. All other elements keep their bits, and subnormal numbers are not flushed to zero.",
     ["inputs"], "all placements of special values, all shapes, schedules and entry points",
     "Tests use random numbers in [-1,1] only, and a checker that takes differences.", ["src/pack_ob.cpp", "src/pack_k_first.cpp", "src/pack_m_first.cpp", "src/pack_n_first.cpp", "python/kernel_gen.py"],
     [("zero padding confined to discarded elements", "src/pack_*.cpp, src/unpack_*.cpp")],
     "runtime monitoring: class and bit oracle per element", "Exploration: every element's class and bits judged.")

prop("P16", "Block plans cover the problem exactly and fit the machine",
     "For any problem on any machine the plan's blocks are whole register tiles that cover every dimension exactly, with remainders shared over at most the "
     "threads there are; it honours block sizes and schedules the caller fixed (the 2-d plan may shrink a block to its share of the matrix) and is a function of its input. Otherwise blocks keep within the caches they are "
     "derived from, the automatic schedule is one of least modelled traffic, and the core grid divides the team in the ratio of the matrix.",
     ["inputs", "configurations"], "all M,N,K up to a million, all p, cache sizes, core counts, register tiles and user tile sizes",
     "Tests see the plans of 216 shapes on one machine, and only through the product.", ["src/block_sizing.cpp", "include/tiling.h", "python/grid_gen.py"],
     [("CB block sizing", "src/block_sizing.cpp init_block_dims, init_block_dims_2d, init_block_dims_2d_small"), ("schedule choice", "src/block_sizing.cpp derive_schedule"),
      ("grid choice", "include/tiling.h grid_dims_2d")],
     "runtime monitoring: invariant monitor over planner outputs", "Exploration: over a million plans per run; the traffic oracle evaluates the documented cost model.",
     state=[("plan", "block sizes, counts, remainders and shares", "include/common.h blk_dims_t")])

prop("P17", "Workspace is bounded by what the schedule promises",
     "The packing entry point uses at most one copy of each operand padded to register tiles plus its result blocks, and less when operands come packed; the sizes the "
     "packing interface announces are at least the operands and at most those padded copies. The online and 2-d entry points use workspace that does not grow with "
     "the matrices beyond the cache blocks.",
     ["inputs", "configurations"], "all shapes, teams, machines, schedules and tile sizes",
     "Nothing measures memory.", [SG, "src/pack_helper.cpp"],
     [("announced sizes", "src/pack_helper.cpp cake_sgemm_packed_{A,B,C}_size"), ("per-core blocks", "src/cake_sgemm.cpp")],
     "runtime monitoring: peak heap measured by an allocation interposer", "Exploration: peak of every call against its bound.")

prop("P18", "The machine description is what the system reports",
     "A context describes the machine as the system's tools report it: cache sizes of each level in whatever unit, and physical cores per socket; where they report "
     "nothing it holds documented defaults, never garbage or zero. Two queries agree, sizes given by the caller are kept, and the context is usable as it is, whatever the caller did with its own descriptors and signals and whatever locale it runs in. A query leaves the caller's signal handlers, environment, locale and the like as they were.",
     ["configurations", "fault_sequences"], "all machines: cache sizes and units, missing levels, sockets, threads per core; tools that are silent, fail or are translated",
     "Tests run on the one machine they run on.", ["src/block_sizing.cpp", "src/util.cpp"],
     [("parsing of tool output", "src/block_sizing.cpp get_cache_size, get_num_physical_cores"), ("context construction", "src/block_sizing.cpp cake_query_cntx, cake_query_cntx_torch")],
     "runtime monitoring under stand-in system tools", "Exploration: hundreds of fabricated machines per run, part of them under sanitizers.")

prop("P19", "Every generated dense micro-kernel computes its tile exactly",
     "Each micro-kernel the generator writes, for x86 and for armv8, adds the product of one packed panel pair to its tile of C for every depth k >= 0, and touches nothing else. "
     "The tile selected for given register dimensions is the kernel of those dimensions.",
     ["inputs", "configurations", "programs"], "all generated kernels, all depths, all panel contents",
     "Tests reach one kernel of the default set through the product; the armv8 generator is never run.", ["python/kernel_gen.py", "include/kernel_wrapper.h", "src/block_sizing.cpp"],
     [("kernel generator", "python/kernel_gen.py Haswell.Dense, Armv8.Dense"), ("kernel table", "python/kernel_gen.py gen_dense_kernel_headers")],
     "runtime monitoring: tile oracle with guard pages; NEON played by a scalar stand-in", "Exploration; the NEON stand-in is trusted to mean what the instructions mean.")

prop("P20", "Packing moves every element to its place exactly once",
     "Packing an operand under any schedule puts each element at the place its block, panel and tile give it, once, and zeroes all padding; nothing outside the announced "
     "size is touched. The panel kernels do so for every width and depth.",
     ["inputs", "configurations"], "all operands, shapes, schedules, teams, register tiles", "Tests see packing only through the product.",
     ["src/pack_k_first.cpp", "src/pack_m_first.cpp", "src/pack_n_first.cpp", "src/pack_helper.cpp", "include/packing.h", "src/pack_ob.cpp"],
     [("packing routines", "src/pack_*_first.cpp"), ("panel kernels", "src/pack_ob.cpp, include/packing.h")],
     "runtime monitoring: conservation monitor over packed buffers", "Exploration: every packed float accounted for.")

prop("P21", "Every generated sparse micro-kernel computes its tile exactly",
     "Each sparse micro-kernel the generator writes, for x86 and for armv8, in the plain and the compressed variant, adds to its tile of C the product of a tile of A, given by "
     "its non-zeros column by column, with the rows of B that the columns name. It does so for every sparsity pattern in its format and every number of columns, and reads no further than the arrays go.",
     ["inputs", "programs"], "all sparsity patterns with empty columns last (anywhere for the compressed variant), all depths, row orders and register tiles",
     "No test generates or runs a sparse kernel.", ["python/kernel_gen.py"],
     [("sparse kernel generator", "python/kernel_gen.py Haswell.Sparse, Armv8.Sparse, gen_sparse_kernel_headers")],
     "runtime monitoring: sparse tile oracle with guard pages and sanitizers", "Exploration; the NEON stand-in is trusted.")

prop("P22", "BLIS packing gives the same product",
     "The adopted BLIS packing kernels fill panels exactly for every depth and stride, reading and writing nothing else, and libraries configured to pack with them compute the same products as the "
     "default ones. The entry point that mirrors the main one through the BLIS-style path, with packed or unpacked operands, computes the product too.",
     ["inputs", "configurations"], "all depths, strides, shapes, schedules and teams, on x86 and armv8", "No test builds these configurations or calls that entry point.",
     ["src/kernels/haswell/blis_pack_haswell.cpp", "src/kernels/armv8/blis_pack_armv8.cpp", "include/packing.h", "src/pack_k_first.cpp", SG],
     [("packing kernels", "src/kernels/*/blis_pack_*.cpp"), ("selection by configuration", "include/packing.h"), ("BLIS-style packing", "src/pack_k_first.cpp pack_A_single_buf_k_first_blis, pack_B_k_first_blis")],
     "runtime monitoring: panel and product oracles over reconfigured builds", "Exploration; the NEON stand-in is trusted.")

prop("P23", "Transposition is exact for every shape and tiling",
     "The transposition routines put every element of a matrix at its transposed place once and touch nothing else, for any shape, any tile sizes and any team, and the register-block kernels for any strides.",
     ["inputs", "schedules"], "all K,N >= 1, tile sizes >= 1, strides and teams", "No test transposes anything.",
     ["src/transpose.cpp", "src/kernels/haswell/transpose_haswell.cpp", "src/util.cpp"],
     [("tiled parallel transposition", "src/transpose.cpp"), ("8x8 kernel and edge kernel", "src/kernels/haswell/transpose_haswell.cpp")],
     "runtime monitoring: element oracle with guard pages and sanitizers", "Exploration: all residues of shape and tile modulo the register block.")

prop("P24", "The product does not depend on where and how it is called",
     "Every entry point computes the product, scaled and accumulated where asked, also when called inside a parallel region, nested or not, from threads with small stacks, under signals, in any rounding mode, on operands that overlap each other, after the caller changed its own team size, and when the "
     "environment limits, nests, binds or varies OpenMP teams. Fewer threads than asked for mean less speed, never a wrong result; the caller's floating-point mode is left as it was.",
     ["configurations", "schedules"], "all calling contexts and OpenMP environment settings, all entry points and shapes", "Tests call from the main thread under the default environment.",
     [SG, "src/cake_sgemm_k_first.cpp", "src/cake_sgemm_m_first.cpp", "src/cake_sgemm_n_first.cpp"],
     [("work shared by loop index, not by thread number", "src/cake_sgemm_*_first.cpp"), ("workspaces on the heap", "src/cake_sgemm.cpp")],
     "runtime monitoring: product oracle under hostile surroundings", "Exploration: seven environments by eight calling contexts.")

prop("P25", "The library's own result checkers are sound",
     "The product checker, the matrix comparison and the sum checker accept every result that is right up to their tolerance and reject every result with an element further off, anywhere, by any amount, "
     "including NaN and infinity. They change nothing.",
     ["inputs"], "all matrices, positions and sizes of error", "The tests rely on these checkers; nothing tests the checkers.",
     ["src/util.cpp"], [("comparison", "src/util.cpp cake_sgemm_checker, mat_equals, add_checker")],
     "runtime monitoring: verdict monitor over right and corrupted results", "Exploration: planted errors of every kind and place.")

prop("P26", "The reported running time is a measured interval",
     "The time each entry point reports is the interval between two readings of the clock made during the call, in seconds: not negative, and right across second boundaries and for long calls.",
     ["schedules", "inputs"], "all clock values and advances", "Tests ignore the returned time.",
     [SG], [("clock readings around the phases", "src/cake_sgemm.cpp clock_gettime")],
     "runtime monitoring with a clock owned by the monitor", "Exploration: interposed clock with steps from nanoseconds to minutes.")

prop("P27", "The armv8 configuration computes the product",
     "The library as configured and generated for armv8 gives the guarantees of the x86 one: every entry point, schedule, register tile, block tiling, scaling and packed operand leads to the right product, within bounds.",
     ["inputs", "configurations"], "all shapes, schedules, teams, tiles and machines in the armv8 configuration", "The tests run on x86 only; the armv8 code is not even compiled there.",
     ["python/kernel_gen.py", "src/kernels/armv8", "kernels.mk", "Makefile", "install.sh", "src/block_sizing.cpp"],
     [("armv8 kernels", "python/kernel_gen.py Armv8.Dense"), ("configuration by architecture", "install.sh, Makefile, kernels.mk")],
     "runtime monitoring: product oracles over the armv8 build, NEON played by a scalar stand-in", "Exploration; the NEON stand-in is trusted, weak memory ordering is not modelled.")

prop("P28", "The linear layer's passes are right and release what they take",
     "The forward pass of the bound linear layer gives input times transposed weight plus bias, and the backward pass the gradients for input, weight and bias, for any shapes, contiguous or strided operands, with and without bias. "
     "Operands keep their values, and everything a pass takes from the heap is released with its results.",
     ["inputs", "histories"], "all batch sizes, feature counts, operand layouts and machine descriptions", "The extension is not built here and has no test.",
     ["src/linear.cpp"], [("forward and backward passes over the product", "src/linear.cpp linear_forward, linear_backward")],
     "runtime monitoring over a stand-in for the tensor library, with sanitizers", "Exploration; the tensor stand-in is trusted to mean what PyTorch documents.")

prop("P29", "Operands move between memory and panels as seldom as the schedule promises",
     "A packed product (cake_sgemm, cake_sgemm_2d_small, cake_sgemm_test) reads every element of A and B at most once; an online or 2-d product at most as often as the K-first snake walk comes anew to the block holding it, blocks that two consecutive steps share being kept. "
     "With alpha 1 and beta 0 every element of C is written exactly once and never read: partial sums stay in the workspace.",
     ["inputs", "configurations"], "all shapes, schedules, teams, core grids, tilings and cache sizes", "A product that packs or writes out its blocks over and over is still right; the tests compare results only.",
     [SG, "src/cake_sgemm_k_first.cpp", "src/pack_ob.cpp", "src/pack_helper.cpp", "src/unpack_k_first.cpp", "src/unpack_m_first.cpp", "src/unpack_n_first.cpp"],
     [("reuse of the block shared by consecutive steps", "src/cake_sgemm_k_first.cpp schedule_KMN_online, schedule_KMN_2d"), ("one pass of packing and one of unpacking", "src/cake_sgemm.cpp")],
     "runtime monitoring: every memory access counted by compiler instrumentation", "Exploration: instrumented accesses of the library's own code, exact counts per element.")

prop("P30", "The work of a call is shared out over its threads",
     "On a problem with many whole blocks and register tiles for each thread, no thread of a team of p >= 4 makes more than 1.9 times an even share (1/p) of the reads of A, of the reads of B, of the writes of C, or of the panel accesses of the multiplication: packing, multiplying and unpacking are all divided.",
     ["inputs", "schedules"], "all entry points, schedules, team sizes of 4 and more and core grids", "A product one thread computes alone is as right as a shared one.",
     [SG, "src/cake_sgemm_k_first.cpp", "src/cake_sgemm_m_first.cpp", "src/cake_sgemm_n_first.cpp", "src/pack_k_first.cpp", "src/unpack_k_first.cpp"],
     [("parallel loops over cores and register tiles", "src/cake_sgemm_*.cpp, src/pack_*.cpp, src/unpack_*.cpp")],
     "runtime monitoring: accesses per thread counted by compiler instrumentation", "Exploration: best of up to 60 executions per problem, so that scheduling accidents do not count.")

prop("P31", "Running out of memory or processes never gives a crash or a wrong result",
     "When an allocation or a subprocess fails during a call, the call prints a message and ends the process with an error status, or still gives the right result. "
     "It never crashes, hangs, ends silently or successfully, or returns something wrong.",
     ["fault_sequences", "inputs"], "every allocation and subprocess of every entry point, query, planner, checker and layer pass, failing alone or with all that follow", "No test makes an allocation or a subprocess fail.",
     [SG, "src/block_sizing.cpp", "src/util.cpp", "src/linear.cpp"],
     [("checked allocations", "src/util.cpp checked_malloc, src/cake_sgemm.cpp posix_memalign"), ("checked subprocesses", "src/block_sizing.cpp popen")],
     "runtime monitoring with fault injection at every allocation and subprocess", "Exploration: exhaustive over the places of each explored call.")

prop("P32", "The test-data helpers fill and show exactly the matrix they are given",
     "rand_init sets each of the r*c elements, and nothing else, to a finite value spread evenly over [-1, 1], rand_gaussian to standard normal values; the same srand gives the same data and another other data. "
     "print_mat and print_array write every element once, in row order, a line per row, print_schedule the schedule's name, and none of them changes its argument.",
     ["inputs"], "all shapes, seeds and contents", "Every test relies on the data being there; none looks at it.",
     ["src/util.cpp"], [("filling and printing", "src/util.cpp rand_init, rand_gaussian, print_mat, print_array, print_schedule")],
     "runtime monitoring: guard pages, element oracle and moments of the data, output read back", "Exploration; distributions judged at six standard errors.")

prop("P33", "The library's self-test reports exactly the products that failed",
     "run_tests tries every entry point and schedule on every team from 2 to the machine's cores and every combination of its sizes, on freshly filled operands of that size, checks each product right after making it, "
     "reports each one the checker rejects with its entry point, team and sizes and no other, and says that all passed exactly when none was rejected.",
     ["inputs", "histories"], "all numbers of cores and all verdicts of the checker", "It is the test: when it overlooks a failure nothing else notices.",
     ["src/util.cpp"], [("the loop over products and the final verdict", "src/util.cpp run_tests")],
     "runtime monitoring: entry points, checker and data interposed by the monitor", "Exploration: verdicts of the monitor's making, from none to all wrong.")

prop("P34", "The Python linear module is a linear layer, forward and backward",
     "cake_linear (python/cake.py) gives input times transposed weight plus bias and leaves every input that wants one, the weight and the bias their exact gradients, with and without bias, whatever passes of it or of other modules lie between a pass forward and its pass backward, and whatever steps change its parameters in between. "
     "Its parameters start within 0.1 of zero, inputs keep their values, and the C++ passes are told the machine's L2 and L3 sizes.",
     ["inputs", "histories", "configurations"], "all batch sizes, feature counts, layouts, interleavings of passes and machine descriptions", "The Python layer has no test, and needs an extension that is not built here.",
     ["python/cake.py", "src/linear.cpp"], [("autograd function and module", "python/cake.py cake_linear_function, cake_linear"), ("the passes it binds", "src/linear.cpp")],
     "runtime monitoring of the real module and passes over a stand-in for the tensor library", "Exploration; the tensor stand-in, Python and C++ side, is trusted to mean what PyTorch documents.")

prop("P35", "Installing leaves a tree that builds, however often and wherever repeated",
     "However often install.sh and the generators are run in one tree, and on whatever sequence of machines (any number of cores, threads and sockets, lscpu mute or not, x86 or armv8), the headers and kernels they leave compile and link. "
     "The kernel table then holds a kernel for every register tile asked for last, each computing its tile exactly, and the grid table says of every core count it covers which grid sizes divide it, up to the cores of the machine last installed on.",
     ["inputs", "histories", "configurations"], "all sequences of installations and kernel ranges, machines of any core count", "The tests install once, on one machine, into a fresh copy.",
     ["install.sh", "python/kernel_gen.py", "python/grid_gen.py"], [("grid table", "python/grid_gen.py gen_factor_table, get_num_cores"), ("kernel table", "python/kernel_gen.py gen_kernel_headers, gen_all_kernels")],
     "runtime monitoring of the real installation in scratch trees: what it leaves is compiled, run and judged", "Exploration: sequences of up to four steps on stand-in machines.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        q = {k: v for k, v in p.items() if k not in ("technique", "note")}
        f.write(json.dumps(q) + "\n")
man = dict(version=1, setup_cmd="python3 check.py setup",
           checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                        technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
           not_applicable=[])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
