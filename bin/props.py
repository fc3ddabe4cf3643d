# World executables and per-property settings of bin/check.py.
REAL_IO = "il/io/numpy, il/io/io_base.h, il/Array.h, il/Array2D.h, il/String.h, il/Status.h, il/Info.h, glibc stdio buffering"
WORLDS = {
    "npy": {"sources": ["io_main.cpp", "io_plan.cpp", "io_npy.cpp", "@repo/il/io/numpy/numpy.cpp"], "flags": ["-DONLY_NPY"]},
    "array": {"sources": ["cont_main.cpp", "w_array.cpp"], "flags": ["-DWORLD=world_array"]},
    "nd": {"sources": ["cont_main.cpp"] + ["w_nd.cpp -DND=%d" % k for k in range(6)] + ["w_nd.cpp"], "flags": ["-DWORLD=world_nd"]},
    "align": {"sources": ["cont_main.cpp", "w_array.cpp"] + ["w_nd.cpp -DND=%d" % k for k in range(6)] + ["w_nd.cpp", "w_align.cpp"], "flags": ["-DWORLD=world_align"]},
    "small": {"sources": ["cont_main.cpp", "w_small.cpp"], "flags": ["-DWORLD=world_small"]},
    "string": {"sources": ["cont_main.cpp", "w_string.cpp"], "flags": ["-DWORLD=world_string"]},
    "map": {"sources": ["cont_main.cpp", "w_map.cpp"], "flags": ["-DWORLD=world_map"]},
    "maparray": {"sources": ["cont_main.cpp", "w_map.cpp"], "flags": ["-DWORLD=world_maparray"]},
    "dynamic": {"sources": ["cont_main.cpp", "w_dynamic.cpp"], "flags": ["-DWORLD=world_dynamic"]},
    "deque": {"sources": ["cont_main.cpp", "w_deque.cpp"], "flags": ["-DWORLD=world_deque"]},
    "info": {"sources": ["cont_main.cpp", "w_info.cpp"], "flags": ["-DWORLD=world_info"]},
    "status": {"sources": ["cont_main.cpp", "w_info.cpp"], "flags": ["-DWORLD=world_status"]},
    "timer": {"sources": ["cont_main.cpp", "w_timer.cpp"], "flags": ["-DWORLD=world_timer"]},
    "tri": {"sources": ["cont_main.cpp", "w_tri.cpp"], "flags": ["-DWORLD=world_tri"]},
    "algo": {"sources": ["cont_main.cpp", "w_algo.cpp"], "flags": ["-DWORLD=world_algo"]},
    "dense": {"sources": ["cont_main.cpp", "w_dense.cpp -DIL_MKL -DIL_BLAS -I/usr/include/mkl"], "flags": ["-DWORLD=world_dense"], "libs": ["-Wl,--no-as-needed", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core"]},
    "sparse": {"sources": ["cont_main.cpp", "w_sparse.cpp -DIL_MKL -DIL_BLAS -I/usr/include/mkl"], "flags": ["-DWORLD=world_sparse"], "libs": ["-Wl,--wrap=pardiso_64", "-Wl,--wrap=dcsrilu0", "-Wl,--wrap=dfgmres_init", "-Wl,--wrap=dfgmres", "-Wl,--wrap=mkl_sparse_d_create_csr", "-Wl,--wrap=mkl_sparse_s_create_csr", "-Wl,--wrap=mkl_sparse_destroy", "-Wl,--wrap=mkl_sparse_d_mv", "-Wl,--wrap=mkl_sparse_s_mv", "-Wl,--no-as-needed", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core"]},
    "sizes": {"configs": ["D"], "sources": ["cont_main.cpp", "w_sizes.cpp -DIL_MKL -DIL_BLAS -I/usr/include/mkl"], "flags": ["-DWORLD=world_sizes"], "libs": ["-Wl,--no-as-needed", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core"]},
    "fresh": {"configs": ["D"], "sources": ["cont_main.cpp", "w_fresh.cpp"], "flags": ["-DWORLD=world_fresh"]},
    "utf16": {"sources": ["cont_main.cpp", "w_utf16.cpp"], "flags": ["-DWORLD=world_utf16"]},
    "tree": {"sources": ["cont_main.cpp", "w_tree.cpp"], "flags": ["-DWORLD=world_tree"]},
    "arith": {"sources": ["cont_main.cpp", "w_arith.cpp -fsanitize=signed-integer-overflow -fsanitize-undefined-trap-on-error", "arith_impl.cpp -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero -fsanitize-undefined-trap-on-error", "arith_impl.cpp -DARITH_BUILTIN"], "flags": ["-DWORLD=world_arith"]},
    "lapack": {"sources": ["cont_main.cpp", "w_lapack.cpp -DIL_MKL -DIL_BLAS -I/usr/include/mkl"], "flags": ["-DWORLD=world_lapack"], "libs": ["-Wl,--wrap=LAPACKE_dgesv", "-Wl,--wrap=LAPACKE_dgtsv", "-Wl,--wrap=LAPACKE_dgbsv", "-Wl,--wrap=LAPACKE_dgetri", "-Wl,--wrap=LAPACKE_zgetri", "-Wl,--wrap=LAPACKE_dgecon", "-Wl,--wrap=LAPACKE_dgeqrf", "-Wl,--wrap=LAPACKE_zgeqrf", "-Wl,--wrap=LAPACKE_dgehrd", "-Wl,--wrap=LAPACKE_dhseqr", "-Wl,--wrap=LAPACKE_dgebrd", "-Wl,--wrap=LAPACKE_zgebrd", "-Wl,--wrap=LAPACKE_dbdsqr", "-Wl,--wrap=LAPACKE_zbdsqr", "-Wl,--no-as-needed", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core"]},
    "bounds": {"configs": ["D"], "sources": ["cont_main.cpp", "w_bounds.cpp -DIL_MKL -DIL_BLAS -I/usr/include/mkl"], "flags": ["-DWORLD=world_bounds"], "libs": ["-Wl,--no-as-needed", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core"]},
    "memory": {"sources": ["cont_main.cpp", "io_plan.cpp", "io_npy.cpp", "@repo/il/io/numpy/numpy.cpp", "w_array.cpp", "w_small.cpp", "w_nd.cpp", "w_map.cpp", "w_string.cpp", "w_dynamic.cpp", "w_info.cpp", "w_deque.cpp", "w_tri.cpp", "w_utf16.cpp", "w_tree.cpp", "w_memory.cpp", "io_toml.cpp", "@repo/il/io/toml/toml.cpp", "io_data.cpp"] + ["w_nd.cpp -DND=%d" % k for k in range(6)], "flags": ["-DWORLD=world_memory"]},
    "threads": {"sources": ["cont_main.cpp", "@repo/il/io/numpy/numpy.cpp", "w_array.cpp", "w_small.cpp", "w_nd.cpp", "w_map.cpp", "w_string.cpp", "w_dynamic.cpp", "w_info.cpp", "w_deque.cpp", "w_tri.cpp", "w_threads.cpp", "thr_files.cpp", "@repo/il/io/toml/toml.cpp"] + ["w_nd.cpp -DND=%d" % k for k in range(6)], "flags": ["-DWORLD=world_threads"]},
    "toml": {"sources": ["io_main.cpp", "io_plan.cpp", "io_toml.cpp", "@repo/il/io/toml/toml.cpp"], "flags": ["-DONLY_TOML"]},
    "data": {"sources": ["io_main.cpp", "io_plan.cpp", "io_data.cpp", "@repo/il/io/toml/toml.cpp"], "flags": ["-DONLY_DATA"]},
    "io": {"sources": ["io_main.cpp", "io_plan.cpp", "io_npy.cpp", "@repo/il/io/numpy/numpy.cpp", "io_toml.cpp", "@repo/il/io/toml/toml.cpp", "io_data.cpp"], "flags": []},
    "file": {"sources": ["io_main.cpp", "io_plan.cpp", "io_file.cpp"], "flags": ["-DONLY_FILE"]},
    "ppm": {"sources": ["io_main.cpp", "io_plan.cpp", "io_ppm.cpp"], "flags": ["-DONLY_PPM"]},
    "solver": {"sources": ["cont_main.cpp", "w_solver.cpp -DIL_MKL -DIL_BLAS -I/usr/include/mkl"], "flags": ["-DWORLD=world_solver"], "libs": ["-Wl,--wrap=dcg_init", "-Wl,--wrap=dfgmres_init", "-Wl,--no-as-needed", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core"]},
}
ALLOC_STUB = "malloc/free (simulated heap with garbage, redzones, drawn placement and refusals); abort()"
PROPS = {
    "C01": {"world": "npy", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            "each run draws an array (type, rank, shape incl. 0, spare capacity, content), a previous file, stdio buffer "
            "size, write chunking and 0-3 storage faults, saves, and judges the file with an independent reader; "
            "non-trivial: a save was attempted", "real": REAL_IO,
            "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C02": {"world": "npy", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            "each run stores a file (saved by the library, torn by a crash at a drawn byte of the save, or written by an "
            "independent writer with drawn dtype, rank, ordering), then loads it under a drawn fault plan; non-trivial: a "
            "load was attempted", "real": REAL_IO,
            "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C03": {"world": "npy", "runs": [1800000, 6000000], "seconds": [20, 600], "rule":
            "each run damages a valid file with 0-4 drawn mutations and loads it as a drawn type; non-trivial: a load was attempted",
            "real": REAL_IO, "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C07": {"world": "io", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            "as C01-C03; judged: handles, heap blocks, read-only files, other files", "real": REAL_IO,
            "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C11": {"world": "array", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            "each run draws an element type, memory placement, content and (1 run in 12) a refused request, and 1-80 operations on "
            "3 arrays, checked after each operation against a sequence model; non-trivial: more than 3 operations",
            "real": "il/container/1d/Array.h, ArrayView.h, il/core/memory/allocate.h, il/String.h as element", "stub": ALLOC_STUB, "assumptions": []},
    "C12": {"world": "nd", "runs": [1800000, 8000000], "seconds": [20, 600], "rule":
            "each run draws one of six array kinds, an element type, memory placement, content and (1 run in 12) a refused request, and "
            "1-24 operations on 3 arrays, checked after each operation against an index-to-value model; non-trivial: more than 3 operations",
            "real": "il/container/2d/Array2D.h, Array2C.h, 3d/Array3D.h, Array3C.h, 4d/Array4D.h, Array4C.h, their views, il/core/memory/allocate.h",
            "stub": ALLOC_STUB, "assumptions": []},
    "C14": {"world": "align", "runs": [1800000, 8000000], "seconds": [20, 600], "rule":
            "each run draws an array kind, an arithmetic element type, alignment, offset and modulus, the residue of every heap block, and "
            "1-80 operations; the residue of the first element is checked after each operation; non-trivial: more than 3 operations",
            "real": "il/container/1d/Array.h, 2d, 3d, 4d arrays, il/core/memory/allocate.h", "stub": ALLOC_STUB, "assumptions": []},
    "C13": {"world": "small", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            "each run draws a small-buffer array (element type, inline capacity 1-8) or a fixed-size array (1 to 4 dimensions), memory placement, "
            "content and (1 run in 12) a refused request, and 1-80 operations on 3 arrays, checked after each operation against a sequence model; "
            "non-trivial: more than 3 operations",
            "real": "il/container/1d/SmallArray.h, StaticArray.h, 2d/StaticArray2D.h, StaticArray2C.h, 3d/StaticArray3D.h, 4d/StaticArray4D.h, "
            "il/core/memory/allocate.h, il/String.h as element", "stub": ALLOC_STUB, "assumptions": []},
    "C17": {"world": "string", "runs": [3000000, 8000000], "seconds": [20, 600], "rule":
            "each run draws 1-80 operations on 3 strings (ASCII, UTF-8 or bytes, lengths around the inline and heap capacities), memory placement, "
            "content and (1 run in 12) a refused request; bytes, terminator, size, kind and storage are checked after each operation against "
            "a byte string; non-trivial: more than 3 operations",
            "real": "il/container/string/String.h, algorithmString.h, il/core/memory/allocate.h", "stub": ALLOC_STUB, "assumptions": []},
    "C15": {"world": "map", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            "each run draws key and value types (int, long, String, tracked objects; good or colliding hash), a key domain, memory placement, content "
            "and (1 run in 12) a refused request, and 1-80 operations on 3 maps; count, iteration and searches of present and absent keys are "
            "checked after each operation against a mathematical map; non-trivial: more than 3 operations",
            "real": "il/container/hash/Map.h, HashFunction.h, il/core/memory/allocate.h, il/String.h as key and value", "stub": ALLOC_STUB, "assumptions": []},
    "C16": {"world": "maparray", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            "as C15 on 3 insertion-ordered maps, against an ordered list of pairs",
            "real": "il/container/hash/MapArray.h, Map.h, HashFunction.h, il/Array.h, il/core/memory/allocate.h", "stub": ALLOC_STUB, "assumptions": []},
    "C18": {"world": "dynamic", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run draws 1-80 operations on 3 dynamically typed values (all kinds that can be stored, nested up to 3 deep), on the whole or on drawn parts, memory placement, content and (1 run in 12) a refused request; the whole trees are read back after each operation and compared with a model; non-trivial: more than 3 operations',
            "real": 'il/container/dynamic/Dynamic.h, Type.h, il/Array.h, Array2D.h, Map.h, MapArray.h, String.h as contents', "stub": ALLOC_STUB, "assumptions": []},
    "C10": {"world": "status", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run draws 1-80 operations on 3 status objects (errors, information of all kinds, consultations, rearming, moves, destruction), memory placement, content and (1 run in 12) a refused request; operations that would lose an unconsulted report must stop the process when debug checks are on; non-trivial: more than 3 operations',
            "real": 'il/container/info/Status.h, Info.h', "stub": ALLOC_STUB, "assumptions": []},
    "C19": {"world": "info", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run draws 1-80 operations on 3 information records (names of one byte difference, all lengths, all value kinds), memory placement, content and (1 run in 12) a refused request; every name stored and drawn absent names are looked up after each operation; non-trivial: more than 3 operations',
            "real": 'il/container/info/Info.h', "stub": ALLOC_STUB, "assumptions": []},
    "C22": {"world": "timer", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run draws a monotonic clock (tick, granularity, stalls), wall clock jumps, interrupted and late sleeps, and 1-80 operations on 2 timers and of the sleep functions; durations and wake-ups are compared with the simulated clock; non-trivial: more than 3 operations',
            "real": 'il/benchmark/tools/timer/Timer.h', "stub": "clock_gettime, nanosleep; allocator; abort()", "assumptions": []},
    "C24": {"world": "deque", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run draws an element type and 1-80 operations on 3 deques, memory placement, content and (1 run in 12) a refused request; size and order are checked after each operation against a two-ended sequence; non-trivial: more than 3 operations',
            "real": 'il/container/deque/Deque.h, il/core/memory/allocate.h', "stub": ALLOC_STUB, "assumptions": []},
    "C25": {"world": "tri", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run draws a lower, upper, band or tri-diagonal array, an element type, memory placement, content and (1 run in 12) a refused request, and 1-80 operations on 3 arrays, checked after each operation against an index-to-value model; non-trivial: more than 3 operations',
            "real": 'il/container/2d/LowerArray2D.h, UpperArray2D.h, BandArray2C.h, TriDiagonal.h', "stub": ALLOC_STUB, "assumptions": []},
    "C20": {"world": "memory", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run is a run of another world (arrays, small arrays, multi-dimensional and triangular arrays, maps, strings, dynamic values, records, statuses, queues, .npy, .toml and .data files) with, 1 time in 2, a refused request at a drawn index, or one request of an impossible size (element count drawn near the representable limits); the operation whose request was refused must stop the process; non-trivial: more than 3 operations or a request refused',
            "real": 'il/core/memory/allocate.h and all containers, il/io/numpy, il/io/toml, il/io/filepack', "stub": ALLOC_STUB, "assumptions": []},
    "C21": {"world": "threads", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run draws 2-4 threads, what each does (a history of another world on its own objects, reads and copies of shared constant objects, saves and loads of its own .npy, .toml and .data files, bytes through il::File, loads of shared read-only files, saves of a shared constant tree), runs them one by one, then interleaved with switches drawn at basic blocks, allocations and disk calls; every thread must have the same history; non-trivial: more than 2 switches',
            "real": 'il/container, il/io/numpy, il/io/toml, il/io/filepack, il/io/File.h, il/core/memory/allocate.h', "stub": "thread scheduling (one at a time, switches drawn); disk; allocator; abort()", "assumptions": []},
    "C04": {"world": "toml", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            'each run draws a configuration tree (all scalar kinds incl. extreme values, strings of any bytes that are valid UTF-8, arrays of all forms, tables nested up to 12 deep), a previous file, stdio buffer size, write chunking and 0-3 storage faults, saves, and judges the file with an independent strict TOML reader; non-trivial: a save was attempted',
            "real": 'il/io/toml/toml.h, toml.cpp, il/io/io_base.h, il/container/dynamic/Dynamic.h, il/container/hash/MapArray.h, Map.h, il/String.h, il/Status.h, glibc stdio buffering', "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C05": {"world": "toml", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            'each run draws a tree and writes it as a document with an independent writer (drawn quoting, escapes, comments, blanks, line ends, long lines, inline or header tables in any order, multi-line arrays), then loads it under a drawn read plan with 0-3 storage faults; non-trivial: a load was attempted',
            "real": 'il/io/toml/toml.h, toml.cpp, il/io/io_base.h, il/container/dynamic/Dynamic.h, il/container/hash/MapArray.h, Map.h, il/String.h, il/Status.h, glibc stdio buffering', "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C06": {"world": "toml", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            'each run damages a document with 1-4 drawn mutations, or cuts it (also by a crash of its save), or nests values thousands deep, and loads it within a step and memory budget; non-trivial: a load was attempted',
            "real": 'il/io/toml/toml.h, toml.cpp, il/io/io_base.h, il/container/dynamic/Dynamic.h, il/container/hash/MapArray.h, Map.h, il/String.h, il/Status.h, glibc stdio buffering', "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C09": {"world": "data", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            'each run draws a map (all kinds of values, nested maps up to 4 deep, maps of arrays saved as arrays of structures), saves it, and loads it as an ordered or an unordered map, with 0-3 storage faults in the save or in the load, or after the file was cut at a drawn byte or damaged by 1-4 mutations; non-trivial: a save was attempted',
            "real": 'il/io/filepack/filepack.h, il/io/io_base.h, il/container/dynamic/Dynamic.h, il/container/hash/MapArray.h, Map.h, il/Array2D.h, il/String.h, il/Status.h, glibc stdio buffering', "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C08": {"world": "file", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            "each run draws a file, a buffer size (none to larger than the file), 1-30 reads (of fixed and of drawn size) and skips or writes, a stdio buffer size, read/write chunking and 0-3 storage faults; every read is compared with the bytes at the model's position, every file written with the bytes given; non-trivial: the file was asked to be opened",
            "real": 'il/io/File.h, il/Array.h, il/String.h, il/Status.h, glibc stdio buffering', "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C23": {"world": "solver", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run draws a system of order 1-16 (well and ill conditioned, singular, indefinite, unsymmetric), a solver, a preconditioner or none, tolerances, iteration limits and initial guesses, then 1-4 resolutions or step-by-step iterations, 1 in 2 with an operator or preconditioner that misbehaves from a drawn call on (nan, inf, zeros, noise, sign, huge, stale, half written); every reported success is compared with the residual computed in extended precision; non-trivial: a system was solved',
            "real": 'il/linearAlgebra/matrixFree/solver/Cg.h, Gmres.h, il/Array.h, StaticArray.h, il/Status.h, MKL reverse communication routines', "stub": "operators and preconditioners; allocator; abort()", "assumptions": []},
    "C26": {"world": "algo", "runs": [1800000, 6000000], "seconds": [20, 600], "rule":
            'each run draws an element type (int, long, float, double), contents (random, sorted, reversed, equal, nearly sorted; extreme values), memory placement, content of fresh memory and (1 run in 12) a refused request, and 1-40 operations (sort in place and copied, binary search, extremes and their positions over the whole and over ranges, mean and variance), each compared with the definition computed on a copy; 1 run in 40 sorts up to 1000 elements and measures the stack; non-trivial: more than 3 operations',
            "real": 'il/algorithm/algorithmArray.h, algorithmArray2D.h, il/container/1d/Array.h, StaticArray.h, 2d/Array2D.h, il/math.h', "stub": ALLOC_STUB, "assumptions": []},
    "C27": {"world": "dense", "runs": [1800000, 6000000], "seconds": [20, 600], "rule":
            'each run draws 1-4 operations (sums of vectors and matrices, dot products, matrix-vector and matrix-matrix products in both layouts and all transpositions, norms, products of arrays of fixed size), an element type, shapes (0 included), strides, surroundings that hold NaN, contents (small integers, for which the result is exact; reals; reals of different magnitudes), scalars, memory placement and (1 run in 12) a refused request; each result is compared with the definition in extended precision; non-trivial: an operation was done',
            "real": 'il/linearAlgebra/dense/blas/blas.h, dot.h, blas_static.h, cross.h, il/linearAlgebra/dense/norm.h, views and arrays, MKL (sequential)', "stub": ALLOC_STUB, "assumptions": ["MKL's cblas does what its documentation says"]},
    "C28": {"world": "lapack", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            'each run draws 1-3 problems (linear systems with full, band and tridiagonal matrices, LU of dynamic and fixed size with solutions, inverse, determinant and condition number, in-place LU and QR, triangular systems, eigenvalues, singular values), real or complex, orders, spare capacity, matrices (easy, permuted, graded, ill-conditioned, triangular, with a zero row or column), right-hand sides, memory placement and (1 run in 12) a refused request; solutions are judged by their residual and factors by their product in extended precision; non-trivial: a problem was posed',
            "real": 'il/linearAlgebra/dense/factorization/linearSolve.h, LU.h, luDecomposition.h, qrDecomposition.h, Eigen.h, Singular.h, il/linearAlgebra/dense/blas/solve.h, arrays, MKL (sequential)', "stub": ALLOC_STUB, "assumptions": ["MKL's LAPACK does what its documentation says"]},
    "C29": {"world": "sparse", "runs": [1200000, 4000000], "seconds": [20, 600], "rule":
            'each run draws 1-2 of: a history on three sparse matrices (made from positions with duplicates, from arrays, from small arrays; copied, moved, changed, multiplied, measured), products through an optimized handle, a product of two sparse matrices, a history on a direct solver (symbolic and numerical factorizations of one or two matrices in any order, values that change in between, direct and iterative solutions), a history on a preconditioned iterative solver; orders, patterns, values, precisions, iteration limits, memory placement, (1 run in 6) a call of the library that cannot have its memory and (1 run in 12) a refused request; results are compared with a dense model in extended precision; non-trivial: a problem was posed',
            "real": 'il/container/2d/SparseMatrixCSR.h, il/linearAlgebra/sparse/blas/*.h, il/linearAlgebra/sparse/factorization/Pardiso.h, GmresIlu0.h, arrays, MKL (sequential)', "stub": ALLOC_STUB, "assumptions": ["MKL's sparse routines do what their documentation says"]},
    "C30": {"world": "bounds", "configs": ["D"], "runs": [9600000, 20000000], "seconds": [20, 600], "rule":
            'each run draws a class (arrays, small arrays, arrays of fixed size, views and editable views of a part of a larger array, of 1 to 4 dimensions and both layouts; triangular, band, tridiagonal and sparse matrices; queues, maps, ordered maps, records, dynamic values, strings and views of strings; linear algebra and algorithms), sizes, spare capacity, memory placement and content, 0-2 accesses at the edges of the object, which must be accepted, and 1-3 accesses outside of it (just outside, in the spare capacity, in the larger array, negative, or so far that a product with the size of an element overflows), each of which must stop the process before memory is touched; non-trivial: an access outside was tried',
            "real": 'il/container, il/algorithmArray.h, il/linearAlgebra/dense, il/core/core.h', "stub": ALLOC_STUB, "assumptions": []},
    "C31": {"world": "ppm", "runs": [2400000, 8000000], "seconds": [20, 600], "rule":
            'each run makes an image of drawn sizes and pixels, writes its header with drawn blanks and comments, damages the file in 1 run of 2 (bits, bytes, numbers, cuts anywhere, in the header and near the end), draws how the disk behaves (buffer sizes, short reads, 0-2 errors of open, read, seek, interrupted calls, an error at a position) and reads it; non-trivial: every run',
            "real": 'il/io/ppm/ppm.h, il/container/2d/Array2D.h, il/core/Status.h, glibc stdio buffering', "stub": "disk behind fopencookie streams; allocator; abort()", "assumptions": []},
    "C32": {"world": "sizes", "configs": ["D"], "runs": [3600000, 12000000], "seconds": [20, 600], "rule":
            'each run draws one of the operations of the linear algebra (all overloads for 4 types of elements, both layouts, transposed and conjugated operands; triangular, full, band and tridiagonal systems, factorizations, sparse products, direct and iterative solvers) and sizes that match, does the operation in 1 run of 2, then 1-3 times with one size changed (by one, to zero, to another one, by a multiple of 2^31), which must stop the process; non-trivial: sizes that do not match were tried',
            "real": 'il/linearAlgebra, il/container/2d/SparseMatrixCSR.h, il/container/2d/Array2DView.h, MKL', "stub": ALLOC_STUB, "assumptions": []},
    "C33": {"world": "fresh", "configs": ["D"], "runs": [3000000, 10000000], "seconds": [20, 600], "rule":
            'each run draws a class (arrays, small arrays and arrays of fixed size of 1 to 4 dimensions and both layouts, triangular matrices), a type of elements among 9, two arrays of drawn sizes and alignments in memory full of garbage, then 1-8 operations (Resize, Reserve, copies, writes of some elements); a model knows which elements have been set; non-trivial: elements were written or the array was resized',
            "real": 'il/container/1d, 2d, 3d, 4d, il/core/core.h', "stub": ALLOC_STUB, "assumptions": []},
    "C34": {"world": "arith", "runs": [6000000, 20000000], "seconds": [20, 600], "rule":
            'each run makes a program of 1-40 calls of the checked arithmetic (sums, differences, products of 2 to 4 factors, quotients, multiples, conversions, for 6 types of integers, in the portable implementation and the one with compiler builtins), with operands near the places where results stop to fit and a variable for the error that holds what was left there, and of the integer helpers; results are judged with 128 bits; non-trivial: every run',
            "real": 'il/core/math/safe_arithmetic.h, il/math.h, il/core/core.h', "stub": ALLOC_STUB, "assumptions": []},
    "C35": {"world": "utf16", "runs": [6000000, 20000000], "seconds": [20, 600], "rule":
            'each run draws memory placement, content of fresh memory and (1 run in 12) a refused request, then 1-80 operations (thorough: 160) on 3 UTF-16 strings (construction, copies, moves, Reserve, every Append, of itself or a part of itself too, comparison, reading of the code points, conversion from and to UTF-8), compared with a model after each; lengths cluster around the capacity held in place and code points around the limits of the encodings; non-trivial: more than 3 operations',
            "real": 'il/container/string/UTF16String.h, unicode.h, String.h', "stub": ALLOC_STUB, "assumptions": []},
    "C36": {"world": "tree", "runs": [6000000, 20000000], "seconds": [20, 600], "rule":
            'each run draws an element type (int, a counted class, String), an arity (1, 2, 3, 4, 8), memory placement, content of fresh memory and (1 run in 12) a refused request, then 1-80 operations (thorough: 160) on 3 trees (construction for a depth, AddChild, Set, Set of a value of the same tree, copies, moves); after each one every node is walked to from the root and compared with a model; non-trivial: more than 3 operations',
            "real": 'il/container/tree/Tree.h, il/container/1d/Array.h, SmallArray.h', "stub": ALLOC_STUB, "assumptions": []},
}
