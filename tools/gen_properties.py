#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "state": [{"name": n, "meaning": m} for n, m in (state or [])],
         "observe_at": observe, "hook_needed": hook}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A .npy save is complete and exact, or it reports an error",
 "Saving a one- or two-dimensional array of int, il::int_t, float or double to a .npy file either reports success, and then the file is a valid NumPy 1.0 file with exactly that element type, shape, ordering and every element, or reports an error, which it does only if the storage failed. "
 "An array whose elements have no NumPy type (strings for instance) is never reported as saved. "
 "Whatever open, write, flush or close failure the storage produces, at whatever byte, a save never reports success over a missing or incomplete file and never stops the process.",
 ["inputs", "fault_sequences", "crash_points"],
 "for every array content, shape (including 0, reserved capacity larger than the size) and every sequence of storage answers (open error, short write, EINTR, EIO, full disk at byte N, failing close, buffer size)",
 "The unit tests save a few small arrays to a healthy disk and read them back with the library's own loader; no write, flush or close ever fails and the bytes are never read by an independent reader.",
 ["il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp", "il/io/io_base.h"],
 [("SaveHelper<Array>/SaveHelper<Array2D>::save", "il/io/numpy/numpy.h"), ("saveNumpyInfo", "il/io/numpy/numpy.cpp")],
 ["il::save return status", "bytes left on the simulated disk"])

prop("C02", "A .npy load returns exactly what the file holds, or an error",
 "Loading a one- or two-dimensional int, il::int_t, float or double array from a .npy file produced by NumPy or a writer following its format description yields exactly the stored shape and values, and reports an error when the element type, rank or ordering is not the requested one. "
 "If the storage fails, reads short, or the file was cut at any byte (for instance by a crash of the process saving it), the load still returns either exactly the complete saved array or an error, never a success with missing or wrong elements. A sparse matrix loaded from its three files (rows, columns, elements) is likewise exactly the matrix they hold, or an error.",
 ["inputs", "fault_sequences", "crash_points"],
 "for every array and legal header layout, every read-fault sequence (short reads, EINTR, EIO at byte N, failing open or close) and every point at which a save of the file was interrupted",
 "Tests load four well-formed files from a healthy disk; no read ever fails, no file is ever torn, and headers come from one writer.",
 ["il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp", "il/io/io_base.h"],
 [("LoadHelper<Array>/LoadHelper<Array2D>::load", "il/io/numpy/numpy.h"), ("getNumpyInfo", "il/io/numpy/numpy.cpp")],
 ["il::load status and value"])

prop("C03", "A damaged .npy file is contained: error status, no abort, no overrun",
 "Whatever bytes a .npy file (or the three files of a sparse matrix) holds (flipped, truncated, spliced or extended relative to a valid file), loading it ends with a status after work and memory proportional to the file size: it never stops the process, reads or writes outside its buffers, or requests an allocation larger than a fixed small multiple of the file size. "
 "If it reports success, the values returned are bytes really present in the file.",
 ["inputs", "fault_sequences"],
 "for every corruption of a stored file (bit flips, truncation, splices, altered shape/type/length fields) combined with read faults",
 "No test loads a malformed file.",
 ["il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp"],
 [("getNumpyInfo", "il/io/numpy/numpy.cpp"), ("LoadHelper::load", "il/io/numpy/numpy.h")],
 ["il::load status and value", "allocation sizes", "memory accesses", "process end"])

prop("C04", "A TOML save is complete and faithful, or it reports an error",
 "Saving a configuration (booleans, integers, finite doubles, strings, homogeneous arrays of them, and nested tables) to a .toml file either reports success, and then an independent TOML reader recovers exactly the same keys, order-independent structure and values, or reports an error. "
 "Whatever open, write, flush or close failure occurs, at whatever byte, it never reports success over an incomplete file and never stops the process.",
 ["inputs", "fault_sequences", "crash_points"],
 "for every supported configuration tree and every sequence of storage answers during the save",
 "Tests save a handful of trees to a healthy disk, and read them back with the library's own parser.",
 ["il/io/toml/toml.h", "il/io/toml/toml.cpp"],
 [("SaveHelperToml/save_aux/save_array", "il/io/toml/toml.h")],
 ["il::save status", "bytes left on the simulated disk"])

prop("C05", "A TOML load returns exactly the document, or an error",
 "Loading a .toml document made of the supported constructs (comments, blank lines, booleans, integers, floats, basic and literal strings with escapes, possibly multi-line arrays, inline tables, quoted keys, dotted table headers, nested tables, arrays of tables) yields exactly the keys and values written in it, independently of line lengths, of the line ending convention, and of how the storage slices the bytes. "
 "If opening, reading or closing the file fails at any point, the load reports an error, never a success with part of the document.",
 ["inputs", "fault_sequences"],
 "for every generated document in the supported subset, every read chunking, and every read-fault position",
 "Tests load about 40 literal documents with short lines from a healthy disk.",
 ["il/io/toml/toml.h", "il/io/toml/toml.cpp"],
 [("TomlParser::parse and parse*", "il/io/toml/toml.cpp"), ("line buffer", "il/io/toml/toml.h")],
 ["il::load status and value"])

prop("C06", "A malformed TOML file ends in an error status, never in a crash or hang",
 "Whatever bytes a .toml file holds (a valid document with bytes flipped, removed, duplicated, spliced, or cut at any point), loading it terminates with a status within work bounded by the file size: it never stops the process, loops, or reads or writes outside its buffers, with debug checks on or off. "
 "An error status carries an error code, and a document cut inside a string, an array, an inline table or a table header is never accepted as complete.",
 ["inputs", "fault_sequences", "crash_points"],
 "for every corruption or truncation point of generated documents combined with read faults",
 "Tests contain no malformed document except a few wrong literals.",
 ["il/io/toml/toml.h", "il/io/toml/toml.cpp", "il/container/string/String.h"],
 [("TomlParser::parse*", "il/io/toml/toml.cpp")],
 ["il::load status", "process end", "memory accesses", "steps executed"])

prop("C07", "Load and save release every file handle and never touch other data",
 "On every path out of a load or save, success or failure, each file that was opened has been closed exactly once and no memory allocated by the call is lost. "
 "A load never modifies the file and works on files that may only be read; a save touches no file but its target.",
 ["inputs", "fault_sequences"],
 "for every load/save of .npy, .toml and .data files under every storage fault sequence and every file content",
 "Tests never look at handles, and never make an operation fail half-way.",
 ["il/io/numpy/numpy.h", "il/io/toml/toml.cpp", "il/io/toml/toml.h", "il/io/filepack/filepack.h"],
 [("fopen/fclose pairing", "il/io/numpy/numpy.h, il/io/toml/toml.h, il/io/toml/toml.cpp, il/io/filepack/filepack.h")],
 ["handle table and writes of the simulated disk", "allocator balance"])

prop("C08", "Buffered file reads and writes move the right bytes or report an error",
 "A sequence of reads and skips through the buffered file object returns exactly the bytes of the file in order, whatever the buffer size, request sizes and file length, and a read that cannot be satisfied completely, or meets a storage error, reports an error instead of success. "
 "Bytes written with success and closed with success are exactly the file's content; after a failed open the object can be destroyed safely.",
 ["histories", "fault_sequences"],
 "for every sequence of read/skip/write/close calls, buffer size, file content and storage fault sequence",
 "No test uses the class (it is not even compiled by the test suite).",
 ["il/io/File.h"], [("File::Read/Skip/Write/Close", "il/io/File.h")],
 ["status and bytes returned", "bytes on the simulated disk"])

prop("C09", "A .data save/load round trip is exact, or an error is reported",
 "A map of scalars (boolean, integer, double, string), arrays of double, two-dimensional arrays of double or bytes, and nested maps, saved with success to a .data file and loaded back with success has the same keys in the same order and the same values; a value the format cannot hold makes the save report an error. "
 "Under any storage failure, or when the file was cut at any byte, the save or the load reports an error; it never reports success with different data, and whatever bytes the file holds, a load never hangs, stops the process, leaves its buffers, or requests memory out of proportion to the file.",
 ["inputs", "fault_sequences", "crash_points"],
 "for every map of supported types, every storage fault sequence, every cut point and every damaged file",
 "No test touches .data files.",
 ["il/io/filepack/filepack.h"], [("SaveHelperData/LoadHelperData", "il/io/filepack/filepack.h")],
 ["il::save/il::load status and value"])

prop("C10", "A failure reported through a status is never silently lost",
 "In a build with debug checks, a status that was set and never consulted stops the process when it is destroyed or overwritten, and consulting it exactly once (asking if it is ok, ignoring it, or aborting on error) releases it; re-arming demands a new consultation. "
 "Whether debug checks are on or off, the outcome, error code and attached information survive moves unchanged, and the moved-from status needs no consultation (what it reports is not specified).",
 ["histories", "configurations"],
 "for every sequence of set/consult/re-arm/move/destroy operations over several status objects, with debug checks on and off, with allocation failures in the attached information",
 "Tests exercise status objects only along the success path of other tests.",
 ["il/container/info/Status.h", "il/Status.h"], [("Status", "il/container/info/Status.h")],
 ["process stop", "Ok()/error()/attached information"])

prop("C11", "A dynamic array behaves as a sequence and owns its elements exactly",
 "Any sequence of constructions, copies, moves, assignments (including self-assignment), appends (including of one of the array's own elements), resizes, reserves, clears and element writes on dynamic arrays yields exactly the elements of the same operations on a mathematical sequence; a moved-from array is only required to stay usable. "
 "Every element is constructed once before use and destroyed exactly once, no memory is lost or touched outside live elements, and the result does not depend on where the allocator places blocks or on what fresh memory contains.",
 ["histories", "inputs"],
 "for every operation history over several arrays, for trivial, small-movable and non-trivial element types, and for every placement and content of allocated memory, up to an allocation failure at any point",
 "Tests run fixed short histories on one allocator, with no lifecycle accounting of elements after copies onto reserved storage or self-insertion.",
 ["il/container/1d/Array.h"], [("Array", "il/container/1d/Array.h")],
 ["elements, size, capacity", "constructor/destructor log", "allocator log"])

prop("C12", "Multi-dimensional arrays keep each element at its index through any resizing",
 "For two-, three- and four-dimensional arrays (row- and column-major), after any sequence of constructions, copies, moves, assignments, resizes (with or without fill value), reserves and element writes, each element that belongs to both the old and the new shape keeps its value at its index, filled elements hold the fill value, and size, capacity and strides are consistent. "
 "No two indices share storage, every element is constructed and destroyed exactly once, and no memory is lost or touched outside the array, wherever the allocator places it.",
 ["histories", "inputs"],
 "for every operation history over several arrays of each kind, for trivial and non-trivial element types, and for every placement and content of allocated memory",
 "Tests check single resize calls of small arrays.",
 ["il/container/2d/Array2D.h", "il/container/2d/Array2C.h", "il/container/3d/Array3D.h", "il/container/3d/Array3C.h", "il/container/4d/Array4D.h", "il/container/4d/Array4C.h"],
 [("Array2D, Array2C, Array3D, Array3C, Array4D, Array4C", "il/container/2d, il/container/3d, il/container/4d")],
 ["elements, sizes, capacities", "constructor/destructor log", "allocator log"])

prop("C13", "Small and static arrays behave as sequences across the inline/heap boundary",
 "Any sequence of operations on small-buffer arrays and one- to four-dimensional fixed-size arrays yields exactly the elements the same operations give on a mathematical sequence, in particular when growth, copy, move or assignment crosses between inline and heap storage in either direction. "
 "Elements are constructed and destroyed exactly once and no memory is lost or touched outside live elements.",
 ["histories", "inputs"],
 "for every operation history over several small arrays with trivial and non-trivial elements, and every allocator placement",
 "Tests run fixed short histories.",
 ["il/container/1d/SmallArray.h", "il/container/1d/StaticArray.h"], [("SmallArray", "il/container/1d/SmallArray.h"), ("StaticArray", "il/container/1d/StaticArray.h")],
 ["elements, size", "constructor/destructor log", "allocator log"])

prop("C14", "Requested alignment holds wherever the allocator puts the block",
 "An array of an arithmetic type created with an alignment (and an offset relative to a coarser boundary) has its first element exactly at that residue, for every address the system allocator may legally return, and keeps that guarantee through copies, moves, assignments, resizes and reserves. "
 "All its elements stay inside the block obtained, and the block is released by the exact address that was allocated.",
 ["schedules", "histories", "inputs"],
 "for every address residue returned by the allocator, every legal alignment, residue and modulus, and every operation history",
 "Tests see whatever addresses one malloc returns (always 16-byte aligned, often page-related), so most residues never occur.",
 ["il/core/memory/allocate.h", "il/container/1d/Array.h", "il/container/2d/Array2D.h", "il/container/2d/Array2C.h"],
 [("allocateArray(align, r, modulo)", "il/core/memory/allocate.h"), ("Array::Resize/Reserve with alignment", "il/container/1d/Array.h")],
 ["element addresses", "allocator log"])

prop("C15", "A hash map agrees with a mathematical map through any history",
 "After any sequence of insertions, overwrites, erasures, clears, reserves, copies, moves and assignments, a hash map finds exactly the keys that are present with their latest value, counts them correctly, and iterating it visits each exactly once; every operation terminates. "
 "Keys and values are constructed and destroyed exactly once and no memory is lost or touched outside the table, including when the map is empty.",
 ["histories", "inputs"],
 "for every operation history over several maps with integer, colliding and string keys, and for every placement and content of allocated memory",
 "Tests insert a few keys; long erase/insert histories, tombstone saturation, and copies of empty maps never occur.",
 ["il/container/hash/Map.h", "il/container/hash/HashFunction.h"], [("Map", "il/container/hash/Map.h")],
 ["search/found/nbElements/iteration", "allocator log"])

prop("C16", "An insertion-ordered map keeps order, values and index consistent",
 "After any sequence of insertions of new keys, overwrites of existing keys, copies, moves and assignments, an insertion-ordered map finds exactly the present keys with their latest values, and iterating it visits each key exactly once in first-insertion order. "
 "Keys and values are constructed and destroyed exactly once and no memory is lost.",
 ["histories", "inputs"],
 "for every operation history over several maps, for every placement and content of allocated memory",
 "Tests insert a few keys once.",
 ["il/container/hash/MapArray.h", "il/container/hash/Map.h"], [("MapArray", "il/container/hash/MapArray.h")],
 ["search/found/iteration", "allocator log"])

prop("C17", "A string behaves as a byte sequence across the small/large boundary",
 "Any sequence of constructions, copies, moves, assignments (including self-assignment), appends of bytes, characters, code points and strings (including of the string itself), insertions of other strings, reserves, clears, comparisons and sub-views yields exactly the byte sequence the same operations give on a plain byte string, always null-terminated, and the kind of text (ASCII, UTF-8, bytes) follows its content's origin through copies, moves and growth. "
 "No memory is lost or touched outside the string, on either side of the small/large boundary and for every allocator placement.",
 ["histories", "inputs"],
 "for every operation history over several strings with lengths around the small-string limit",
 "Tests cover a fixed list of constructions and appends.",
 ["il/container/string/String.h", "il/container/string/StringView.h"], [("String", "il/container/string/String.h")],
 ["bytes, size, terminator, type", "allocator log"])

prop("C18", "A dynamic value keeps its type and content through copies and moves",
 "A dynamically typed value of any supported kind (null, boolean, integers, float, double, string, array of dynamic values, map, insertion-ordered map, array of an integer type or of doubles, two-dimensional array of doubles or bytes) reports the kind and content it was given, after any sequence of copies, moves, assignments (including to itself or to one of its own parts) and in-place modifications. "
 "Copies are independent, and every resource is released exactly once.",
 ["histories", "inputs"],
 "for every operation history over several nested values, for every placement and content of allocated memory",
 "Tests copy one value of some kinds once.",
 ["il/container/dynamic/Dynamic.h", "il/container/dynamic/Type.h"], [("Dynamic", "il/container/dynamic/Dynamic.h")],
 ["type(), is*/to*/as* accessors", "allocator log"])

prop("C19", "An information record returns exactly what was stored under each name",
 "A record of named integers, doubles and texts returns for each name exactly the value and kind stored first under it, reports any other name (including prefixes and extensions of stored names) as absent, and keeps this through any sequence of insertions, copies, moves, assignments and clears. "
 "No memory is lost or touched outside the record.",
 ["histories", "inputs"],
 "for every operation history over several records, names and values around the small-storage limit",
 "Tests store one or two entries.",
 ["il/container/info/Info.h"], [("Info", "il/container/info/Info.h")],
 ["search/is*/to*/as*", "allocator log"])

prop("C20", "Exhausted memory or an impossible size stops the program, never corrupts it",
 "When a memory request of a container, string or load/save operation cannot be satisfied, at whatever allocation in the history, or when the requested element count cannot be represented as a byte size, the process stops at that point. "
 "It never continues with a missing or smaller block, never touches memory outside live blocks before stopping, and a file that was being saved is never reported as saved.",
 ["fault_sequences", "histories", "inputs"],
 "for every operation history and every index of the failing allocation, and for sizes at and beyond the representable limit",
 "No allocation ever fails in the tests.",
 ["il/core/memory/allocate.h", "il/container/1d/Array.h", "il/container/string/String.h", "il/container/hash/Map.h"],
 [("allocateArray", "il/core/memory/allocate.h")],
 ["process end", "memory accesses", "allocator log"])

prop("C21", "Threads using distinct objects, or only reading shared ones, never interfere",
 "Threads that each work on their own containers, statuses and files, or that only read a common constant container, obtain under every interleaving exactly the results they obtain when run one after the other. "
 "In particular copying, hashing, formatting, loading and saving keep no hidden shared mutable state.",
 ["schedules", "histories"],
 "for every interleaving, at instruction-block granularity, of 2-4 threads running generated operation sequences on private objects and shared constant ones, including load/save of private files",
 "Tests are single-threaded.",
 ["il/container", "il/io", "il/core/memory/allocate.h"], [("absence of shared mutable state", "il/container, il/io")],
 ["per-thread results against the serial run"])

prop("C22", "Timers report the time that elapsed, and sleeps never end early",
 "A timer accumulates exactly the simulated time spent between its starts and stops, keeps it while stopped, and drops it on reset; sleeping, or sleeping until a given elapsed time, never returns before that much time has passed, whatever interruptions occur, and returns within a bounded number of steps once it has. "
 "Wall-clock jumps do not make a measured duration negative.",
 ["schedules", "fault_sequences", "histories"],
 "for every history of start/stop/reset/sleep calls, clock granularity, stall, interrupted sleep and wall-clock jump",
 "The tests use the real clock only to print.",
 ["il/benchmark/tools/timer/Timer.h", "il/Timer.h"], [("Timer, sleep", "il/benchmark/tools/timer/Timer.h")],
 ["Timer::time, clock reads and sleeps"])

prop("C23", "An iterative solver never claims success over a wrong solution",
 "When a matrix-free iterative solver reports success, the returned vector satisfies the equation to the requested relative precision for the operator it was given; when it cannot (iteration limit, breakdown, operator or preconditioner producing non-finite or inconsistent values at any call) it reports an error. "
 "It stops within the iteration limit, changes no memory outside its arguments, and iterated step by step it gives the norm of the residual of the vector it holds.",
 ["fault_sequences", "inputs"],
 "for every symmetric positive definite system, tolerance and iteration limit, and every fault injected in any call of the operator or the preconditioner",
 "No test uses these solvers.",
 ["il/linearAlgebra/matrixFree/solver/Cg.h", "il/linearAlgebra/matrixFree/solver/Gmres.h"], [("Cg::Solve, Gmres::Solve", "il/linearAlgebra/matrixFree/solver")],
 ["returned vector and status, operator call log"])

prop("C24", "A double-ended queue behaves as a sequence at both ends",
 "Any sequence of pushes within the capacity, pops at both ends, copies, moves and assignments returns exactly the elements a mathematical deque returns, with the right size, including across wrap-around of its storage and through emptiness; with debug checks, a push to a full queue stops the process. "
 "Elements are constructed and destroyed exactly once and no memory is lost or touched outside it.",
 ["histories"],
 "for every push/pop history over queues of every capacity, for every placement and content of allocated memory",
 "No test uses the class.",
 ["il/container/deque/Deque.h"], [("Deque", "il/container/deque/Deque.h")],
 ["front, back, size", "allocator log"])

prop("C25", "Triangular, band and tri-diagonal arrays keep each element at its index",
 "After any sequence of constructions, copies, moves, assignments and element writes, lower- and upper-triangular arrays, band arrays and tri-diagonal arrays hold at each index of their shape exactly the value last written there, and a new band array holds zeros. "
 "No two indices share storage, every element is constructed and destroyed exactly once, and no memory is lost or touched outside the array, wherever the allocator places it.",
 ["histories", "inputs"],
 "for every operation history over several arrays of each kind, for trivial and non-trivial element types, and for every placement and content of allocated memory",
 "Tests construct one triangular array and never copy or assign any of these.",
 ["il/container/2d/LowerArray2D.h", "il/container/2d/UpperArray2D.h", "il/container/2d/BandArray2C.h", "il/container/2d/TriDiagonal.h"],
 [("LowerArray2D, UpperArray2D, BandArray2C, TriDiagonal", "il/container/2d")],
 ["elements, sizes", "constructor/destructor log", "allocator log"])

prop("C26", "Sorting, searching and statistics of arrays agree with their definitions",
 "Sorting an array, in place or into a copy, gives the same elements in increasing order, with a bounded amount of stack whatever the initial order; a binary search finds an element that is present and only such an element; "
 "minimum, maximum, largest absolute value and their positions, over a whole array or over a range of it, are those of exactly these elements for every element type; mean and variance are right up to rounding. "
 "Operations that read an array leave it unchanged, and none touches memory outside of the elements, wherever the allocator places them.",
 ["histories", "inputs"],
 "for every content (sorted, reversed, repeated, extreme values), element type, size and range, and for every placement and content of allocated memory",
 "Tests sort one array and take extremes of arrays of a few small values.",
 ["il/algorithm/algorithmArray.h", "il/algorithm/algorithmArray2D.h"], [("il::sort, il::binarySearch, il::min, il::max, il::maxAbs, il::minMax, il::mean, il::sigma", "il/algorithm")],
 ["results", "array contents", "stack used"])

prop("C27", "Dense products and norms give the defined result and write nothing else",
 "Sums and scalings of vectors, dot products, matrix-vector and matrix-matrix products with any transposition or conjugation, and norms give the result of their definition up to rounding (exactly, for small integers), "
 "for both memory orders, for whole arrays, views of parts of larger arrays and arrays with spare capacity, and for shapes without rows or columns. "
 "They read nothing outside of their arguments (whatever lies between the columns of a part), write only the elements of their result, and a result that is not to be added to is never read; the placement of memory does not matter.",
 ["inputs", "histories"],
 "for every shape, stride, transposition, scalar, element type (real and complex) and for every content of the memory around and between the elements",
 "Tests multiply a few small matrices that own their memory.",
 ["il/linearAlgebra/dense/blas/blas.h", "il/linearAlgebra/dense/blas/dot.h", "il/linearAlgebra/dense/norm.h", "il/container/2d/Array2DView.h"],
 [("il::blas, il::dot, il::norm", "il/linearAlgebra/dense")],
 ["results", "bytes around the elements"])

prop("C28", "Linear solvers and factorizations never give a wrong answer as a success",
 "When a linear solver or a factorization (full, band and tri-diagonal systems, LU with its solutions, inverse, determinant and condition number, QR, triangular systems, eigenvalues, singular values) reports success, the result satisfies its defining equation up to rounding, whatever the spare capacity of the arrays and the placement of memory. "
 "A matrix with a zero row or column is reported as singular, a well-conditioned one never is; an iteration that does not converge is reported as an error; and memory that the linear algebra library could not have is never ignored nor reported as a property of the matrix. "
 "Arguments passed by copy or by view to be read are unchanged and nothing outside of the arguments is written.",
 ["inputs", "fault_sequences"],
 "for every order, matrix, right-hand side, capacity and placement, and for every call of the linear algebra library that runs out of memory or does not converge",
 "Tests solve one or two systems of order 2 to 4 per solver; none uses spare capacity, band systems, permutations in a determinant, or a failing library call.",
 ["il/linearAlgebra/dense/factorization/linearSolve.h", "il/linearAlgebra/dense/factorization/LU.h", "il/linearAlgebra/dense/factorization/Eigen.h", "il/linearAlgebra/dense/factorization/Singular.h", "il/linearAlgebra/dense/blas/solve.h"],
 [("il::linearSolve, il::LU, il::Eigen, il::singularValues, il::qrDecomposition", "il/linearAlgebra/dense/factorization")],
 ["results", "statuses", "bytes around the elements"])
prop("C29", "Sparse matrices, products and solvers agree with the dense definition",
 "A sparse matrix made from positions (with duplicates), arrays or small arrays holds exactly the entries it was given, sorted and merged when it is made from positions, through copies, moves and changes; its products (with vectors, through an optimized handle, with another sparse matrix) and its norm are the defined ones, and read neither a result that is not to be read nor memory outside of the arguments. "
 "Direct and iterative solvers give a solution whose residual is explained by rounding, the requested precision or the iteration limit, through any history of factorizations, changed values and reused solvers; they release every factorization once, leave matrices and right-hand sides unchanged, always end, and never go on when the linear algebra library could not have its memory or there is no pivot.",
 ["histories", "inputs", "fault_sequences"],
 "for every pattern, order, value, history of factorizations and solutions, precision, iteration limit and restart, and for every library call that runs out of memory or breaks down",
 "Tests solve four systems once, with a solver that is used once; products with a result that holds NaN, sparse-sparse products, optimized handles, sizes 0 and failing library calls are not tested.",
 ["il/container/2d/SparseMatrixCSR.h", "il/linearAlgebra/sparse/blas/sparseBlas.h", "il/linearAlgebra/sparse/blas/sparseDot.h", "il/linearAlgebra/sparse/blas/SparseMatrixBlas.h", "il/linearAlgebra/sparse/factorization/Pardiso.h", "il/linearAlgebra/sparse/factorization/GmresIlu0.h"],
 [("il::SparseMatrixCSR, il::blas, il::dot, il::Pardiso, il::GmresIlu0", "il/container/2d, il/linearAlgebra/sparse")],
 ["results", "matrices and right-hand sides afterwards", "handles held in the library"])
prop("C30", "A debug build stops at an access outside of an object",
 "In a debug build, an access outside of an object (an index, a range, a position, a key that is missing, a dimension, a size or a capacity that is negative or too large, an element of an empty object, a part of a part) stops the process before it touches memory, however far outside it is and whatever memory lies there; accesses inside the object are accepted. "
 "A value of another type, a place where there is no key, the front of an empty queue and an extremum of an empty array count as outside.",
 ["inputs", "memory_placement"],
 "for every class of the library, size, spare capacity, alignment and element type, and for every index, also the ones whose address computation overflows",
 "Tests try a few indices next to the end of a few classes; an access to spare capacity or to a neighbour in a larger array goes unnoticed.",
 ["il/core/core.h", "il/container/1d", "il/container/2d", "il/container/3d", "il/container/string/String.h", "il/container/info/Info.h", "il/container/hash/Map.h", "doc/Array.rst", "doc/Array2D.rst"],
 [("operator[], operator(), back, view, Edit, size(d), capacity(d), Resize, Reserve of all containers", "il/container")],
 ["whether the process stops", "memory accesses (AddressSanitizer)"])

prop("C31", "An image file is read exactly, or an error is reported",
 "Reading a binary PPM image returns with success exactly when the file holds a complete image with 8-bit components, whatever blanks and comments its header contains, and then the image has the sizes and, pixel for pixel, the content of the file. For any other file (damaged, cut, of another kind, with sizes that no memory can hold), and when the disk fails, an error is reported together with an empty image. "
 "It always returns, leaves the file as it was, leaves no file open, loses no memory, touches no memory that is not its own and asks for no more memory than the file can fill.",
 ["inputs", "fault_sequences"],
 "for every image, header layout, damage of the file and behaviour of the disk (short reads, errors of any call, interruptions)",
 "There is no test of this reader; the headers, cuts and disk errors that matter are unbounded.",
 ["il/io/ppm/ppm.h", "README.md"],
 [("il::readPpm", "il/io/ppm/ppm.h")],
 ["the status", "the sizes and the pixels of the image", "open files, memory requested and released", "bytes of the file"])

prop("C32", "A debug build stops when the sizes of operands do not match",
 "In a debug build, an operation of the linear algebra (products and sums of vectors and matrices in every overload, norms with weights, triangular, full, band and tridiagonal systems, factorizations and what they solve, sparse matrices and products, direct and iterative solvers) stops the process when the size of one of its operands does not match those of the others, whichever operand and however different, when the result is one of the operands of a product, and when a factorization is used before it was computed or for another matrix. "
 "When the sizes match, it does not.",
 ["inputs", "programs"],
 "for every operation, type of elements, layout, transposition and combination of sizes, also those that only differ by a multiple of 2^31",
 "There are several hundred combinations of overloads and operands; tests only call some of them, with sizes that match.",
 ["doc/LinearAlgebra.rst", "il/linearAlgebra/dense/blas/blas.h", "il/linearAlgebra/dense/blas/dot.h", "il/linearAlgebra/dense/blas/solve.h", "il/linearAlgebra/dense/factorization", "il/linearAlgebra/sparse", "il/linearAlgebra/matrixFree"],
 [("IL_EXPECT_FAST and IL_EXPECT_MEDIUM on the sizes of the operands", "il/linearAlgebra")],
 ["whether the process stops"])

prop("C33", "In a debug build, elements nobody has set hold a recognizable value",
 "In a debug build, every element of an array of numbers that no operation has set (after a construction with sizes only, or a Resize that added elements) holds the documented value that makes its use visible: NaN for floating-point and complex numbers, 123, 12345, 1234567891 or 1234567891234567891 for integers, never what the memory happened to contain. "
 "Elements that were set keep their value through any resizing, reservation and copy.",
 ["inputs", "programs"],
 "for every class of arrays (1 to 4 dimensions, both layouts, triangular, small and static), every type of numbers, every history of sizes and capacities and whatever the memory contained before",
 "Fresh memory happens to be zero in tests, and they seldom read an element before they have set it.",
 ["doc/Array.rst", "doc/Array2D.rst", "il/core/core.h", "il/container/1d", "il/container/2d", "il/container/3d", "il/container/4d"],
 [("il::defaultValue", "il/core/core.h"), ("IL_DEFAULT_VALUE blocks of constructors and Resize", "il/container")],
 ["value of every element"])

prop("C34", "Checked arithmetic reports every overflow, and only overflows",
 "The checked sums, differences, products of two to four factors, quotients, multiples and conversions of integers, on which every capacity computation rests, set their error to true when the mathematical result does not fit the type, and otherwise set it to false, whatever it held before, and return the exact result (a product of several factors may also be refused when a partial product does not fit). "
 "This holds for both implementations (portable and compiler builtins), and the integer helpers (logarithms and powers of 2, integer powers, minimum, maximum, absolute value, rounding down) end and are exact whenever their result fits.",
 ["inputs", "programs", "configurations"],
 "for every type of integers, every operand, both implementations and whatever the error variable held before the call",
 "Results stop to fit at few places among 2^128 pairs of operands; tests try a handful of them, always with an error variable that was just initialized.",
 ["il/core/math/safe_arithmetic.h", "il/math.h", "il/core/core.h", "doc/integer.rst"],
 [("safeSum, safeDifference, safeProduct, safeDivision, safeUpperRound, safeConvert", "il/core/math/safe_arithmetic.h"), ("nextLog2, ipow, powers of 2", "il/math.h")],
 ["the error variable", "the result"])

prop("C35", "A UTF-16 string and the conversions from and to UTF-8 are exact",
 "Whatever sequence of constructions, copies, moves, assignments, reservations and appends (of characters, code points, texts, other strings, itself or a part of itself), a UTF-16 string holds exactly the text an ideal string would hold, is null-terminated, compares and gives its code points accordingly, and shares no memory with another string; what fits in the capacity it reports is appended without asking for memory. "
 "Converting a text from UTF-8 to UTF-16 or back yields exactly the same code points and nothing else. No memory is lost, released twice, or touched outside live strings.",
 ["inputs", "programs", "histories"],
 "for every sequence of operations, every code point and length, wherever the allocator places blocks and whatever fresh memory contains",
 "No test touches UTF-16 strings; errors need a particular length (the capacity held in place, growth) together with aliasing, surrogate pairs or a previous allocation.",
 ["il/container/string/UTF16String.h", "il/container/string/unicode.h"],
 [("UTF16String::Append/Reserve/operator=", "il/container/string/UTF16String.h"), ("toUtf16, toUtf8", "il/container/string/unicode.h")],
 ["size, data, rune, nextRune, operator==", "the memory of the strings"])

prop("C36", "A tree holds the nodes and values it was given",
 "Whatever sequence of added children, values set, copies and moves, a tree reports for every node exactly the children that were added, its parent, its value and whether one was set, for every arity, and its depth is the level of its deepest node. "
 "Elements are constructed and destroyed exactly once, no memory is lost, and a tree made for a depth holds that depth without asking for more memory.",
 ["inputs", "programs", "histories"],
 "for every sequence of operations, arity and element type, wherever the allocator places blocks and whatever fresh memory contains",
 "The one test looks at the root of an empty tree; errors need several levels, larger arities or nodes added in an unusual order.",
 ["il/container/tree/Tree.h"],
 [("Tree::AddChild/Set/children/depth", "il/container/tree/Tree.h")],
 ["parent, child, hasChild, children, isEmpty, value, depth", "element life cycles"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
