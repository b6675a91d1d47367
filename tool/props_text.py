prop('C01', 'Operands declared const are never written',
     'A matrix, vector, sparse matrix, pivot vector or string that a public function declares const has the same header and the same '
     'elements after the call as before it, on every path including failing ones. This includes stores made through sub-views, through '
     'helper routines and through fallback algorithms.',
     ['inputs', 'configurations'], 'every public function, every argument shape, flag combination and failing path',
     'Tests compare results, rarely the inputs, and only for the flag and size combinations that they sample; blocked, recursive and naive variants '
     'are selected by size and configuration.',
     ['src/blas', 'src/eblas', 'src/lapack', 'src/sparse', 'src/io', 'src/base', 'src/include'],
     [('const parameters; views alias the parent elements, so the compiler cannot enforce const', 'src/include/matrix.h')],
     ['operand headers and elements after return'],
     'interprocedural field-sensitive mod/effect analysis over LLVM IR',
     'Sound for stores and listed libc writers under: operands do not alias each other, callbacks honour const. Inline assembly absent.')
prop('C02', 'A NULL configuration block is accepted everywhere',
     'Every public matrix and sparse function that takes a configuration block accepts NULL for it and then behaves as with the default '
     'configuration: it never dereferences the NULL pointer, on any path, including its error paths and the routines it passes it to.',
     ['inputs', 'configurations'], 'every public function with a configuration parameter, every path',
     'The tests always pass a configuration block to most functions and rarely take the error paths.',
     ['src/blas', 'src/eblas', 'src/lapack', 'src/sparse', 'src/io', 'src/compat', 'src/include/matrix.h'],
     [('if (!cf) cf = armas_conf_default()', 'every public entry point')],
     ['no dereference of NULL'],
     'interprocedural non-nullness dataflow over LLVM IR',
     'Sound for direct and pointer-resolved calls; external functions are assumed not to receive the block.')
prop('C03', 'Every block allocated is released exactly once or handed to the caller',
     'On every path of every function, including failing ones, a block of memory or resource obtained (element block, workspace, cache buffer, '
     'sparse storage, stream) is either released exactly once, or handed over to the caller through a result or an object that the caller owns. '
     'No block is used after it is released, released twice, or lost by overwriting its only reference.',
     ['inputs', 'fault_sequences'], 'all functions, all paths, any subset of failing allocations',
     'Leaks are invisible to the tests, and the failing-allocation and bad-input paths never run in them.',
     ['src/base', 'src/blas', 'src/eblas', 'src/lapack', 'src/sparse', 'src/io', 'src/threaded', 'src/workers'],
     [('armas_init/armas_release, armas_walloc/armas_wrelease, armas_cbuf_init/armas_cbuf_release', 'src/base, src/include'),
      ('armassp_init/armassp_clear', 'src/sparse')],
     ['allocator calls and releases'],
     'ownership typestate analysis (path-sensitive dataflow with bottom-up summaries)',
     'Path-sensitive with joins, loops to a fixpoint. Trusts the list of allocators and that other external functions neither free nor keep their arguments.')
prop('C04', 'A failing allocation is detected before its result is used',
     'Whenever an allocation can fail, its result is tested before it is dereferenced, and an object whose initialisation failed is not used as if it '
     'had been initialised. This holds for direct allocations and for library routines that allocate on behalf of their caller.',
     ['fault_sequences', 'inputs'], 'every allocation site, any subset of them failing',
     'No test makes an allocation fail.',
     ['src/base', 'src/blas', 'src/eblas', 'src/lapack', 'src/sparse', 'src/io', 'src/threaded', 'src/workers'],
     [('NULL tests after malloc/calloc/realloc, armas_init, armas_cbuf_init, armas_walloc', 'all allocating functions')],
     ['dereference of an allocation result'],
     'typestate analysis of allocation results (path-sensitive dataflow with bottom-up summaries)',
     'As C03. Allocation sites of external allocators only; stack growth is out of scope.')
prop('C05', 'Operands of non-conforming shape are rejected before elements are touched',
     'The dense and sparse products, updates, triangular solves, vector operations, factorizations, inverses, multiplications by Q, linear and '
     'iterative solvers check the dimensions of their operands (taking the transpose and side flags into account) before they touch any element: '
     'with operands that do not conform they return a negative value and leave elements alone. '
     'Empty operands and workspace queries are exempt.',
     ['inputs', 'configurations'], 'every function of the rule table, every combination of side and transpose flags, every path',
     'Tests pass conforming operands, with a handful of exceptions.',
     ['src/blas', 'src/eblas', 'src/lapack', 'src/sparse'],
     [('ESIZE / ENEED_VECTOR tests at the head of the entry points', 'src/blas, src/eblas, src/lapack, src/sparse'),
      ('the shape rules', '/verif/lib/checks/shapesck.py SPEC')],
     ['branches on operand dimensions', 'first access to elements', 'returns'],
     'path-sensitive dataflow of relations between operand dimensions',
     'Covers 118 functions listed in the rule table (bidiagonal, SVD, Hessenberg multiply, build-Q and Householder functions check nothing and are '
     'not listed). Linear relations only; products of dimensions are opaque.')
prop('C06', 'Failures are reported: error code recorded, status returned and not lost',
     'A function that fails returns a negative value and leaves an error code in the configuration block; the value is -1 or the negated code, and a function '
     'that has recorded an error does not return success. A routine that sees a part of its work fail does not return success itself, and the status of '
     'routines that fail only at run time (workspace too small, singular or indefinite matrix, no convergence) is never dropped.',
     ['inputs', 'configurations'], 'every function with a configuration parameter, every path; every call of a routine that can fail',
     'Tests feed operands for which the computation succeeds.',
     ['src/base', 'src/blas', 'src/eblas', 'src/lapack', 'src/sparse', 'src/threaded', 'src/workers'],
     [('conf->error assignments and negative returns', 'all computing functions'), ('tests of the status of called routines', 'src/lapack, src/sparse')],
     ['stores to the error member', 'returned values', 'results of calls'],
     'path-sensitive dataflow of error codes and statuses with call graph closure',
     'Whether a numerical failure is detected in the first place is not decided here. Calls of routines that fail on shapes or flags alone may drop their '
     'status. Internal answers of the accelerator layer are exempt.')
prop('C07', 'Workspace protocol: queries, sufficient sizes, nothing left reserved',
     'A routine with a workspace parameter that is called with a workspace of zero bytes computes nothing; it only stores the size it wants, or none if it needs '
     'none, and a workspace of that size is not refused as too small. Otherwise it uses no more of the workspace than is free, fails '
     'when it is too small, and on every return leaves the workspace offset where it was. The operations on the workspace descriptor never hand '
     'out space beyond its size.',
     ['inputs', 'configurations'], 'every workspace routine (names ending in _w), every path, every workspace size',
     'Tests use one or two sizes of workspace and do not look beyond its end.',
     ['src/lapack', 'src/eblas', 'src/sparse', 'src/include/armas.h'],
     [('size query, minimum and block size adjustment', 'src/lapack/*.c, src/sparse/*.c'), ('armas_wreserve, armas_wptr, armas_wsetpos', 'src/include/armas.h')],
     ['workspace descriptor', 'views made over workspace memory', 'error code of refusals'],
     'path-sensitive dataflow of the workspace offset with polynomial size inequalities',
     'Views of block sizes computed by square roots, sub-views of a view, and sizes that a query takes from another query are not bounded.')
prop('C08', 'Views, partitions and element accessors address exactly the part they name',
     'A row, column, diagonal, submatrix or subvector view has the size asked for and its element (i,j) is the corresponding element of the source, with '
     'negative indexes counted from the end and negative sizes meaning the rest; the blocks of a partition, repartition or merge cover their source without '
     'gap or overlap, the new block being limited to what is left, for matrices, vectors and pivot tables alike. Element getters, setters and index '
     'functions address the element named and no other, and leave empty matrices and pivots out of range alone. A matrix allocated by armas_init has room '
     'for all of its elements.',
     ['inputs'], 'every view and accessor function of the headers, all sizes, strides, indexes and directions',
     'Tests use a few sizes, mostly square, and block sizes that divide them.',
     ['src/include/matrix.h', 'src/include/partition.h', 'src/include/pivot.h', 'src/include/armas.h', 'src/base/matrix.c'],
     [('armas_row, armas_column, armas_diag, armas_submatrix, armas_get, armas_set, armas_get_at, ...', 'src/include/matrix.h'),
      ('mat_partition_*, mat_repartition_*, mat_continue_*, mat_merge*, vec_*', 'src/include/partition.h'), ('pivot_*', 'src/include/pivot.h')],
     ['members of views at return', 'addresses accessed', 'values returned'],
     'symbolic evaluation of view arithmetic, path by path, compared with descriptions as polynomials',
     'Indexes outside of the source are the caller\'s error: they are tested only in builds with checks enabled. Products of sizes are taken not to overflow.')
prop('C09', 'Calls in different threads share no hidden mutable state',
     'Functions of the library may be called from several threads at once on different operands: apart from one-time initialisation of settings and '
     'the documented random generators, no function stores to static storage that other threads see, and initialisation marks itself done only after '
     'it is complete. A function that takes a configuration block uses the default block only when it was given NULL, passes its own block on to the '
     'routines that it calls, and calls no C library routine that keeps hidden state.',
     ['schedules', 'configurations'], 'every function of the library, any interleaving of calls',
     'Tests run in one thread, apart from the threaded products, and a race rarely shows.',
     ['src/base', 'src/blas', 'src/eblas', 'src/lapack', 'src/sparse', 'src/io', 'src/threaded', 'src/workers'],
     [('static tables and flags initialised once', 'src/base/env.c, src/lapack/bdsvd.c, src/lapack/eigen_trd.c, src/base/accel.c'),
      ('the default configuration block', 'src/base/conf.c')],
     ['stores to static storage', 'references to the default configuration block', 'calls of the C library'],
     'effect analysis of stores to static storage with dominance of one-time flags, over LLVM IR',
     'Static storage only: objects reachable from two threads through shared operands are the caller\'s business. The order of the initialising stores '
     'is checked, not memory barriers.')
prop('C10', 'Accelerators compute every block of a result once, from the right operands',
     'When gemm, symm, trmm or trsm is computed by threads or workers, the blocks that are given away are consecutive pieces that together cover the result exactly '
     'once for every size and every number of blocks, and a block that cannot be given away is computed by the caller. '
     'Every block is computed with the rows and columns of the operands that its own rows and columns need for the flags of the operation, and with the scale factors '
     'and flags of the operation. A public function hands its own operands and options to the accelerator under an operation code that means the same operation in every '
     'accelerator, returns the result of the accelerator, and computes the operation itself only if the accelerator says that it does not implement it.',
     ['inputs', 'configurations'], 'every combination of flags, every size of the operands and every number of blocks',
     'Tests use a few sizes and one configuration of threads; the conjugate transposed operands were never tried.',
     ['src/threaded', 'src/workers', 'src/base/accel.c', 'src/include/accel.h', 'src/blas'],
     [('functions that compute a block', 'src/threaded, src/workers/gemm.c'), ('division of the result in blocks', 'src/threaded, src/workers/gemm.c, src/include/accel.h'),
      ('dispatch', 'src/threaded/entry.c, src/workers/entry.c, src/blas')],
     ['arguments of the computing routine of a block', 'row, nrows, column and ncolumns of the blocks given away', 'arguments of the dispatch'],
     'symbolic evaluation of the LLVM IR per combination of flags, with lemmas on the function that gives the start of a piece',
     'Assumes at least one block, not both LEFT and RIGHT, and that index times size does not overflow. The kernels that compute a block are not judged here.')
prop('C11', 'Threads, queues and schedulers share memory and tasks without races or losses',
     'On every path a mutex is released again, is not taken twice and is taken in one consistent order; members protected by a mutex are accessed only with that '
     'mutex held; a wait on a condition rechecks what it waits for, and whoever makes that true wakes up the waiters. Other members that a thread shares with its '
     'creator are accessed under a common mutex, atomically, or before the thread is created or after it has been joined, and every thread created is joined '
     'before its descriptor is released. A scheduled task is run exactly once and counted as completed exactly once after it has run, none is lost when threads '
     'stop or cannot be started, and no task, counter, queue or scheduler is released while a thread may still use it.',
     ['schedules', 'fault_sequences', 'configurations'], 'every interleaving of the threads of the accelerators, every failure of a pthread or memory call',
     'A test runs one schedule of many and no thread or memory call of it ever fails.',
     ['src/workers', 'src/threaded', 'src/base/accel.c'],
     [('counters, task queues, schedulers, workers', 'src/workers/counter.h, src/workers/queue.h, src/workers/scheduler.h, src/workers/workers.h'), ('worker and thread accelerators', 'src/workers, src/threaded')],
     ['accesses to members shared between threads', 'mutex, condition and thread calls', 'tasks'],
     'lock-set, wait/signal and task-ownership dataflow over the inlined LLVM IR of the accelerators',
     'Mutexes and members are told apart by the structure and member they belong to, not by object, except inside one function. Deadlocks between condition '
     'waits and progress of the scheduler are not decided; the order of atomic operations is taken as sequential.')
prop('C12', 'Text is read and written inside of the buffers, whatever it contains',
     'Whatever bytes a file, stream or buffer holds, the readers and writers stay inside of their buffers: a token longer than the buffer is refused and not '
     'stored, pieces of a token are kept inside of their arrays, a string stream is read and written below its size and pushed back above its start, an '
     'element is set only at a row and column that the matrix has, numbers are scanned into objects of their type, and a number that is printed fits.',
     ['inputs', 'histories'], 'all contents of files, streams and buffers',
     'Tests read files that the library has written itself; tokens of a certain length, negative indices and full buffers are not among them, and an '
     'overrun by one byte stays unseen.',
     ['src/io', 'src/sparse/io.c', 'src/base/env.c', 'src/base/accel.c'],
     [('tokens of JSON', 'src/io/json_reader.c, src/io/json_writer.c'), ('streams over files and memory', 'src/io/ios.c'),
      ('matrix readers', 'src/io/json_base.c, src/io/iomm.c, src/sparse/io.c')],
     ['stores and loads by computed address', 'lengths handed on', 'rows and columns of elements set'],
     'bounds of addresses as linear forms over parameters, loop variables and memory cells, with loop invariants from the branches taken; exact following of state machines; formats',
     'A buffer handed to a public function has the length given, which is not zero. Text scanned up to its end is taken as terminated. Index arithmetic does not overflow.')
prop('C14', 'Fortran and CBLAS entry points compute what the BLAS standard says',
     'For every combination of order, side, triangle, transpose and diagonal options (in either case of letters), of sizes, leading dimensions and vector '
     'distances, a Fortran or CBLAS entry point of the compatibility layer asks the library for exactly the operation that the BLAS standard gives '
     'those arguments: the same operands at the same addresses with the same shapes, triangle and scalars, and the result of the library as its result. Where '
     'it runs over vectors itself, elements correspond as the standard pairs them, also when a distance is negative.',
     ['inputs', 'configurations'], 'every entry point, every option, all sizes and distances',
     'No test calls the compatibility layer; row order, transposes, sides and negative distances each have their own combination of sizes.',
     ['src/compat'],
     [('options become flags and views become operands', 'src/compat/*.c'), ('names', 'src/include/float64/names_compat.h, src/include/float32/names_compat.h')],
     ['operands and flags of the calls from src/compat to the library'],
     'symbolic evaluation of each entry point per option combination, compared as equations between strided matrices',
     'Sizes are at least one; distances are positive where the standard has a single vector or a matrix with vectors. Loops over vectors are followed for one, two '
     'and three elements. The meaning of the library routines themselves is taken as documented.')
prop('C15', 'Everything declared is defined, and both precisions can be linked together',
     'In the double and in the single precision library alike, every function declared by the public headers is defined, no internal reference stays '
     'unresolved, and every call passes what the definition takes. Each precision maps public names to its own linker symbols one to one, and a symbol that '
     'both libraries define is the same code in both, so that a program may link the two.',
     ['configurations'], 'every declaration, definition and reference of both precisions',
     'The tests are built for one precision and link only the functions that they call.',
     ['src/include', 'src/base', 'src/blas', 'src/eblas', 'src/lapack', 'src/sparse', 'src/io'],
     [('name tables', 'src/include/dlpack.h, src/include/slpack.h, src/include/armas/*.h')],
     ['symbol tables and prototypes of the linked IR'],
     'symbol and type comparison between the headers and the linked LLVM IR of both precisions',
     'Sixteen functions declared without a definition are listed as known findings.')
prop('C16', 'Every loop of the library ends, whatever numbers and sizes it is given',
     'Every loop is left after finitely many rounds for every input, also for operands that are not numbers, infinite, zero or full of equal elements: on every '
     'way around a counter, index or size that the loop is left by goes on towards its end, and nothing sets it back. An iteration that waits for '
     'convergence is bounded by a number of rounds; a loop over the blocks of a matrix goes on in one direction by a number of rows or columns that '
     'is not zero, also when the configured block size is zero or workspace is short; a loop that reads a file or stream ends when the input ends.',
     ['inputs', 'histories', 'configurations'], 'all element values, sizes, block sizes and input files',
     'A test that hangs is one somebody thought of; convergence for all numbers and all block sizes cannot be sampled.',
     ['src/lapack', 'src/blas', 'src/eblas', 'src/base', 'src/sparse', 'src/io', 'src/threaded', 'src/compat'],
     [('iterations for eigenvalues and singular values', 'src/lapack/trdevd.c, bdsvd_gr.c, bdsvd_dk.c, dqds.c, trdsec.c, trdbis.c'),
      ('blocked factorizations', 'src/lapack/lu.c, chol.c, qr.c, ldlbkl.c'), ('iterative solvers', 'src/sparse/gmres.c, cgrad.c'),
      ('readers', 'src/io/json_reader.c, src/io/iomm.c, src/sparse/io.c')],
     ['loop exits', 'counters and sizes', 'partition calls'],
     'ranking of every way around every loop over linear forms of variables and memory cells, with the partition functions as known from C08; zero-step reachability over the call graph',
     'Index arithmetic does not overflow; block sizes kept in the configuration cache and the number of columns done by a panel of a pivoted LDL '
     'factorization are taken as positive. Six loops end by properties of floating point numbers and are listed in the evidence. Recursion and waits of threads are not decided here.')
prop('C20', 'Variables, local views and results are set before they are used',
     'On every path of every function, a local variable, or a member of a local object (view, pivot vector, workspace descriptor, work structure), is '
     'set before it takes part in a condition, an address, arithmetic, an argument or the returned value. A local object handed to a routine has been '
     'given the members that the routine reads before setting them itself.',
     ['inputs', 'configurations'], 'every function, every path',
     'Unset stack memory often holds the wanted value under test; the failing paths are those for unusual sizes and flags.',
     ['src/base', 'src/blas', 'src/eblas', 'src/lapack', 'src/sparse', 'src/io', 'src/threaded', 'src/workers', 'src/include'],
     [('partition, repartition and submatrix routines set local views', 'src/include/partition.h, src/include/matrix.h')],
     ['uses of local variables and objects'],
     'path-sensitive dataflow of unset values with bottom-up summaries of the members that callees read',
     'Array elements and heap memory are not tracked. Reads that a callee makes only under a flag argument do not count. In file-local functions the loops '
     'are taken to run at least once.')

prop('C13', 'Factorizations, solvers and products are accurate to rounding',
     'Every product, factorization, eigenvalue or least squares routine returns a result whose residual is a modest multiple of the rounding error, for '
     'all finite operands; the extended precision routines return nearly correctly rounded results, and the iterative solvers return a residual below the '
     'requested one.',
     ['inputs'], 'all finite element values and sizes',
     'Residuals are tested for a few random matrices of a few sizes.',
     ['src/blas', 'src/eblas', 'src/lapack', 'src/sparse'],
     [('products and solves', 'src/blas, src/eblas'), ('factorizations', 'src/lapack')], ['results of public functions'],
     None, None,
     na='A bound on the rounding error of these algorithms needs numerical analysis of values at run time; no dataflow, type or syntax rule in reach bounds it.')
prop('C17', 'Scalar, SIMD, blocked and threaded code paths give the same result',
     'For the same operands the result does not depend on the block sizes, the number of threads, the scheduling, the accelerator or the kernel selected '
     'for the processor, up to the order of additions.',
     ['inputs', 'configurations', 'schedules'], 'all kernels, block sizes and numbers of threads',
     'Tests run the kernels of one processor and a few block sizes.',
     ['src/blas', 'src/threaded', 'src/workers', 'src/base'],
     [('kernels', 'src/blas, src/include/simd.h'), ('accelerators', 'src/threaded, src/workers')], ['results of products'],
     None, None,
     na='Equality of differently ordered loops over elements needs relational reasoning about array contents; C10 decides the part that has a static '
        'argument, which blocks are computed and from which operands.')
prop('C18', 'A matrix written to a file or stream reads back equal',
     'JSON and Matrix Market serializations of dense and sparse matrices read back to a matrix of the same size and elements, also for symmetric and '
     'triangular matrices, extreme numbers and zero sizes.',
     ['inputs'], 'all matrices and flags', 'There is no test of serialization.',
     ['src/io', 'src/sparse/io.c'], [('writers and readers', 'src/io/json_base.c, src/io/iomm.c, src/sparse/io.c')], ['contents of files'],
     None, None,
     na='Depends on what printf formats and strtod read back at run time (the JSON writer is known to keep 14 digits only); relating writer and reader '
        'loops over elements is not in reach of a static rule. C04, C06, C12, C16 and C20 cover what the readers do with bad input.')
prop('C19', 'Elements are accessed only inside of the operands and of the triangle referenced',
     'Kernels read and write elements only within rows, columns and step of the operands they are given, and triangular and symmetric routines never '
     'touch the other triangle.',
     ['inputs'], 'all sizes, steps and flags', 'Tests run whole matrices without guard elements around them.',
     ['src/blas', 'src/eblas', 'src/lapack', 'src/sparse'], [('element accesses', 'src/blas, src/lapack, src/sparse')], ['element loads and stores'],
     None, None,
     na='A prototype that bounded element addresses by linear forms over loop variables decided 12 of 50 kernels: addresses are products of loop variables '
        'and steps, unrolled remainders depend on alignment, and index arrays of sparse matrices are data. C05, C07 and C08 decide what has a sound '
        'static argument: operand conformance, workspace bounds, and the addresses of views.')
