"""Writes /verif/properties.jsonl (kept as a script so the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['modred/' + f for f in files],
                     state=[dict(name=a, meaning=b, where='modred/' + c) for a, b, c in state],
                     mechanism=[dict(name=a, where='modred/' + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

VS = 'vectorspace.py'
p('C01', 'Inner-product arrays from handles are complete and correct',
  'Given any row and column vector handles and any Hermitian inner product, the array of inner products computed from handles is two-dimensional and its (i, j) entry equals the inner product of row vector i with column vector j, on every process, for every number of vectors, number of processes and memory limit. The symmetric variant returns the full Hermitian array of all pairs of one list. No imaginary or fractional part is lost when only some of the inner products are complex or non-integer, and a single handle that is not in a list counts as a list of one.',
  ['inputs', 'configurations', 'schedules'], 'all list lengths (rows<cols, rows=cols, rows>cols, one), all process counts and memory limits, real/complex/mixed vectors, any message timing',
  'Tests use one list size, one real random data set and 1 or 3 processes; chunk boundaries, idle processes, transposition with complex data and heterogeneous types are never reached.',
  [VS], [('chunked rows, columns passed round a ring, allreduce of partial arrays', VS + ':VectorSpaceHandles.compute_inner_product_array'),
         ('triangles + pairwise block exchange + rectangles + symmetrization', VS + ':VectorSpaceHandles.compute_symm_inner_product_array')],
  observe=['return value on every rank', 'inner-product and get events at the user boundary'])
p('C02', 'Linear combinations are correct and each output is put exactly once',
  'For any basis handles, any real or complex coefficients (2D, or 1D for one output or one basis vector) and any selection and order of coefficient columns, every output handle receives exactly one put, by exactly one process, of the sum of the basis vectors weighted by the corresponding coefficient column, for every number of processes and memory limit. No basis handle is ever put. If the numbers of basis or output handles do not match the coefficient dimensions, a ValueError is raised and nothing is put.',
  ['inputs', 'configurations', 'schedules'], 'all numbers of basis/output vectors, coefficient shapes/types, column selections, process counts, memory limits',
  'Tests check a few sizes with one memory limit; exactly-once delivery over chunked loops and idle processes is a counting property over every configuration.',
  [VS], [('layers accumulated over a basis ring, put per chunk of sums', VS + ':VectorSpaceHandles.lin_combine')],
  observe=['put events per handle and rank', 'final content of every handle'])
p('C03', 'Memory limit on simultaneously held vectors is respected',
  'While computing inner-product arrays or linear combinations from handles (also through the mode-decomposition classes), no process simultaneously holds more vectors than its share of the per-node limit (limit times nodes divided by processes, rounded down, but never less than three) plus a fixed allowance of four vectors for temporaries and messages in transit. This holds however many vectors are processed. A limit that is too small for the number of processes is raised to three per process rather than rejected.',
  ['inputs', 'configurations', 'histories'], 'all numbers of vectors much larger than the limit, all limits, process and node counts, both operations in any sequence',
  'Tests never observe how many vectors are alive; a leak of references or an off-by-one chunk gives right numbers while exhausting memory on real data.',
  [VS], [('num_rows_per_proc_chunk/num_sums_per_proc_chunk and del of retrieved lists', VS), ('max_vecs_per_proc from nodes and workers', VS + ':VectorSpaceHandles.__init__')],
  observe=['live vector objects (weak references) at every vector creation'])
p('C04', 'Parallel runs agree with serial runs on every process and never hang',
  'Every handle-based computation (POD, BPOD, DMD, total-least-squares DMD, Galerkin projection, time derivatives) terminates for any number of processes, including more processes than vectors, and for any relative timing of the processes. It returns on all processes bitwise the same decomposition arrays, which define the same modes, eigenvalues and reduced models as the run on one process up to roundoff.',
  ['schedules', 'configurations', 'inputs'], 'all process counts, message/IO delays, list lengths, memory limits',
  'Tests run 1 and 3 processes without delays; deadlocks and races appear for particular process/vector count combinations and timings.',
  [VS, 'parallel.py', 'pod.py', 'bpod.py', 'dmd.py', 'ltigalerkinproj.py'],
  [('call_and_bcast of decompositions computed on rank zero', 'parallel.py:call_and_bcast'), ('isend/recv/Wait/barrier sequence', VS)],
  observe=['return values per rank', 'per-rank progress', 'put events'])
p('C05', 'Task assignment is an ordered, complete and balanced partition',
  'For any task list, any non-negative task weights and any number of processes, the assignment has one entry per process and the entries, concatenated in process order, are exactly the original tasks in their original order. With uniform weights no process gets fewer than floor(n/p) or more than ceil(n/p) tasks. With weights, no process is given more weight than an even share of the weight remaining when its turn comes plus the largest remaining single task weight, nor less than that share minus it, and all processes compute the same assignment.',
  ['inputs', 'configurations'], 'all list lengths, weight vectors (including zeros, ties, extremes) and process counts',
  'Tests check the example of a few lists at 1 and 3 processes.',
  ['parallel.py'], [('greedy split at cumulative weight closest to even share', 'parallel.py:find_assignments')],
  observe=['return value for every simulated and real number of workers'])
p('C06', 'Custom reductions equal an ordered fold over all processes',
  'For any number of processes, any root and any associative (possibly non-commutative) operation, the scalable reduce, allreduce, scan and exclusive scan give the rank-ordered combination of all contributions: reduce only on the root (None elsewhere), allreduce on all, scan over ranks up to and including the own, exclusive scan over lower ranks (None on rank zero). Minimum/maximum-with-location return the extreme value with the lowest rank holding it, and the contributions are not modified.',
  ['inputs', 'configurations', 'schedules'], 'all communicator sizes, roots, associative operations, payloads and arrival orders',
  'Tests only sum numpy arrays at 3 processes with root 0.',
  ['reductions.py', 'parallel.py'], [('binomial-tree point-to-point reduce', 'reductions.py:Intracomm.reduce'), ('recursive doubling', 'reductions.py:Intracomm.scan')],
  observe=['return value on every rank'])
p('C07', 'User data is never modified',
  'No computation modifies the data it is given: arrays of vectors, weights, coefficient and index lists, signals and Markov parameters passed to any public function or class are bitwise unchanged afterwards. Vectors stored in memory behind input handles are bitwise unchanged too, and input handles are never put.',
  ['inputs', 'histories'], 'all public entry points, data types and memory layouts, repeated use',
  'Tests rarely compare inputs with a copy; in-place accumulation and aliasing bugs show only for particular types, counts of vectors or chunk orders.',
  [VS, 'vectors.py', 'util.py', 'pod.py', 'bpod.py', 'dmd.py', 'era.py', 'okid.py', 'ltigalerkinproj.py'],
  [('np.array copies of inputs', 'pod.py'), ('first layer is a fresh product before in-place sums', VS + ':VectorSpaceHandles.lin_combine')],
  observe=['byte image of every input before and after each call'])
p('C08', 'A handle returns scale * (stored vector - base vector), always current',
  'Getting from an in-memory, text-file or pickle handle returns the vector most recently put there through a handle in this process, minus the current content of its base handle (if any), times its scale (if any), whatever sequence of gets and puts on this and other handles came before. Put stores the given vector unmodified, so a handle without base and scale returns an equal vector (equal type and values for in-memory and pickle handles).',
  ['histories', 'inputs'], 'all sequences of get/put/replace over several handles sharing or not sharing bases, scales, files and types',
  'Tests check single get/put pairs; the shared base-vector cache makes the result depend on history.',
  ['vectors.py'], [('class-level cached base vector keyed by handle equality', 'vectors.py:VecHandle.get')],
  state=[('cached_base_vec', 'last base vector obtained by any handle', 'vectors.py:VecHandle')],
  observe=['value returned by each get against a reference map of stored contents'])
p('C09', 'Text files round-trip arrays and signals exactly',
  'Saving any finite or infinite 1D or 2D real or complex array (any memory layout, float, integer, boolean or lower-precision type, any single-character delimiter) as text and loading it back returns a 2D array of exactly the same values, 1D arrays coming back as one column. Loading complex data with an odd number of columns and saving arrays of more than two dimensions raise errors. Signal files load as the exact time column and signal columns, and several files load together only if their times and numbers of signals agree.',
  ['inputs'], 'all shapes, dtypes, layouts, extreme values, delimiters',
  'Tests round-trip a handful of C-ordered float/complex random arrays.',
  ['util.py', 'vectors.py'], [('array.view(float) / view(complex)', 'util.py:save_array_text, load_array_text'), ('load_signals/load_multiple_signals', 'util.py')],
  observe=['array before save and after load', 'errors raised'])
p('C10', 'Saved decompositions restore exactly and only one process writes',
  'Putting a decomposition, correlation/Hankel arrays, coefficients or reduced model calls the user put function exactly once per array (for the handle-based and Galerkin classes on process zero only), with the right array for each destination. Getting it back with a get function that returns what was put, into a new object on any number of processes, gives every process the same arrays, with which modes, spectra and projection coefficients equal those of the original object. This also holds for decompositions with a single mode.',
  ['inputs', 'configurations', 'histories'], 'all classes and put/get methods, numbers of modes >= 1, process counts, text and in-memory storage',
  'Tests check that attributes are set after get for one multi-mode real case and rarely go on computing with them.',
  ['pod.py', 'bpod.py', 'dmd.py', 'ltigalerkinproj.py', 'era.py'],
  [('rank-zero guard and barrier', 'pod.py:PODHandles.put_eigvals and peers'), ('call_and_bcast(get_array) and squeeze', 'pod.py:PODHandles.get_decomp and peers')],
  observe=['calls of user put/get functions per rank', 'recomputed modes/coefficients'])
p('C11', 'POD modes are orthonormal, ordered and optimal for any data and weights',
  'For any data, real or complex, and any valid inner product weights, the POD modes are orthonormal in that inner product, the retained eigenvalues are positive, descending and equal to the squared weighted singular values of the data, and the projection coefficients are the inner products of modes with data. The modes times the coefficients reproduce the data up to the truncated eigenvalues. The method of snapshots, the direct method and the handle-based class agree.',
  ['inputs', 'configurations'], 'all data shapes, ranks, types and weights (none, 1D, 2D Hermitian positive definite)',
  'The array-based tests do not run reliably, and tests sample one fixed data size.',
  ['pod.py', 'util.py', VS], [('eigendecomposition of correlation array; weighted SVD', 'pod.py')],
  observe=['returned namedtuples/attributes, put modes'])
p('C12', 'BPOD modes balance and biorthogonalize the given data',
  'For direct and adjoint data that come from impulse responses of a linear system, real or complex and with any number of inputs and outputs, the array that is decomposed equals all adjoint-direct inner products, its retained singular values are positive and descending and the retained singular vectors orthonormal. The direct and adjoint modes are biorthogonal in the inner product, and the projection coefficients are the biorthogonal projections of the data on the modes. The array function and the handle-based class agree.',
  ['inputs', 'configurations'], 'all systems, numbers of inputs/outputs (equal or not), numbers of time steps, weights, types',
  'The array-based test does not run reliably; the handle test uses one system.',
  ['bpod.py', 'util.py'], [('Hankel array from first column and last row chunks', 'bpod.py, util.py:Hankel_chunks')],
  observe=['returned namedtuple/attributes, put modes'])
p('C13', 'DMD yields eigenvalues, modes and coefficients of the data-fitting map',
  'For any vectors and advanced vectors (given explicitly or as one sequential series), real or complex, weighted or not, the DMD eigenvalues are the eigenvalues of the least-squares linear map from vectors to advanced vectors projected onto the retained POD subspace; projected modes are its eigenvectors, exact modes are eigenvectors of the full map, adjoint modes are biorthonormal to both. Projection and spectral coefficients are the biorthogonal projections of the data (absolute values for the first vector). Snapshot method, direct method and handle-based class agree.',
  ['inputs', 'configurations'], 'all data, sequential or paired, weights, truncations, types',
  'Array-based DMD test does not run reliably, the rest sample one size with random data.',
  ['dmd.py', 'util.py'], [('projection onto correlation eigenvectors, eig_biorthog', 'dmd.py')],
  observe=['returned namedtuples/attributes, put modes'])
p('C14', 'Total-least-squares DMD equals DMD of the jointly projected data',
  'Total-least-squares DMD gives the eigenvalues, exact, projected and adjoint modes and coefficients that DMD gives for the data after both vectors and advanced vectors are projected onto the leading right singular subspace of the stacked weighted data of the chosen dimension, for real or complex, sequential or paired data. Without truncation and with independent data it equals ordinary DMD. Snapshot method, direct method and handle-based class agree.',
  ['inputs', 'configurations'], 'all data, sequential or paired, weights, truncation levels below the data rank, types',
  'Tests sample one size and never compare with an independent projection.',
  ['dmd.py', 'util.py'], [('sum correlation eigenvectors as de-noising projector', 'dmd.py:TLSqrDMDHandles.compute_eigendecomp and array functions')],
  observe=['returned namedtuples/attributes, put modes'])
p('C15', 'Truncation tolerances and limits are honoured by every decomposition',
  'In every decomposition that takes them, exactly those eigenvalues or singular values are kept that exceed the absolute tolerance and whose ratio to the largest exceeds the relative tolerance, and a maximum number of eigenvalues caps the count; all returned arrays are truncated consistently. This is equally true of array functions, handle-based classes and repeated eigendecompositions with new tolerances on the same object.',
  ['inputs', 'configurations', 'histories'], 'all spectra, tolerance values (absent, tiny, large), caps, and sequences of truncations',
  'Tests use default tolerances or one value; options passed down several layers are not observed.',
  ['util.py', 'pod.py', 'bpod.py', 'dmd.py'], [('num_nonzeros_atol/rtol', 'util.py:svd, eigh'), ('atol, rtol, max_num_eigvals parameters', 'pod.py, bpod.py, dmd.py')],
  observe=['numbers of retained values and array shapes against the known spectrum'])
p('C16', 'Mode selection returns exactly the requested modes in order',
  'Asking for a list, range, array or single number of mode indices, in any order, yields exactly those modes in that order, each identical to the same mode of a full computation, without changing the decomposition. In handle-based classes each requested mode is put to the handle in the same position; this holds for POD, BPOD direct and adjoint, DMD and total-least-squares DMD exact, projected and adjoint modes.',
  ['inputs', 'histories', 'configurations'], 'all index collections (unsorted, subset, single, repeated calls), all mode families, process counts',
  'Tests use one fixed subset per class.',
  ['pod.py', 'bpod.py', 'dmd.py', VS], [('coeff_array_col_indices', VS + ':lin_combine'), ('modes[:, mode_indices]', 'pod.py')],
  observe=['modes per handle or column'])
p('C17', 'ERA reproduces Markov parameters and honours its block sizes',
  'For Markov parameters sampled at times 0, 1, P, P+1, 2P, 2P+1 and so on of a linear system of order n, any number of inputs and outputs and Hankel blocks large enough, the eigensystem realization of order n reproduces the impulse response it was given and is a balanced realization ordered by descending Hankel singular values. The requested numbers of Markov parameters per dimension, whether given at construction or on the call, determine the Hankel arrays, whose blocks are the corresponding Markov parameters; too short data raise ValueError. Converting uniformly sampled data yields the samples at times 0, 1, 1, 2, 2, 3 and so on exactly and rejects unequal spacing.',
  ['inputs', 'configurations', 'histories'], 'all systems, orders, input/output counts, sampling periods, block sizes, data lengths, repeated use of one object',
  'Tests use a few single examples with P=1/2 and equal block sizes.',
  ['era.py', 'util.py'], [('assembly of two shifted Hankel arrays', 'era.py:ERA._assemble_Hankel'), ('balanced factors', 'era.py:ERA.compute_model')],
  observe=['A, B, C, Hankel arrays, singular values, errors'])
p('C18', 'OKID recovers exact Markov parameters from noise-free data',
  'For noise-free input/output data of a stable linear system with persistently exciting inputs from rest, any number of inputs and outputs and enough samples and parameters, the estimated Markov parameters equal D, CB, CAB, ... of the system. The result has one entry per requested parameter, outputs by inputs; 1D signals count as one channel, and mismatched sample counts raise ValueError.',
  ['inputs', 'configurations'], 'all systems, input signals, numbers of channels, samples and parameters',
  'Tests compare with a few stored cases at loose tolerance.',
  ['okid.py'], [('observer ARX least squares and recursion', 'okid.py:OKID')],
  observe=['returned array against simulated system'])
p('C19', 'Galerkin projection gives the oblique projection of the dynamics',
  'For any basis and adjoint basis (orthonormal, biorthonormal or neither), weights and types, the reduced A and B are the (bi)orthogonal projection coefficients of the given A- and B-actions on the basis (the inverse of the adjoint-basis Gram array times the inner products, or just the inner products when the basis is declared orthonormal), and reduced C has the given C-actions as columns. Array and handle versions agree, models can be reduced repeatedly in any order, and time derivatives equal (advanced - current) / dt per vector.',
  ['inputs', 'configurations', 'histories'], 'all bases, weights, types, orders of calls, process counts',
  'Tests use one orthonormal and one random basis.',
  ['ltigalerkinproj.py', VS], [('projection array cached and inverted', 'ltigalerkinproj.py'), ('derivative per assigned task', 'ltigalerkinproj.py:compute_derivs_handles')],
  state=[('_proj_array', 'cached inverse Gram array', 'ltigalerkinproj.py')],
  observe=['reduced arrays, put derivatives'])
p('C20', 'Provided inner products are true Hermitian weighted inner products',
  'The trapezoidal inner product equals the multi-dimensional trapezoid quadrature of conj(v1)*v2 on the given grids in any number of dimensions; the uniform one equals the sum of conj(v1)*v2. Array vector spaces return conj(V1)^T W V2 for no, 1D or 2D weights, and their linear combinations equal V times the selected coefficient columns. Vectors not matching the grid and invalid grids or weights, including weights of the wrong length, are rejected with an error.',
  ['inputs'], 'all grids, dimensions, shapes, types and weights',
  'Tests check one or two grids with real vectors.',
  ['vectors.py', VS], [('nested trapezoid over reversed grids', 'vectors.py:InnerProductTrapz'), ('weight dispatch', VS + ':VectorSpaceArrays')],
  observe=['return values, errors'])
p('C21', 'Matrix decomposition wrappers return valid, ordered decompositions',
  'The SVD wrapper returns orthonormal factors with descending non-negative singular values reproducing the array up to the truncated values; the Hermitian eigendecomposition returns orthonormal eigenvectors and eigenvalues of descending magnitude satisfying the eigen equation, and only positive ones when the array is declared positive definite, whatever the tolerance. The biorthogonal eigendecomposition of an array with distinct eigenvalues returns left and right eigenvectors that satisfy their eigen equations and are biorthonormal, with the side not chosen for scaling having unit norms.',
  ['inputs'], 'all real/complex arrays, shapes, ranks, spectra, tolerances and scale choices',
  'Tests use one random shape; indefinite arrays, absent tolerances and rank deficiency are not covered.',
  ['util.py'], [('svd, eigh, eig_biorthog', 'util.py')], observe=['return values'])
p('C22', 'Hankel arrays have constant skew diagonals for every shape',
  'The Hankel array of a first column and last row (or of lists of 2D chunks) has the first column and, except its first element, the last row as given, and entry (or block) (i, j) depends only on i+j, for all lengths and rectangular chunk sizes, real or complex. Without a last row, the remaining entries are zero.',
  ['inputs'], 'all lengths (including one), chunk shapes and types',
  'Tests check a few sizes.', ['util.py'], [('unique values indexed by i+j', 'util.py:Hankel, Hankel_chunks')], observe=['return values'])
p('C23', 'Linear-system utilities simulate, generate and balance correctly',
  'Discrete-time simulation of a real or complex system follows x(k+1)=Ax(k)+Bu(k), y=Cx from the given initial state, and the impulse response of the requested length is CA^kB with indices time, output, input. Random discrete- and continuous-time systems have the requested dimensions and real stable eigenvalues. Balanced truncation of a stable discrete-time system returns its discrete Hankel singular values in descending order and a realization with equal diagonal Gramians which at full order has the same impulse response.',
  ['inputs'], 'all systems, orders, input/output counts, signals, initial states, random seeds',
  'Tests compare a few random systems; balancing is only checked loosely through impulse responses.',
  ['util.py'], [('lsim, impulse, drss, rss, balanced_truncation', 'util.py')], observe=['return values'])
p('C24', 'Sanity check accepts valid vector spaces and rejects broken ones',
  'The sanity check passes for every vector, handle and inner product that satisfy the required arithmetic, whatever the vector type, size or magnitude, and leaves the vector unchanged. It raises ValueError when scalar multiplication or addition gives a result of the wrong norm or changes the norm of its operand, and RuntimeError when no inner product was given. All handle-based decomposition classes behave the same.',
  ['inputs', 'fault_sequences'], 'all valid vector spaces (scales 1e-6 to 1e8, real/complex, array or custom) and all single arithmetic faults',
  'Tests try one valid and a few broken vectors of unit size.',
  [VS, 'pod.py', 'bpod.py', 'dmd.py'], [('norm comparisons after scaling/adding', VS + ':VectorSpaceHandles.sanity_check')], observe=['acceptance or error'])
p('C25', 'Results do not depend on earlier use of the same object',
  'Reusing one object of any handle-based or model-reduction class for new data, other options, or another kind of data set (sequential after paired and vice versa) gives the same results, modes and coefficients as a fresh object. Repeating a call gives identical results, and changing tolerances back restores the earlier decomposition.',
  ['histories', 'inputs'], 'all sequences of compute, truncate, mode, coefficient, get calls on one object',
  'Tests create a fresh object per check.', ['pod.py', 'bpod.py', 'dmd.py', 'era.py', 'ltigalerkinproj.py', VS],
  [('attributes overwritten by each compute', 'dmd.py:DMDHandles.compute_decomp and peers')],
  state=[('vec_handles, adv_vec_handles', 'remembered data sets', 'dmd.py')], observe=['results of reused vs fresh objects'])
p('C26', 'Misuse is rejected with a clear error before any output is written',
  'Array-based functions refuse to run on more than one process with RuntimeError. Missing inner products (RuntimeError), mismatched numbers or shapes of vectors, advanced vectors, bases, modes or samples, missing or wrongly sized data sets for mode computation, and invalid options raise the documented kind of error (ValueError, or the specific documented type) instead of returning a result, and no output handle is written.',
  ['inputs', 'configurations'], 'all public entry points and single misuse of their arguments, serial and parallel',
  'Tests check a few raises; several error paths are never executed.',
  ['pod.py', 'bpod.py', 'dmd.py', 'ltigalerkinproj.py', 'okid.py', 'era.py', 'util.py', VS], [('explicit checks and raises', 'all modules')], observe=['exception type, put events'])
p('C27', 'Verbosity zero is silent and only process zero ever prints',
  'With verbosity 0 no decomposition, projection, linear combination or inner-product computation writes anything to standard output or standard error; with verbosity 1 only process zero writes, whatever the number of processes and the progress interval. Verbosity never changes results.',
  ['configurations', 'inputs'], 'all classes and calls, process counts, progress intervals, memory limits (which trigger warnings)',
  'Tests set verbosity 0 to keep quiet but never observe output.',
  [VS, 'py2to3.py', 'era.py', 'parallel.py'], [('print_msg guarded by verbosity and rank', VS + ':VectorSpaceHandles.print_msg')], observe=['captured stdout/stderr per rank, results'])
p('C28', 'A failing user callback surfaces and leaves the object usable',
  'If a user-supplied get, put, inner product or array-saving function raises, the same exception reaches the caller and is not swallowed or replaced by a result. Repeating a call that failed on all processes afterwards on the same objects, with the callback working, gives the same result as if nothing had failed, and inputs are still unchanged.',
  ['fault_sequences', 'histories'], 'every position of a failing callback in every operation, retried on the same object',
  'No test injects failures.', [VS, 'vectors.py', 'pod.py', 'bpod.py', 'dmd.py', 'ltigalerkinproj.py', 'era.py'],
  [('no exception handling around callbacks; state assigned after computation', 'all classes')], observe=['exception identity, results of retry'])
p('C29', 'Helper functions keep their simple contracts for all inputs',
  'Converting to 2D rows or columns never changes values or already 2D arrays; making an argument iterable wraps only non-iterables; flattening, summing lists and arrays, equality of values (true exactly for equal type, shape and values) and of vector handles (true exactly for same kind, vector or path, base and scale) do what they say for all inputs. File listing returns exactly the files with the extension, and standard basis vectors are the columns of the identity. Broadcast helpers return process zero\'s value on all processes, evaluating the function on process zero only.',
  ['inputs', 'configurations'], 'all argument types and shapes, process counts',
  'Tests use a couple of values each.', ['util.py', 'parallel.py', 'ltigalerkinproj.py'],
  [('small helpers', 'util.py'), ('bcast, call_and_bcast, call_from_rank_zero', 'parallel.py')], observe=['return values and call counts per rank'])

p('C30', 'Everything a call writes is complete when the call returns on any process',
  'When a linear combination, mode computation, derivative computation or put method of any class returns on any process of a parallel job, every vector and array that the call writes has been completely written by whichever process writes it. Every process can read all of these outputs with correct content right away, however slow single writers are.',
  ['schedules', 'configurations', 'inputs'], 'all timings of the writing processes, process counts, numbers of outputs and memory limits, every call that puts vectors or arrays',
  'Tests write small local files quickly and often add barriers of their own; a missing barrier shows only with slow writers.',
  [VS, 'pod.py', 'bpod.py', 'dmd.py', 'ltigalerkinproj.py', 'parallel.py'],
  [('barriers at the end of lin_combine', VS + ':VectorSpaceHandles.lin_combine'), ('put on rank zero followed by a barrier', 'dmd.py:DMDHandles.put_eigvals and peers'),
   ('compute_derivs_handles', 'ltigalerkinproj.py:compute_derivs_handles')],
  observe=['times of put and return events on all processes, reads on return'])
p('C31', 'Vectors are retrieved, multiplied and sent no more often than documented',
  'Computations with handles retrieve, multiply and send vectors no more often than the documented scaling with the memory limit and the number of processes allows (up to a small constant per process and call), in total and per process, so that work is shared evenly. Symmetric inner-product arrays take about half the inner products, BPOD takes only those of the first column and last row of chunks, sequential data sets are not multiplied twice, and eigendecompositions, truncations and coefficients of existing decompositions touch no vectors.',
  ['inputs', 'configurations'], 'all numbers of vectors, memory limits, process and node counts, all handle-based computations',
  'Tests compare results only: every superfluous retrieval gives the same numbers, but large data make it unusable.',
  [VS, 'bpod.py', 'dmd.py', 'pod.py', 'ltigalerkinproj.py'],
  [('scaling formulas in the docstrings of compute_inner_product_array, compute_symm_inner_product_array, lin_combine', VS)],
  observe=['counts of get, inner product, scalar multiplication and pickling events per process'])

p('C32', 'Whole workflows end in models of the system',
  'Starting from a stable discrete-time system, BPOD with Galerkin projection, POD with a complete basis, ERA on the impulse response, OKID followed by ERA on noise-free data, and balanced truncation all end in models with the Markov parameters of the system when the order is full; BPOD and ERA models of any order have the same Markov parameters, those of long BPOD snapshot sequences are those of balanced truncation, and DMD finds the eigenvalues of the system. This holds with arrays and with handles in memory, pickle files and text files (with base vectors and scale factors), for any number of processes, each stage reading from files what an earlier stage, object or run has written.',
  ['inputs', 'configurations', 'multi-step histories'], 'all stable systems with well-separated Hankel singular values, snapshot counts, storage kinds and process counts',
  'Tests exercise each stage alone, mostly on random data with no underlying system; that conventions (conjugations, ordering, scaling, time shifts, file formats) of all the stages fit together shows only end to end.',
  ['bpod.py', 'pod.py', 'dmd.py', 'era.py', 'okid.py', 'ltigalerkinproj.py', 'util.py', 'vectors.py', VS],
  [('BPODHandles, LTIGalerkinProjectionHandles', 'ltigalerkinproj.py'), ('ERA.compute_model, make_sampled_format', 'era.py'), ('OKID', 'okid.py'), ('balanced_truncation, impulse, lsim', 'util.py')],
  observe=['Markov parameters, singular values and eigenvalues at the end of each workflow', 'inner products of modes read back from files'])

p('C33', 'Methods that do not square the data keep the accuracy of the data',
  'The direct methods of POD, DMD and total-least-squares DMD, the singular value decomposition, BPOD and ERA resolve singular values (and POD modes) that are ten or more decades below the largest one, with absolute errors near machine precision relative to the largest one. OKID identifies Markov parameters to an accuracy proportional to the condition number of the input data, not to its square.',
  ['inputs'], 'data with singular values over 11 decades of all shapes, kinds and weights; systems with weakly excited or observed states; smooth input signals',
  'Tests use well-conditioned random data, for which squared and unsquared algorithms agree to all digits that are compared.',
  ['pod.py', 'dmd.py', 'bpod.py', 'era.py', 'okid.py', 'util.py'],
  [('"does not square the vectors and singular values"', 'pod.py:compute_POD_arrays_direct_method'), ('"Using least squares for better numerical conditioning"', 'okid.py:OKID'), ('svd', 'util.py:svd')],
  observe=['singular values, eigenvalues, modes, Markov parameters'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert x['statement'].count('. ') <= 2, (x['id'], x['statement'].count('. '))
        f.write(json.dumps(x) + '\n')
print(len(P))
