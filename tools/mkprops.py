#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the JSON lines are unreadable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
T = "include/tensor/"
p("P01", "Value semantics: no operation changes an object it was not asked to change",
  "Tensors, index vectors and sparse matrices behave as independent values: after any sequence of copies, assignments, reshapes, element writes, slice writes, in-place operators and library calls, every object holds exactly what its own history of operations dictates. Writing through one object never alters another object that was copied from it (or that it was copied from), and functions never alter their input arguments.",
  ["histories", "programs"], "all interleavings of copy / assign / write / reshape / in-place operations over any number of live objects sharing storage",
  "The tests copy one tensor once and look at one write; sharing bugs need a particular order of copies, releases and writes over several objects.",
  [T+"refcount.h", T+"detail/refcount.hpp", T+"vector.h", T+"tensor.h", T+"detail/tensor_base.hpp", T+"detail/common.h", "src/tensor/tensor_view.hpp"],
  [("copy-on-write appropriate()", T+"detail/refcount.hpp"), ("mutable accessors take a private copy first", T+"vector.h")],
  [("RefPointer", "pointer to a shared counted block", T+"refcount.h")], ["values of all live objects after each step"])
p("P02", "Storage is shared lazily and reclaimed exactly once",
  "Copying shares storage and reports the exact number of owners; the first write through a shared owner detaches only that owner, and a sole owner writes in place; each block is released exactly once, when its last owner goes away, so no operation reads released memory or leaks. The same holds for the reference-counted pointers handed to users (shared pointers), whose object is deleted exactly when the last handle disappears, and for every operation of the library: repeating an operation on the same operands and dropping its results leaves no memory behind.",
  ["histories"], "all histories of construct, copy, assign, self-assign, reset, write, swap-like reassign and destroy over several owners",
  "Tests check reference counts after two or three fixed steps; leaks, double frees and stale counts need longer histories.",
  [T+"refcount.h", T+"detail/refcount.hpp", T+"vector.h", T+"detail/common.h"],
  [("owner count in the shared block", T+"detail/refcount.hpp"), ("shared_ptr count", T+"refcount.h")],
  [("ref_count", "number of owners of a block", T+"refcount.h")], ["ref_count()", "addresses of the elements", "number of live blocks"])
p("P03", "Element access follows column-major order and rejects bad indices",
  "Reading or writing element (i1,...,in) of a tensor of any rank 1 to 6 touches exactly the element at column-major position i1+d1*(i2+d2*(...)), a negative index -k meaning d-k, and writing it changes no other element. Any index outside [-d, d-1], or a number of indices different from the rank, is rejected by aborting instead of reading or writing (operator[] and at(i) with one index are the documented access by column-major position); construction by dimensions, conversion from vectors and raw iteration agree with the same order.",
  ["inputs"], "all ranks 1..6, all dimension vectors (including zero-sized and length-one dimensions), all index tuples in and out of range, real and complex",
  "The tests read a handful of fixed tensors.",
  [T+"detail/tensor_base.hpp", T+"vector.h", T+"detail/common.h", "src/indices/indices.cc"],
  [("normalize_index", T+"detail/common.h"), ("accessors per rank", T+"detail/tensor_base.hpp")], (), ["operator()", "at()", "operator[]"])
p("P04", "Slices read exactly the selected elements",
  "A slice a(r1,...,rn) is the tensor whose element (k1,...,kn) is a(r1[k1],...,rn[kn]), where each range is a single index, a start:step:end interval (ends included), an index list or the full dimension; its dimensions are the range lengths, and intervals may be empty or descending. Ranges that select any position outside 0..d-1 are rejected by aborting, and taking a slice never changes the tensor.",
  ["inputs"], "all ranks 1..6, all combinations of range kinds, bounds, steps and index lists (repeated and unsorted), all dimensions",
  "Tests sample few ranges per rank; wrong strides or limits show only for particular combinations of range kinds and neighbouring dimensions.",
  ["src/views/range.cc", "src/tensor/tensor_view.hpp", T+"detail/tensor_slice.hpp", T+"indices.h"],
  [("Range product with factors", "src/views/range.cc"), ("view to tensor conversion", "src/tensor/tensor_view.hpp")], (), ["Tensor(view)"])
p("P05", "Slice assignment writes exactly the selected elements",
  "Assigning a tensor, a slice or a scalar to a.at(r1,...,rn) stores the k-th element of the source (as it was before the assignment) at the k-th selected position and leaves every other element of the tensor, and every other tensor sharing storage with it, unchanged. This holds also when the source is the same tensor, a slice of it, or shares its storage; sources of a different size are rejected by aborting.",
  ["inputs", "histories"], "all ranks 1..6, range combinations, sources (tensor, view, scalar, self), sharing states",
  "Tests assign few slices, never from the tensor being assigned to.",
  ["src/tensor/tensor_view.hpp", "src/views/range.cc", T+"detail/tensor_slice.hpp"],
  [("mutable_view assignment", "src/tensor/tensor_view.hpp")], (), ["tensor after assignment"])
p("P06", "Reshaping and index permutations move every element to the right place",
  "reshape and flatten keep the column-major sequence of elements and reject sizes that do not match; squeeze removes exactly the length-one dimensions (keeping one dimension of a single element); permute exchanges the two given dimensions (negative ones counted from the end), transpose is the matrix transpose and adjoint its complex conjugate; change_dimension crops or zero-pads one dimension and keeps all surviving elements in place.",
  ["inputs"], "all ranks, dimension vectors, pairs of dimensions and target sizes; real and complex",
  "Fast paths for adjacent or unit dimensions are only sampled by the tests.",
  ["src/tensor/tensor_permute.cc", "src/tensor/tensor_squeeze.cc", "src/tensor/matrix_transpose.cc", "src/tensor/tensor_change_dimension.cc", T+"detail/tensor_reshape.hpp", "src/indices/indices.cc"],
  [("permute_12 and friends", "src/tensor")], (), ["result tensor"])
p("P07", "Tensor contractions equal their index-sum definition",
  "fold(a,i,b,j) is the sum over the common index of a(..,k,..)b(..,k,..) with the remaining indices of a first and those of b after; foldc conjugates its first argument; foldin puts the surviving index of the matrix in place of the contracted index of the tensor; mmult is the matrix (or matrix-vector) product; scprod is the scalar product. Real/complex mixtures and the variants that write into an existing output give the same values, and contracting dimensions of different length is rejected by aborting.",
  ["inputs"], "all ranks, dimension vectors, contracted positions (also negative), real/complex mixtures, aliased operands",
  "Tests use a few random shapes; the code chooses among several BLAS layouts depending on where the contracted index is.",
  ["src/tensor/tensor_fold.cc", "src/tensor/tensor_fold_dz.cc", "src/tensor/tensor_foldin.cc", "src/tensor/gemm.cc", "src/arpack/gemv.cc"],
  [("surrounding dimensions and gemm/gemv dispatch", "src/tensor")], (), ["result tensor"])
p("P08", "Elementwise arithmetic acts element by element",
  "For +, -, *, / between tensors of equal dimensions, tensor and number, or number and tensor, in all real/complex combinations, every element of the result is the arithmetic result for that element and the dimensions are kept; the in-place forms give the same values as the binary forms, also when the number or tensor on the right is taken from the tensor being modified. Unary minus, abs, conj, real, imag, round, to_complex and the mathematical functions map each element independently; operands with different numbers of elements are rejected by aborting.",
  ["inputs"], "all sizes, ranks, element values and type mixtures, aliased operands",
  "Tests use random tensors of few sizes and never alias the right-hand side.",
  ["src/tensor/tensor_t_op_t.cc", T+"detail/tensor_ops.hpp", T+"detail/functional.h", "src/tensor"],
  [("elementwise loops", T+"detail/functional.h")], (), ["result tensor"])
p("P09", "Comparisons, selections and sorting agree with the order of the elements",
  "Comparison operators between tensors, index vectors and numbers (number on either side) return for each element the truth value of that comparison; all_equal, all_of, any_of, which, !, && and || agree with them. sort returns the same multiset in ascending (or descending) order, sort_indices the permutation that produces it, and min and max the extreme elements.",
  ["inputs"], "all sizes, values (ties, extremes, negatives), both orders, tensor/number on either side",
  "Tests compare few random vectors and never put the number on the left of an order comparison.",
  [T+"tensor.h", T+"indices.h", "src/compare", "src/tensor/tensor_sort_d.cc", "src/indices/booleans.cc", "src/indices/indices.cc"],
  [("comparison loops", "src/tensor"), ("std::sort with index comparator", "src/tensor")], (), ["result vector"])
p("P10", "Reductions and structured products match their definitions",
  "sum, mean (total and along a dimension), norm0, norm2, the matrix infinity norm and trace equal their definitions over all elements; diag builds and take_diag extracts exactly the requested diagonal of the chosen pair of dimensions; trace over two dimensions sums that diagonal; scale multiplies each slice along a dimension by its coefficient, kron and kron2 are the Kronecker product in their two orders, and kron2_sum(a,b) is kron(a,I)+kron(I,b).",
  ["inputs"], "all ranks, dimension vectors, dimensions and diagonal offsets (positive, negative, out of range); real and complex",
  "Tests sample square matrices and few offsets.",
  ["src/tensor/matrix_diag.cc", "src/tensor/tensor_take_diag.cc", "src/tensor/tensor_trace.cc", "src/tensor/tensor_mean_ndx.cc", "src/tensor/tensor_scale.cc", "src/tensor/tensor_kron.hpp", "src/tensor/tensor_kron2_sum_d.cc", "src/tensor/tensor_sum_d.cc"],
  [("strided loops over three or five surrounding dimensions", "src/tensor")], (), ["result"])
p("P11", "Generators produce the documented sequences",
  "linspace(a,b,n) has n equally spaced entries that start at a and end at b (one trailing dimension of length n when a and b are tensors of more than one element), iota and index ranges list start, start+step, ... up to and including end, gen and igen expressions list their items in order and append them to one another; zeros, ones and eye give the requested dimensions and contents.",
  ["inputs"], "all bounds, steps, counts (1 included), dimension vectors",
  "Tests check few counts and only rank-one bounds.",
  ["src/indices/linspace.hpp", T+"gen.h", "src/indices/indices.cc", T+"detail/tensor_matrix.hpp"],
  [("construction loops", "src/tensor")], (), ["result"])
p("P12", "Sparse matrices stay canonical and equal the matrix they represent",
  "Every sparse matrix built from a dense matrix, from coordinates and values in any order, or by eye or random, is in canonical compressed-row form: row starts monotone from 0 to the number of stored entries, columns strictly increasing within a row and inside the matrix. Converting to dense gives back the original matrix (zero where nothing is stored), element access equals the dense element, and explicit or inferred dimensions and indices outside the matrix are honoured or rejected.",
  ["inputs"], "all dimensions (empty rows, columns, matrices), densities, coordinate orders, explicit sizes",
  "Tests build few small matrices; ordering and empty-row errors depend on the coordinate order.",
  [T+"sparse.h", T+"detail/sparse_base.hpp", "src/sparse"],
  [("sorting of triplets; row_start construction", T+"detail/sparse_base.hpp")],
  [("row_start_/column_/data_", "CSR arrays", T+"sparse.h")], ["priv_row_start/priv_column/priv_data", "full()"])
p("P13", "Sparse algebra agrees with dense algebra",
  "Sum, difference and elementwise product of sparse matrices, product and quotient by a number, unary minus, transpose, adjoint, conj, real, imag, Kronecker products and Kronecker sums (kron2_sum(a,b) being kron2(a,I)+kron2(I,b)), and products between sparse and dense matrices or vectors on either side give, converted to dense, the result of the same dense operation, and sparse results remain well formed; operands of mismatched dimensions are rejected by aborting.",
  ["inputs"], "all dimensions, sparsity patterns, real/complex mixtures",
  "Tests use random matrices of few shapes with overlapping patterns.",
  ["src/sparse", T+"detail/sparse_ops.hpp"],
  [("row merge", "src/sparse/sparse_binop.hpp"), ("loops over stored entries", "src/sparse")], (), ["full(result)", "CSR arrays"])
p("P14", "Data files give back every record exactly, in order",
  "Loading the records of a data file in the order they were dumped returns values identical bit for bit to those dumped, for every record type (integers, reals, complex numbers, tensors of any rank including empty ones, vectors of tensors) and name. Closing and reopening a file for appending keeps all earlier records intact and adds the new ones after them, overwrite mode starts from an empty file, and records with a different name or type from the one requested are refused by aborting.",
  ["inputs", "histories"], "all sequences of dumps, closes, re-opens and loads in the different modes; all values",
  "Tests write one or two records per file.",
  ["src/sdf/odata_file.cc", "src/sdf/idata_file.cc", "src/sdf/data_file.cc", T+"sdf.h"],
  [("header, name, tag, raw data", "src/sdf")], (), ["loaded values", "file contents"])
p("P15", "Writers of a shared data file exclude each other",
  "At any time at most one process has a shared data file open through the library, whatever the interleaving of opening, locking, removing the lock file and closing among any number of processes; no record written by a process that closed its file is lost or interleaved with another process's record, and a process waiting for the file obtains it once the others are done.",
  ["schedules"], "all interleavings of the system calls of several processes opening and closing the same file",
  "Tests are single process or rely on timing; races need a particular interleaving.",
  ["src/sdf/data_file.cc"], [("lock file with flock", "src/sdf/data_file.cc")],
  [("lock file", "<name>.lck next to the data", "src/sdf/data_file.cc")], ["system calls", "file contents"])
p("P16", "Paranoid mode replaces a file only when it is complete",
  "When a data file is rewritten in paranoid mode and the process dies at any point before or during closing, the file under its public name is either the complete old version or the complete new version, never missing or partial; after a normal close the new version is in place and no temporary file is left.",
  ["crash_points"], "a crash before and after every system call that touches the file system, for first-time and overwriting writes",
  "Tests never kill the writer.",
  ["src/sdf/data_file.cc", "src/sdf/odata_file.cc"], [("write to temporary name, rename on close", "src/sdf/data_file.cc")], (), ["directory contents after the crash"])
p("P17", "Damaged or foreign data files are refused, never silently misread",
  "Opening or loading from a file that is truncated at any byte, has a wrong header, or holds another record than the one requested ends in a diagnosed abort; the library never returns values that were not stored, never reads outside its buffers and never hangs. Records complete before the point of damage are still returned correctly.",
  ["inputs", "fault_sequences"], "truncation at every byte offset, header corruption, wrong name/type/order of requests",
  "Tests load only well-formed files, plus one wrong name and one wrong type.",
  ["src/sdf/idata_file.cc", "src/sdf/data_file.cc"], [("checks in read_header, read_tag, read_raw", "src/sdf/idata_file.cc")], (), ["exit status", "loaded values"])
p("P18", "Jobs partition the parameter grid: each point once",
  "With n variables of given numbers of steps, the job numbers 0..N-1 (N the product of the steps) enumerate every combination of values exactly once, first variable fastest, and each variable's value is the linspace entry selected by the job. Splitting into blocks with --job-blocks/--this-job assigns every job to exactly one block and running all blocks visits every job exactly once; --first-job/--last-job visit exactly that interval. Every job has a record of its own in a data set: dataset_record_exists tells whether it was computed, and open_dataset gives a file to write exactly when it was not.",
  ["configurations"], "all numbers of variables and steps, all block counts and block numbers, all intervals",
  "Tests run one or two configurations.",
  ["src/tools/jobs.cc", "src/tools/jobs_dataset.cc", T+"jobs.h"], [("select_job and block arithmetic", "src/tools/jobs.cc"), ("data set records", "src/tools/jobs_dataset.cc")], (), ["current_job(), to_do(), ++, get_value()", "open_dataset(), dataset_record_exists()"])
p("P19", "Job options and job files are read as documented",
  "Variables given on the command line (--variable name,min[,max[,steps]]) and in job files yield exactly the named variables with the documented defaults; the option order does not matter, unknown variables are reported as documented (default value or abort), and malformed variables, missing files and inconsistent job ranges are refused instead of producing wrong parameters.",
  ["inputs", "configurations"], "all argument lists built from the documented options; all job files of well-formed and malformed lines",
  "The tests never read a job file and use few argument lists.",
  ["src/tools/jobs.cc", T+"jobs.h"], [("argument loop, parse_line, parse_file", "src/tools/jobs.cc")], (), ["Job state", "exit status"])
p("P20", "Random numbers are reproducible from the seed and stay in range",
  "Setting the same seed (by call or by the RANDSEED variable) always yields the same sequence, whatever mixture of integer, real, complex numbers or random tensors is drawn, equal to the 64-bit (or 32-bit) Mersenne Twister sequence it is documented to be; rand with bounds returns values in [lower, upper), and real numbers lie in [0,1).",
  ["histories", "inputs"], "all seeds, all call sequences, all bounds, across regeneration of the generator's internal block",
  "Tests draw a few numbers and look at coarse bounds.",
  ["src/rand/rand.cc", "src/rand", T+"rand.h"], [("Mersenne Twister state", "src/rand")], (), ["returned numbers"])
p("P21", "Dense factorisations and solvers satisfy their defining equations",
  "solve returns X with A X = B; svd returns nonnegative decreasing singular values and orthonormal factors with U diag(s) VT = A, in full or economic shape; eig and eig_sym return eigenvalues and (left and right) eigenvectors satisfying their defining equations, with the conventions documented. Inputs are never modified and non-square or mismatched inputs are rejected by aborting.",
  ["inputs"], "all shapes (tall, wide, square, rank-deficient), multiple right-hand sides, real and complex matrices",
  "Tests sample random matrices of few shapes.",
  ["src/linalg"], [("LAPACK calls with leading dimensions and work arrays", "src/linalg")], (), ["residuals scaled to integers"])
p("P22", "Fourier transforms and frequency shifts match their definition",
  "fftw over all, one or a chosen subset of dimensions equals the unnormalised discrete Fourier transform along exactly those dimensions, forward and backward being inverse up to the product of the transformed lengths, and the in-place variants give the same values while leaving copies of the input untouched. fftshift rotates the chosen dimensions so that the zero frequency is centred, and the opposite direction undoes it exactly for even and odd lengths.",
  ["inputs"], "all ranks, dimensions, subsets of dimensions, directions",
  "Tests use few sizes.", ["src/fftw", T+"fftw.h"], [("plan per dimension set", "src/fftw")], (), ["result tensor"])
p("P23", "Block SVD equals the SVD of the whole matrix",
  "For every matrix, block_svd returns the same singular values (up to order) as the full decomposition and factors with orthonormal columns and rows whose product rebuilds the matrix, whatever its block structure: permuted blocks, rectangular blocks, empty rows or columns, a single block or none.",
  ["inputs"], "all block patterns, shapes, economic or full, real and complex",
  "Tests use few random block-diagonal matrices.", ["src/linalg/block_svd.hpp", "src/linalg/find_blocks.hpp"],
  [("connected components of the nonzero pattern", "src/linalg/find_blocks.hpp")], (), ["residuals scaled to integers"])
p("P24", "Sparse and iterative eigensolvers return genuine extreme eigenpairs",
  "When eigs or the Arpack classes report convergence, the returned pairs satisfy A v = lambda v with unit vectors, and the eigenvalues are the requested number of extreme ones for the requested ordering; dense, sparse and function forms of the same matrix agree. A session used out of order (settings after it started, results before it finished), start vectors or products of the wrong length and selectors that do not exist are refused, and messages are those of the session.",
  ["inputs"], "matrices with known spectra, all eigenvalue orderings, numbers of eigenvalues, real/complex, dense/sparse/functional",
  "Tests use diagonal and random matrices of few sizes.", ["src/arpack", "src/arpack/eigs_d.cc", "src/arpack/arpack_t.cc"],
  [("reverse communication loop; small-matrix fallback", "src/arpack")], (), ["residuals scaled to integers"])
p("P25", "Iterative solvers and matrix functions satisfy their defining equations",
  "cgs returns x with A x = b for positive definite A, given as a matrix, sparse matrix or function and with any starting vector; the power methods return the dominant eigenvalue and its left or right unit eigenvector; expm equals the matrix exponential; solve_with_svd gives the least-squares solution of least norm, for systems of any rank; operands that do not fit are rejected by aborting.",
  ["inputs"], "integer matrices with exactly known answers, all sizes, starting vectors, real and complex",
  "Tests use few random matrices.", ["src/linalg/cgs.cc", "src/linalg/expm_d.cc", "src/linalg/eig_power.hpp", "src/linalg/solve_with_svd_d.cc"],
  [("iteration and stopping rule", "src/linalg")], (), ["residuals scaled to integers"])
p("P26", "Run-time flags are independent settings that keep their last value",
  "Every key created for the flag table is distinct from all others, starts with its declared default and returns the value last set for it, no matter how many keys are created or set before and after; using a key that was never created is refused.",
  ["histories"], "all histories of create, set and get", "No test touches the flag table.",
  ["src/tools/flags.cc", T+"flags.h"], [("vector of values indexed by key", "src/tools/flags.cc")], (), ["get()"])
p("P27", "Text output shows every element, in order, in the documented form",
  "Printing an object with << writes every element exactly once and in order: a tensor as (dimensions)/[elements in column-major order], vectors, index vectors and booleans as bracketed lists, a sparse matrix as the tensor it represents, and matrix_form as one bracketed matrix with one line per row; empty objects print as empty lists. Printing changes neither the object nor later output, and complex numbers written as text are read back as the same values.",
  ["inputs"], "all shapes including empty ones, real and complex elements, special values",
  "No test looks at printed output.", [T+"detail/io.hpp", T+"io.h", "src/views/matrix_form.cc"], [("separators and brackets", T+"detail/io.hpp")], (), ["text written to a stream"])
p("P28", "File helpers do what they say to the entry they name, and to nothing else",
  "file_exists and isdir tell what a name stands for (links followed) and change nothing; make_directory creates exactly one empty directory with the permissions asked for, or returns false; delete_file removes exactly the entry named, never a directory nor what a link stands for; rename_file moves an entry with all its contents, replacing the destination only when told to overwrite, refuses (aborts) a missing origin or an existing destination otherwise, and a false answer or a refusal leaves everything as it was.",
  ["histories", "inputs"], "all histories of helper calls on trees with files, directories, links and special files",
  "Tests only write and delete one file.", ["src/sdf/file_exists.cc", "src/sdf/isdir.cc", "src/sdf/make_directory.cc", "src/sdf/delete_file.cc", "src/sdf/rename_file.cc", T+"sdf.h", T+"jobs.h"],
  [("one system call each", "src/sdf/rename_file.cc")], (), ["directory tree after each call"])
p("P29", "tic and toc measure the real time that has passed",
  "toc() returns the seconds of real time since the latest tic(), whatever the program did in between (computing, sleeping, other calls of toc, crossing a full second), toc(w) those since the tic() that returned w, however many tic() came later; asking changes nothing.",
  ["histories", "time"], "all histories of tic, toc and toc(w) with computing and sleeping in between",
  "No test uses the stopwatch.", ["src/tools/tictoc.cc", T+"tools.h"], [("one global start time", "src/tools/tictoc.cc")], (), ["returned seconds"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if __name__ == "__main__":
    with open(path, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
