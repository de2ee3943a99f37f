#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as the readable source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech,
                     observe_at=observe or ["public API of the crate, results compared with an independent exact model"],
                     hook_needed=None)))
m = lambda name, where: dict(name=name, where=where)
FOUR = "The unit tests convert, add and stack one fixed 4x4 f64 matrix; "

p("C01", "Converting between storage formats never changes the matrix",
  "Every conversion between dense rows, coordinate, CSR, CSC and dictionary-of-keys form yields a matrix of the same shape with the same value at every position, where a position stored several times counts as the sum of its entries. This holds for every valid matrix: unsorted or repeated entries, explicit zeros, spare storage beyond the stored entries, empty rows or columns, and zero rows or columns. No entry is lost, duplicated, moved or invented along any path of conversions.",
  ["inputs","histories"], "for all valid matrices in every format, every index and scalar type, and every path of conversions",
  FOUR + "no test has an empty matrix, spare storage, explicit zeros, a rectangular CSC, a DoK, or a path of more than one conversion.",
  ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/dok/dok.rs","src/row.rs","src/coord.rs","src/col.rs"],
  [m("counting sort by row then in-place pointer shift","src/coord.rs:coo_tocsr, src/row.rs:csr_tocsc"), m("row pointer expansion","src/row.rs:expandptr, csr_tocoo"), m("merging of repeated entries","src/row.rs:csr_sum_duplicates")])

p("C02", "Sorting, merging and the format predicates are exact",
  "The sorted-index predicate is true exactly when the indices inside every row (column) are non-decreasing, and the canonical-format predicate exactly when they are strictly increasing; both answer for every valid matrix, including ones with empty rows. Sorting only permutes entries within a row (column) and leaves them sorted; merging duplicates leaves the matrix canonical and equal to before, keeping explicit zeros; converting coordinate or dictionary data to CSR or CSC gives canonical form; eliminating zeros removes exactly the zero entries and keeps the order of the rest.",
  ["inputs","histories"], "for all valid compressed matrices (any duplicate, order, empty-row and explicit-zero pattern) and any sequence of these in-place operations",
  "Tests look at one 4x4 matrix with one swapped pair and no empty row; merging is only tested on a matrix added to itself.",
  ["src/row.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs"],
  [m("predicates","src/row.rs:csr_has_sorted_indices, csr_has_canonical_format"), m("in-place sort and merge","src/row.rs:csr_sort_indices, csr_sum_duplicates, csr_eliminate_zeros"), m("prune","src/csr/csr.rs, src/csc/csc.rs")])

p("C03", "Every returned matrix is structurally well formed",
  "Given well-formed inputs, every matrix returned by a constructor, conversion, arithmetic operation, product, selection or stacking has the shape the operation defines, a pointer array that starts at zero, never decreases and ends at the number of stored entries, index and value arrays of exactly that length, and only indices inside the shape. Sums, differences and products of compressed (CSR or CSC) matrices hold each position at most once and store no zero.",
  ["inputs","histories"], "for all well-formed inputs to every matrix-returning operation, including results fed back as inputs",
  "Tests inspect the raw arrays of a single conversion (Coo to CSC of the fixed matrix); an array that is too long or a stray index is invisible to the value comparisons they make.",
  ["src/csr","src/csc","src/coo","src/dok","src/row.rs","src/coord.rs"],
  [m("length checks in constructors","src/csr/csr.rs:CSR::new, src/csc/csc.rs:CSC::new, src/coo/coo.rs:Coo::new"), m("result allocation and trimming","src/csr/std_ops.rs, src/csc/std_ops.rs, src/row.rs:csr_matmat_maxnnz")])

p("C04", "Matrix-vector products equal the dense product",
  "For every valid CSR or CSC matrix and every vector of matching length, multiplying (by method or by any owned/borrowed operator form) returns the dense product, with repeated entries summed and absent entries contributing nothing. The row, column and coordinate kernels for one vector and for a block of vectors add exactly that product to whatever the output array held before.",
  ["inputs"], "for all valid matrices (duplicates, unsorted, spare storage, empty rows/columns), vectors, block widths and prior output contents",
  "One 2x3 CSR product is tested; CSC, the operators, the block kernels and non-zero initial outputs are never run.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/util.rs","src/csr/csr.rs","src/csc/csc.rs","src/csr/std_ops.rs","src/csc/std_ops.rs"],
  [m("accumulating loops","src/row.rs:csr_matvec(s), src/col.rs:csc_matvec(s), src/coord.rs:coo_matvec, src/util.rs:axpy")])

p("C05", "Matrix-matrix products equal the dense product",
  "For every pair of valid matrices with matching inner dimension, CSR by CSR, CSC by CSC and CSC by CSR multiplication, by method or by any operator form, gives a matrix equal to the dense product at every position, whatever the order or repetition of stored entries in either operand. The advertised upper bound on the number of result entries is never exceeded, and is exact when nothing cancels.",
  ["inputs"], "for all valid operand pairs, including rectangular, empty, unsorted, duplicated and cancelling ones",
  "One 2x3 by 3x2 dense positive CSR product is tested; CSC products, mixed products, duplicates and cancellation are never run.",
  ["src/row.rs","src/col.rs","src/csr/csr.rs","src/csc/csc.rs","src/csr/std_ops.rs","src/csc/std_ops.rs"],
  [m("two-pass SMMP multiplication with linked-list row workspace","src/row.rs:csr_matmat_maxnnz, csr_matmat"), m("CSC by swapping operands","src/col.rs:csc_matmat")])

p("C06", "Sums, differences, negation and scaling equal dense arithmetic",
  "For every pair of valid matrices of equal shape, addition and subtraction in every format that offers them, by method or operator and for every owned/borrowed combination (an operand combined with itself included), give the dense sum or difference; negation and multiplication by a scalar on either side give the dense result. Repeated, unsorted or explicitly zero entries in either operand never change the answer.",
  ["inputs"], "for all operand pairs, scalars and call forms, in all formats",
  "Only Coo + Coo on the fixed matrix (and one CSR + CSR inside a graph test) run; no CSC operator, subtraction, negation or scaling has a test.",
  ["src/csr/std_ops.rs","src/csc/std_ops.rs","src/coo/std_ops.rs","src/csc/csc.rs","src/row.rs"],
  [m("canonical merge and general linked-list merge","src/row.rs:csr_binop_csr_canonical, csr_binop_csr_general, csr_binop_csr"), m("operator implementations","src/*/std_ops.rs")])

p("C07", "Element-wise kernels apply the operation on the union of patterns",
  "Each element-wise kernel (add, subtract, multiply, divide, maximum, minimum, ==, !=, <, <=, >, >=, or a caller-supplied operation) stores at every position held by either operand the operation of the two summed values (absent meaning zero), drops results that are zero or false, and stores nothing elsewhere. The answer is the same whether the operands are canonical, unsorted or contain duplicates, and is sorted when both operands are canonical.",
  ["inputs"], "for all pairs of valid operands of equal shape and all twelve operations plus arbitrary caller-supplied ones",
  "Only addition of canonical operands is reached; ten of the twelve operations and the general path are never run.",
  ["src/row.rs"],
  [m("dispatch on canonical format","src/row.rs:csr_binop_csr"), m("two merge algorithms","src/row.rs:csr_binop_csr_canonical, csr_binop_csr_general")])

p("C08", "Transposes and complex parts are exact",
  "Transposing a matrix in any format, consuming or borrowing it, exchanges rows and columns and nothing else, and twice is the identity. For complex matrices in every format, conjugate, real part, imaginary part and conjugate transpose act entry by entry without changing shape or pattern, a matrix built from a real (imaginary) matrix has that matrix as its real (imaginary) part and zero as the other, and values are carried over bit for bit (conjugation negating the imaginary part).",
  ["inputs"], "for all valid matrices in CSR, CSC and coordinate form, both complex precisions",
  "Transpose is tested on one square and one 2x3 matrix; conj/real/imag/h/with_real/with_imag are never run.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/csr/ccsr.rs","src/csc/ccsc.rs","src/coo/ccoo.rs","src/traits.rs"],
  [m("reinterpretation of the same arrays","src/csr/csr.rs:transpose,t; src/csc/csc.rs:transpose"), m("complex traits","src/traits.rs:Complex")])

p("C09", "Stacking and block assembly place every block exactly",
  "Horizontal and vertical stacking of two or three matrices and assembly from a 2x2 or 3x3 grid of blocks give the matrix whose blocks are exactly the inputs at the offsets set by the preceding blocks, of total size, with nothing lost or moved, for blocks of any compatible sizes including empty ones. Blocks whose shapes do not fit together are reported as an error.",
  ["inputs"], "for all compatible and incompatible block sizes and contents, in coordinate, CSR and CSC form",
  "Two identical square blocks are stacked once each way; three-way stacking, block assembly, unequal blocks and mismatches are never run.",
  ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs"],
  [m("index offsets and shape checks","src/coo/coo.rs:h_stack,v_stack,h_stack3,v_stack3,compose,compose3; src/csr/csr.rs:h_stack; src/csc/csc.rs:compose")])

p("C10", "Selecting and slicing rows and columns picks exactly those",
  "Selecting rows and columns of a canonical matrix by index lists, in any order, with repeats, or with a list omitted to mean all, gives the matrix whose entry (r, c) is the source entry at the r-th listed row and c-th listed column, and requests on non-canonical matrices or with an index out of range are errors. The slicing kernels (rectangular window, row list, row range with step, column list) return exactly the chosen entries in the order of the source rows, renumbered, including duplicates.",
  ["inputs"], "for all matrices, index lists (unsorted, repeated, empty, omitted) and windows",
  "One 3x3 ascending selection of the fixed CSR matrix is tested; CSC selection, repeats, omitted lists, errors and every slicing kernel are never run.",
  ["src/row.rs","src/csr/csr.rs","src/csc/csc.rs"],
  [m("two-pass select","src/row.rs:csr_select"), m("slicing kernels","src/row.rs:get_csr_submatrix, csr_row_index, csr_row_slice, csr_column_index1, csr_column_index2")])

p("C11", "Entry, diagonal and triangle reads agree with the matrix",
  "Reading one entry, the main or any other diagonal, the entries on or above a given diagonal, or the count of occupied diagonals gives what the dense matrix says, with repeated entries summed, for every shape including tall, wide and empty ones. Absent positions read as zero.",
  ["inputs"], "for all valid matrices, positions and diagonal offsets in range",
  "Only the main diagonal of the 4x4 matrix is read by tests; get, off-diagonals, upper and the diagonal count are never run.",
  ["src/row.rs","src/col.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs"],
  [m("scans of one row","src/csr/csr.rs:get, src/row.rs:csr_diagonal, csr_count_diagonals"), m("triplet scans","src/coo/coo.rs:diagonal, upper")])

p("C12", "Requests that do not fit are refused, and leave nothing changed",
  "Constructing from arrays of inconsistent length, multiplying, adding, subtracting or stacking operands whose shapes do not match, selecting out of range, setting an entry outside the shape, and running a graph routine on a non-square matrix are all refused: functions that can return an error return one (unsigned scalars may panic on underflow first), operators panic. No such request yields a matrix, and a matrix given to a refused request still holds exactly what it held before.",
  ["inputs","histories"], "for all shape-mismatched or out-of-range requests to every public entry point that takes them",
  "No test makes a request that should be refused.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs","src/graph.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/coo/std_ops.rs"],
  [m("length and dimension checks","CSR::new, CSC::new, Coo::new, mat_vec, mat_mat, add, subtract, h_stack, v_stack, select, DoK::set, validate_graph")])

p("C13", "A dictionary matrix behaves as a map with default zero",
  "After any sequence of set, add and subtract requests, a dictionary-of-keys matrix reads back at every position the value the same sequence gives on a plain map whose missing entries are zero; setting or arriving at zero removes the entry, and the stored count is the number of non-zero positions. Rejected requests (index outside the shape) change nothing, and every export (dense, coordinate, CSR, CSC, text) shows exactly the current contents.",
  ["histories","inputs"], "for all request sequences on shapes of any size, all index and scalar types",
  "DoK has no test at all.",
  ["src/dok/dok.rs"],
  [m("zero-dropping insert and range checks","src/dok/dok.rs:set,add,sub,get")], state=[dict(name="values", meaning="position -> value map without zeros", where="src/dok/dok.rs")])

p("C14", "Weak components are exactly the undirected components",
  "For every square matrix, weak (or undirected) component analysis gives two nodes the same label exactly when a path of stored entries, taken in either direction, joins them, labels run from zero with none skipped, and the count is the number of components. For structurally symmetric matrices the CSR component routine gives the same partition of the nodes that have entries, marks nodes without entries with a negative flag, and counts accordingly, also when no node has entries.",
  ["inputs"], "for all square matrices as graphs: any size including zero, self-loops, duplicate edges, empty rows, long paths",
  "Three tiny graphs are tested.",
  ["src/graph.rs","src/csr/csr.rs"],
  [m("stack threaded through the label array","src/graph.rs:connected_components_undirected"), m("seed and frontier array","src/graph.rs:cs_graph_components")])

p("C15", "Strong components are exactly the mutual-reachability classes",
  "For every square matrix, strong component analysis gives two nodes the same label exactly when each can reach the other along stored entries, labels run from zero with none skipped, and the count is the number of classes. It terminates with an answer for every valid graph, including self-loops, repeated edges and the empty graph.",
  ["inputs"], "for all directed graphs of every size, edge order and edge multiplicity",
  "Three graphs of at most six nodes are tested, and only the sorted labels are compared, so a wrong assignment passes; Tarjan-style low-link errors need particular shapes.",
  ["src/graph.rs"],
  [m("iterative Tarjan with shared stacks","src/graph.rs:connected_components_directed")])

p("C16", "Depth-first order is a real depth-first traversal",
  "The depth-first routine lists exactly the nodes reachable from the start (along stored entries, or in either direction when undirected), each once, start first, and the predecessors form a tree of existing edges over exactly those nodes with none for the start and for unreached nodes. The list is a preorder of that tree and the traversal is genuinely depth-first: no edge (edge in either direction, if undirected) leads from an earlier node to a later node outside its subtree.",
  ["inputs"], "for all square graphs, start nodes, and both directedness settings",
  "One 4-node example in a doc-test; the undirected variant is never run.",
  ["src/graph.rs"],
  [m("explicit path stack with rescans","src/graph.rs:depth_first_directed, depth_first_undirected")])

p("C17", "Text output shows every entry and only what is stored",
  "The list form of a matrix has one '(row, column) value' line per stored entry, and reading it back gives exactly the stored entries. The table form of a canonical matrix with at least one column has one line per row and one cell per column, with '-' exactly where nothing is stored and otherwise the value to six significant digits, complex values in the form a+jb or a-jb with the correct sign.",
  ["inputs"], "for all matrices and all finite values (positive, negative, tiny, huge, complex)",
  "No test looks at any text output.",
  ["src/csr/table.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs","src/traits.rs","src/util.rs"],
  [m("table writer","src/csr/table.rs"), m("number formatting","src/traits.rs:Scalar::pretty_string")])

p("C18", "Narrow index types never silently corrupt a result",
  "With any index type and in both checked and release builds, an operation on matrix objects either returns the correct result or refuses (error or panic); when positions or entry counts exceed what the index type can hold it never returns a wrong or malformed matrix. When everything involved, including the result, fits the index type with the dimensions themselves representable, it returns the correct result.",
  ["inputs","configurations"], "for all index types (8 to 128 bit, signed and unsigned), sizes around their limits, and both build profiles",
  "All tests use usize and the unoptimised profile.",
  ["src/row.rs","src/coord.rs","src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/traits.rs"],
  [m("checked conversions to the index type","I::from(..).unwrap() throughout"), m("counters","src/row.rs:csr_matmat, csr_binop_csr_general; src/coo/coo.rs:h_stack,v_stack,upper")])

p("C19", "Malformed structure never causes undefined behaviour",
  "Whatever index, pointer and value arrays the caller supplies (out of range, decreasing, too short or too long), every safe function of the crate ends in a result, an error or a panic; it never reads or writes memory outside its arrays, uses freed or uninitialised memory, or otherwise has undefined behaviour (running out of memory because the arrays ask for gigabytes aside).",
  ["inputs"], "for all argument arrays of every safe public function, valid or not",
  "Tests pass only valid input and run without sanitizers, so an out-of-bounds access would not be noticed.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/csr","src/csc","src/coo","src/graph.rs"],
  [m("bounds-checked indexing throughout; no unsafe outside the eigenvalue binding","src")])

p("C20", "Returned eigenpairs are the dominant eigenpairs of the matrix",
  "When the eigenvalue routine (feature eigs) succeeds on a square matrix, each returned eigenvalue comes with a non-zero vector v (the row of the same number) such that A v equals the eigenvalue times v up to rounding, and the eigenvalues are those of largest magnitude (a complex one accompanied by its conjugate). Apart from unlucky random starts, which another call makes good, it does succeed for ordinary matrices with well-separated dominant eigenvalues, real or complex; it reports an error for non-square input or a requested count outside its range.",
  ["inputs"], "for all real square sparse matrices with separated spectrum, sizes and requested counts",
  "The feature has no test at all; it is only compiled.",
  ["src/eigen/real.rs"],
  [m("reverse-communication loop and unpacking of Ritz pairs","src/eigen/real.rs:eigs")])

p("C21", "Concurrent eigenvalue computations do not disturb each other",
  "Any number of threads may call the eigenvalue routine at the same time on their own or shared matrices; every call ends and returns a correct answer for its own matrix, as if the calls had been made one after another. A call that fails or panics on a malformed matrix does not disturb the others.",
  ["schedules","inputs"], "for all interleavings of concurrent calls",
  "No test calls the routine, let alone from two threads; the native library keeps static state between the steps of one computation.",
  ["src/eigen/real.rs"],
  [m("global mutex around the native library","src/eigen/real.rs:MUTEX")], state=[dict(name="ARPACK saved variables", meaning="reverse-communication state inside the native library", where="arpack-ng-sys")])

p("C22", "The native eigenvalue binding stays within its buffers",
  "During every call of the eigenvalue routine the native library reads and writes only inside the buffers it was given: no access outside a buffer, no use of uninitialised results, and each requested product is delivered where the library asked for it. Refused calls return an error.",
  ["inputs"], "for all matrices, sizes and requested counts, successful or not",
  "The feature has no test and the native code is not instrumented by ordinary runs; a small overflow passes unnoticed.",
  ["src/eigen/real.rs"],
  [m("buffer sizes and leading dimensions passed to the binding","src/eigen/real.rs:eigs")], observe=["redzones around every heap block; valgrind memcheck"])

p("C23", "Any chain of operations agrees with dense algebra",
  "Any sequence of operations in which results become inputs (building, converting, merging, sorting, transposing, adding, multiplying, scaling, stacking, selecting, in-place value updates) gives at every step the matrix the same steps give on a dense model. Intermediate results, whatever internal order or spare storage they carry, are as usable as freshly built matrices, and operands passed by reference are left as they were.",
  ["histories"], "for all finite sequences of operations over a pool of matrices in all formats",
  "Each test makes one or two calls; interactions (for instance subtraction leaving spare storage that a later conversion exposes) are never exercised.",
  ["src/coo","src/csr","src/csc","src/dok","src/row.rs"],
  [m("every operation restores the representation invariants","src/csr, src/csc, src/coo")])

p("C24", "Work stays proportional to the data",
  "Conversions, products, sums, transposes, stacking, diagonals and the weak and strong component analyses perform a number of index and value operations bounded by a constant times the dimensions plus stored entries (plus multiply-adds for products, plus selected cells for selection), with at most a logarithmic factor where entries are sorted. Every one of them therefore finishes on every valid input.",
  ["inputs"], "for all valid inputs, measured as operations performed on caller-supplied index and scalar types",
  "Tests use inputs of at most 12 rows, on which a quadratic or runaway loop is invisible.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/graph.rs"],
  [m("linear algorithms, documented as such on the kernels","src/row.rs, src/coord.rs, src/graph.rs")], observe=["operation counters inside instrumented index and scalar types"])

p("C25", "Constructors and accessors report exactly what was given",
  "Building from dense rows, a diagonal, an identity size, an empty size, arrays, or by pushing and extending entries gives exactly the described matrix, and shape, stored count, index arrays and values read back what was put in, in the order it was put in. Writing through the mutable value view changes those entries and nothing else, and a clone is independent of its original.",
  ["inputs","histories"], "for all inputs to every constructor and all push/extend/write/clone histories, including zero-size matrices",
  "A few constructors are tested with one 4x4 or 6x6 input each; push/extend histories, mutation, clones and empty input are not.",
  ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/dok/dok.rs"],
  [m("constructors and accessors","src/coo/coo.rs, src/csr/csr.rs, src/csc/csc.rs, src/dok/dok.rs")])

p("C26", "In-place and low-level kernels do exactly their documented step",
  "Row scaling multiplies each stored entry by its row's factor and column scaling by its column's factor; dense expansion adds the matrix to the dense array in row-major or column-major order; pointer expansion, coordinate and transposed conversion kernels and their column-oriented counterparts fill exactly the documented outputs. None touches any other element of the arrays it is given.",
  ["inputs"], "for all valid matrices and output arrays with arbitrary prior contents and guard elements",
  "These public kernels are reached only through wrappers on the fixed matrix, or not at all.",
  ["src/row.rs","src/col.rs","src/coord.rs"],
  [m("public kernels","src/row.rs:csr_scale_rows, csr_scale_columns, csr_todense, expandptr, csr_tocoo; src/col.rs:csc_tocsr, csc_diagonal, csc_matmat; src/coord.rs:coo_todense, coo_tocsr")])

p("C27", "Non-finite, signed-zero and extreme values stay where they belong",
  "An infinite or not-a-number entry affects exactly the result positions whose defining sum or product involves that stored entry: absent entries never take part in arithmetic, no workspace carries a value from one row to the next, and conversions between sparse formats, transposes, stacking and selections carry every value of a position stored once over bit for bit; negation turns the sign of every stored value, zeros included. Entries that are not a number count as stored, never as zero; so does every finite value other than zero, however small (its square may vanish) or large: sums, products, dense input, dictionaries and the elimination of zeros drop exactly the values that compare equal to zero.",
  ["inputs"], "for all matrices with NaN, infinite, subnormal and signed-zero entries at any position",
  "Tests use positive finite values only, for which reading an absent entry as zero times something is harmless.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/coo/coo.rs","src/csr","src/csc"],
  [m("workspace reset between rows","src/row.rs:csr_matmat, csr_binop_csr_general"), m("zero tests","src/row.rs, src/traits.rs:Nonzero")])

p("C28", "Calls stand alone",
  "The answer of a call depends on its arguments and on nothing else: the same call gives the same matrix (vector, labels, text) again, whatever calls came before it, including refused calls, calls that panicked and calls on other types, and whatever calls run at the same time on other threads, on matrices of their own or on shared ones. Matrices can be sent to and shared between threads, and calls that take them by reference leave them as they were.",
  ["histories","schedules"], "for all sequences of calls on one thread, failed ones included, and all interleavings of concurrent calls on several threads",
  "Each test makes a few calls that succeed, in a fixed order, and never looks at a second thread; state kept between calls (a workspace, a cache, a lock) would pass unnoticed.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/coo","src/csr","src/csc","src/dok","src/graph.rs"],
  [m("workspaces local to each call","src/row.rs:csr_matmat, csr_matmat_maxnnz, csr_binop_csr_general; src/graph.rs")],
  observe=["public API on several threads under injected delays, and under ThreadSanitizer"])

p("C29", "Memory use follows the data and is given back",
  "Every call needs at most memory in proportion to the dimensions plus stored entries it works on and returns (plus dense cells where a dense form or table is asked for, selected cells for selection, and the basis for eigenvalues); products take room for their result, not for each multiply-add. Coordinate and dictionary matrices need no memory at all for rows and columns without entries, in construction, transposing, stacking, upper triangle, export of the dictionary to coordinates and printing. What a call does not return it releases: repeating a call, successful, refused or panicking, does not make the program grow, and a matrix changed back and forth holds what its present content needs.",
  ["inputs","histories"], "for all valid inputs of every size, and all histories of repeated calls",
  "Tests use matrices of some ten entries, for which rows times columns cells are as cheap as the entries, and never observe the allocator.",
  ["src/row.rs","src/coord.rs","src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/dok/dok.rs","src/graph.rs","src/eigen/real.rs"],
  [m("exact counting before a product is computed","src/row.rs:csr_matmat_maxnnz"), m("row-sized workspaces","src/row.rs:csr_matmat, csr_binop_csr_general")],
  observe=["counting global allocator around every call: peak, held by the result, left behind"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
