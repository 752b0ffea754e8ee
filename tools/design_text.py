TEXT = {
'P24': '''One round of every loop of findptsms_local, findptsms and findptsms_eval (both dimensions; helpers placed in, loops over dimensions unrolled) is executed abstractly over polynomials; records and outputs are told apart by base, stride and point number, not by name. Rules: start (status "not found" for all points), whole (every path writes all parts of an
answer for one point or none; the two passes over the points of an element skip the same ones), candidate (all parts from the same record, element that of the entry, status by whether the search ended inside, same records for all parts, number and sender come back), decision (replace if and only if none yet, interior or nearer; never an interior one; the same for the running winners of a session, which are replaced as a whole and compared with their own distance),
Candidates are listed with the element whose box was tested, searched with their own coordinates and all of them; only "not found" candidates are left out on the way back; winners of a session begin anew with a session or point, are handed on at its end, and written at the end of a point. send-on (all open points with coordinates and number, as many as were put in, to the process that is the remainder of the number of their cell, which is looked up under, and was entered under, the quotient; offered to every process in their cell but the one they are from), evaluation (all found points and no others, own coordinates and element, records kept as they are, values from the element of the points, each value to its point at the caller's stride).
Tests look at errors over many interior points, on few processes, and cannot force each order of candidates.''',
'P21': '''sarray_transfer_many is executed abstractly over polynomials (helpers placed into it; every combination of options; one round of every loop, nests level by level; what an inner loop leaves is related to the next visit). Compared: the map record offset -> stream offset of the pieces packed and the inverse map of
the pieces unpacked, for the first array (with the hole of the process word, which must be filled from the header word the option asks for) and for every further array; they must cover each record exactly. Rules for messages (target, own number, true length incl. the last, a new one exactly when the process changes), for every walk over the stream
(start, whole messages and rows, end), for the order (one permutation for all arrays), for the row size (rounded-up sum, never zero), for space (packing, growing arrays, least fixed capacity, cut-off stream consistent in length and words) and for what is returned and stored as count. The C wrappers must hand on what they are given.
Tests do not exceed a fixed capacity and use few layouts.''',
'P20': '''One round of the router and one step of its scan are executed abstractly over polynomials in the words of the stream and the counters (all helpers placed into the router; every path of every loop round). Rules: the scan starts at the first word and ends behind the
last; the step is 4*(3 + third word) on every path; exactly one copy of that length per record, to the end of the kept or of the outgoing side, or none when it is in its place; overlap-unsafe copies only where a test excludes overlap; both sides go on by what was put there; which side depends
on comparing the destination with the same cut that decides this process's half, and agrees with it on every path; the work area has room for all of it; what is sent and announced is all of the outgoing side; arrivals are put one behind the other after what is kept, each with the length its own sender announced,
within the space reserved, and the word count afterwards is the sum. The argument that a loop whose every step is right is right for all streams is the usual invariant; tests use small fixed messages.''',
'P08': '''Byte-exact must-write dataflow per object: for each block of constant size a set-up routine allocates, or object it is handed to fill (gather-scatter handle, each method's data, split-phase records, router, finders and their local parts; C and Fortran),
the bytes given a value on every returning path (through helpers, callees, every target of the method table, structure copies, per-dimension loops unrolled) are compared with the bytes any other routine reads from such an object before writing them itself. Readers are
re-analysed with the option values the set-up stores (session mode, evaluation state), so parts that exist only under an option are required only there. Calls through a slot that some method leaves empty must ask first; tables of routines have no holes.
Tests run in fresh processes, where undefined usually reads as zero.''',
'P01': '''Abstract heap, flow- and path-sensitive, for every function of the linked program in every configuration (helpers inlined, others by summary, specialised for constant arguments): each allocation and each duplicated communicator is
a token (live, released, absent, moved) kept in cells named by their access path. At every return a live block must be reachable from an object that outlives the call; overwriting the last path to a block is a leak; releasing a released block, an inside address
or an undefined cell is reported. For each object kind (crystal router, gather-scatter with each method, search objects of both dimensions, Fortran registries, outstanding operations) the parts set-up and operations leave owned are compared with
what the teardown releases on every path: each exactly once; pools of blocks by count; parts that exist only under a flag must be released under it; a replaced (losing) method must be torn down through its own routine. Tests never look at the heap.''',
'P02': '''The abstract heap of P01, with the block a pointer points into renamed by every operation that may reallocate or release it (also those done by callees, by summary; recency: the block of an earlier loop round has another name). Every load, store, memory copy,
message buffer and pointer argument that a callee accesses must name a current block, on every path. At every return no cell of an object that outlives the call may hold the address of a local (also addresses callees keep in global records) or of a block just released;
messages left outstanding by a non-blocking start must not use storage shared by all operations that some other operation may move. Tests run small sizes in which nothing moves.''',
'P10': '''Analysed: whole library as IR for a data model in which pointers, sizes and `long` are 32 bits wide (x32). There every
64-bit integer is a global identifier, something derived from one, or 64-bit data. Every truncation, conversion to
floating point, and access to a 64-bit field or array at another width must act on a reduced value (remainder, quotient,
mask, distance, count). Reductions and scans: the data-type code must fit the buffer's element type. Sort keys: a shim
turns every sorted field into a static assertion about its own width (compile-fail witness). Pointers to identifiers must not be cast
to narrower element types. Tests only use small identifiers.''',
'P11': '''Interprocedural write effects: for each exported or slot-stored function and pointer parameter, the levels of
indirection written (through callees, function pointers, local pointer arrays, MPI/libc/BLAS) must lie within the documented outputs
(`lib/outputs.json`, confirmed by reading). Pointers to caller data kept in objects are never written through. Four configurations.''',
'P12': '''Inventory of mutable statics (by unit, type and number); counting tables of the radix sort are cleared completely
before use in every call (dominance); no store of an operation goes to a set-up field, no write of an operation goes through a pointer
kept in an object except to scratch; per-element caches of the search are reset whenever an element is started.''',
'P13': '''Symbol tables of all units under unusual prefixes and all Fortran naming conventions; every defined global symbol
must carry the prefix, and every undefined one must be defined with the prefix or belong to MPI/libc/BLAS.''',
'P14': '''Every combination of integer-width options x {MPI, serial, CBLAS}: all units compile with format, overflow and type
mismatch diagnostics as errors, link, and satisfy a witness unit of static assertions (`witness/widths.c`) about types, tags, formats, absolute-value
functions; sort entry points resolve to the routine of the same width.''',
'P15': '''clang ASTs of all units and of the public headers: every structure and routine declared more than once has one layout and one
signature; 2-D and 3-D textual instances agree up to dimension.''',
'P06': '''A generated unit calls each of the 16 kernel entry points and the reductions with every constant (type, operation) pair; the compiler inlines and folds, so what remains
is the code of that cell (about 400 cells, four configurations). On that residual: element type of every access, combining operation (opcode, comparison direction and signedness), the exact identity stored, byte counts,
offsets as polynomials (map entry x stride x element size), MPI type/operation/count constants; element-size tables of every unit; callers pass (type, operation) through unchanged. Tests sample a handful of the cells.''',
'P16': '''Every Fortran-callable routine and the completion of non-blocking operations, all configurations, helpers placed into their callers. At each address computation into a registry selected by a caller's number,
0 <= number < count must be known (branch facts; failing that, conditional constant propagation of each out-of-range case must not reach the use); each use of an entry needs "not released" known; type and operation codes likewise (1-3, 1-4);
set-up: stored on every path before the count grows by one, returned number = old count, table enlarged (in place or copied, size = new capacity x entry size) when full; release clears the entry on every returning path.''',
'P17': '''A generated unit calls every Fortran-callable routine with each constant code (types, operations, transpose values 0/1/2/-1, dimensions, 1-3 keys, 1 or 3 fields); after inlining, folding and unrolling by the compiler
only calls of C routines remain. Each must be the documented routine, on every returning path, once; each argument must equal the documented one as a polynomial in bytes over the caller's arguments; contents of argument arrays
(pointers, strides, sizes, records of arrays) are read off the dominating stores; results stored; communicator converted and its size compared; sort keys last to first, right column, right width, fresh order only for the first.''',
'P07': '''Divergence analysis: values that may differ between processes (process number, user data, received data, clocks) are propagated through
data flow, joins of divergent branches, nominated memory cells (verified uniform at every store) and calls. No collective step, nor a call that leads to one, is
control dependent (transitively) on a divergent branch; counts, types and operations of collectives are uniform; functions called through pointers that lead to
collectives are chosen uniformly. A hang needs a particular distribution of data over processes that no test samples.''',
'P27': '''Every external function is one whose result its arguments determine; receives never use wildcards and status objects are never read; clock values
(followed through data flow and local memory) reach no branch, memory, result or call except printing or after a reduction over all processes; addresses turned into integers
are only subtracted from each other.''',
'P09': '''Each call of malloc/calloc/realloc (and of any routine that hands an unchecked result on): assuming the call yields nothing for a non-zero request, conditional constant propagation
follows what can still run; no path may use the block or return, each must end in a routine whose body cannot return (exit/abort or an endless loop - declarations are not believed; also built with a user exit handler and with allocation tracing).
The failure routine must be given a constant file and line. Documented detected errors (wrong process count, dimension, in-place strided sort, several processes without MPI, multi-session object) are assumed one by one and must leave no returning path. The tests never make an allocation fail.''',
'P05': '''Every exchange routine a method installs is specialised by the compiler for {scalar, vector, multi-field, trial} x {plain, transposed}, every public operation for both directions; each residual
routine is read as a sequence of steps (kernels, messages, waits, reductions, calls through the object) whose arguments, loops and conditions are canonical byte-exact polynomials (loop counters, trip counts, running sums, merges).
Sequences are compared: starting+waiting against blocking (values go through the record of the outstanding operation), scalar/multi-field against vector, transposed against the plain one under one exchange of maps found from the two,
trial against real; vector offsets and counts must be proportional to components x element size. Tests run few operations non-blocking, transposed or with several components.''',
'P03': '''Every routine that sends messages and every exchange routine a method installs (each layout, direction and the trial run; split-phase start and wait put together), as specialised for P05. Posts and waits become intervals
of request slots (byte-exact start, count; a loop of posts is one interval of its trip count). The branches the code takes around them are split into cases (flags, small set-up fields, merges resolved per case); in each case, in the same round of
the enclosing loop, the slots waited for must be exactly the slots posted, and wait and post must reach each other on every path. Slots fit the request array (local size or the size allocated at set-up). Between post and wait nothing reads a receive buffer, writes
either buffer or reallocates; regions of one group do not overlap (adjoining by the sizes set-up stores). Nothing stays outstanding in blocking routines. Tests have few process counts and eager messages that finish at once.''',
'P04': '''On the step sequences of P03/P05: no wildcard source or tag, one communicator handle; the tag of each receive, as a function of (stage, process count, sender), is the tag of a send of the same step; lengths are rank-independent, or the same word of what
was announced to/by that very peer (also through the record set-up keeps: which announced word each recorded field holds), or taken from the same position of one list. For staged exchanges one round of the loop is executed abstractly over affine forms in
h (half the range, range 2h or 2h+1), the base and a generic process g, plus the processes conditions single out: the split gives two adjoining parts that the next round works on, starting from all processes; each send to q has the same number of receives at q from the sender with that tag, both
ways; no partner leaves the range. For the recorded crystal router the partners set-up stores are combined with the posts each value of the recorded receive count leads to. On the way up of the trees the state left by the way down is restored exactly. This covers every process count; tests run 1, 2 and a few.''',
'P18': '''Every loop of the linked program: bounded by LLVM's scalar evolution (with the language's finite-loop assumption switched off), or a progress
rule: a value the exit test depends on moves strictly one way on every path round (advance, halve, double), two values that close in (bisection),
common-ancestor halving, permutation cycle, bit-encoded tree traversal. Call graph acyclic. Tests cannot reach non-convergent points or degenerate lists.''',
}
CAUGHT = {}
FALSE = ''
