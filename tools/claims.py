IR = 'LLVM IR produced by the installed clang is taken as the meaning of the source; library calls outside gslib behave as documented.'
CLAIMS = {
 'P24': ('path-enumerating abstract interpretation over polynomials of one round of every search, merge and evaluation loop, LLVM IR', 'The search of one element fills flags, coordinates and distance of each of its points together; sorting and transfer keep records whole (P21). Which element a point belongs to is numerical and not judged. Loops written so that counters or cursors are not recognised are noted, not judged. ' + IR),
 'P21': ('path-enumerating abstract interpretation over polynomials; the packing and unpacking maps compared symbolically, LLVM IR', 'Sizes and counts do not wrap; sortp yields a permutation in order of the processes (other arrays have as many records as the first); a formula for the record size other than a rounded-up sum is noted, not judged. ' + IR),
 'P20': ('path-enumerating abstract interpretation over polynomials of one routing round and one scan step, LLVM IR', 'Word counts and sizes do not wrap; the stream handed in consists of whole records; copying done word by word in a loop of its own is noted, not judged. Matching of the messages between processes is P04. ' + IR),
 'P08': ('byte-exact definite-initialisation (must-write against upward-exposed reads) dataflow over LLVM IR, interprocedural by summaries', 'Judged per object of constant size (handles, method data, records, finders and the parts embedded in them); entries of arrays whose length is known only at run time are not. Option values kept in an object are taken to be 0 or 1. ' + IR),
 'P02': ('flow- and path-sensitive staleness (typestate with recency) analysis over an abstract heap, interprocedural by summaries, LLVM IR', 'Blocks of different elements of one array are told apart by cell only; storage the caller hands in under two names is taken not to overlap unless the same block is seen at the call. ' + IR),
 'P01': ('flow- and path-sensitive ownership (typestate) analysis over an abstract heap, interprocedural by summaries, LLVM IR', 'Blocks stored at several elements of one array are tracked as a pool (number of blocks against number of releases); objects kept in arrays of structures are told apart by cell, not by index value. Paths that end in the failure routine are not judged. ' + IR),
 'P11': ('interprocedural write-effect analysis over LLVM IR', 'Sound up to pointers laundered through integers or untracked heap cells; outputs are the documented ones, frozen per argument in lib/outputs.json. ' + IR),
 'P12': ('static-state inventory, effect and dominance rules over LLVM IR', 'Decides: no unclassified mutable statics, counting tables cleared before use, no writes to set-up fields or set-up memory from operations, per-element caches reset. Contents of the growable scratch buffers are not tracked. ' + IR),

 'P10': ('narrowing and access-width analysis over LLVM IR of a 32-bit data model, compile-fail witness for sort keys', 'The data model (32-bit pointers and sizes) makes 64-bit integers exactly the identifiers and what is derived from them; values narrowed through memory of another width are seen at the access. Bit-pattern data kernels are out of scope. ' + IR),
 'P13': ('symbol audit of the compiled units under unusual prefixes and every Fortran naming convention', 'Exact for the configurations compiled; prefixes enter only through token pasting, so one unusual prefix stands for all.'),
 'P14': ('type-level witnesses: static assertions and diagnostics-as-errors over all width combinations', 'Exact for the 9 width combinations x {MPI, serial, CBLAS}; scalar conversions that the language defines are not judged here (see P10).'),
 'P15': ('whole-program comparison of declarations and layouts over the clang AST', 'Exact for every declaration and structure visible to more than one unit or to the public headers.'),
 'P07': ('divergence (rank-taint) and control-dependence analysis of collective steps over LLVM IR', 'Documented all-processes-equal arguments (operation, type, dimension, method, handles of the same order) are taken as equal; memory cells taken as uniform are verified at every store. ' + IR),
 'P06': ('partial evaluation of every dispatch cell by the compiler, residual-program rules over LLVM IR', 'Floating-point minimum and maximum are accepted in either direction for ties (equal values). Offsets are compared as polynomials over map entries, stride and counters. ' + IR),
 'P16': ('must-analysis of branch facts and conditional constant propagation over LLVM IR', 'Objects registered through plain tables of pointers or structures selected by number; the set-up routines\' option codes are not part of the property. ' + IR),
 'P17': ('partial evaluation of every wrapper by the compiler, byte-exact comparison of the residual calls with the documented correspondence', 'Arguments of the internal set-up routines (gs_setup_aux, setupms_aux_2/3) are judged while these exist under that name. ' + IR),
 'P27': ('nondeterminism-source taint and effect analysis over LLVM IR', 'Relational comparisons of pointers are taken to stay within one object. ' + IR),
 'P09': ('failure-path analysis by conditional constant propagation over LLVM IR', 'exit and abort are taken not to return; a request of zero bytes may yield nothing. ' + IR),
 'P18': ('loop-variant analysis over LLVM IR (scalar evolution plus progress rules), acyclic call graph', 'Loop-invariant steps that are not constants (strides, record sizes) and group sizes found in a table are taken to be non-zero; a scan over the records of one group is taken to pass at least the record it started from. The loops named in the statement are left out. ' + IR),
 'P05': ('partial evaluation of every operation and exchange routine, canonical step-sequence comparison over LLVM IR', 'The stored total of a message list is taken to equal the sum of its sizes (set-up); transpose flags are 0 or 1. Kernels are compared by P06. ' + IR),
 'P22': ('partial evaluation per number of points; exact polynomial abstract interpretation of the residual arithmetic; constants against 60-digit reference', 'Rounding of the evaluation itself is not judged (exact arithmetic); numbers of points beyond those listed are not analysed. ' + IR),
 'P03': ('typestate of message requests over the partially evaluated exchanges, canonical slot intervals split by the conditions the code distinguishes', 'At most one operation outstanding per object. Distinct heap blocks and distinct parameters are taken not to overlap; sizes found in set-up records are related through what set-up stores. ' + IR),
 'P04': ('matching analysis of tags, sizes and lists over the partially evaluated exchanges; affine abstract interpretation of one symbolic stage (even and odd ranges) for partners', 'Process numbers stay below 2^30; the two ends of a pairwise list are built from the same shared identifiers (set-up); vector lengths and types of an operation are the same on all processes. ' + IR),
}
TODO = 'not claimed yet'
NA = {f'P{k:02d}': TODO for k in range(1, 40)}
NA.update({
 'P19': 'That an output is ordered and stable is a relation between all pairs of runtime keys over unbounded lengths; it rests on loop invariants about array contents (merge passes, radix digit counts) that no dataflow or abstract interpretation in reach infers. What is static about it is decided elsewhere: width and offset of each key (P10), clearing of counting tables (P12), whole records being moved by one permutation (P21).',
 'P23': 'The sizes are nonlinear integer formulas over several runtime orders, and the furthest element written is a maximum over nested loops with the same orders; a sound static bound for all of them needs nonlinear inductive invariants. Growth and capacity rules that are affine are claimed with the routines they belong to (P20, P21, P22).',
 'P25': 'Whether a point inside a box meets a cell of its range depends on the rounding of a product of runtime coordinates and scale factors compared with floor and ceiling; no static argument in reach bounds it. That points go to the processes listed in their cell is part of P24.',
 'P30': 'Which entries end up combined is a relation between runtime identifier values on all processes; no static argument in reach bounds it. Its structural parts are claimed separately (P05, P06, P10, P19).',
 'P31': 'Ownership is decided by a global sort of runtime identifiers; global counting over data is out of reach of a static rule.',
 'P32': 'Global delivery for every process count needs an inductive argument over the runtime partition arithmetic of all processes; the per-step structure is claimed as P20 and P04.',
 'P33': 'Convergence and accuracy of a Newton iteration over a continuum of geometries.',
 'P34': 'Inequalities over a continuum of real polynomials including rounding.',
 'P35': 'Rounding behaviour over a continuum of nodes and orders.',
 'P36': 'Measured times are not visible to a static analysis.',
})
