#!/usr/bin/env python3
"""writes properties.jsonl (kept as data here so that the lines stay readable)"""
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a=dict(files=['src/'+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech])
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('P01','Every acquired resource is released exactly once',
  'Every heap block and every duplicated communicator that a library call acquires is, on every path through that call, either released before the call returns or becomes part of the object it hands back, and tearing that object down releases each part exactly once. No teardown leaks a part, releases one twice, or releases memory it does not own. This holds for every dimension, exchange method and configuration.',
  ['inputs','histories','configurations'],'all inputs, all exchange methods, 2-D and 3-D, C and Fortran entry points',
  'The tests never check the heap or the number of live communicators; a leak or a double release in a variant they do not build (a method, a dimension, an early return) is invisible.',
  ['gs.c','crystal.c','comm.c','findpts.c','findpts_imp.h','findpts_local.c','findpts_local_imp.h','obbox.c','lob_bnd.c','poly.c','mem.h','sarray_transfer.c','findpts_el_2.c','findpts_el_3.c'],
  [('setup/free pairs','gs_setup/gs_free, crystal_init/crystal_free, findpts_setup_*/findpts_free_*, findpts_local_setup/free, hash_build/free'),('array/buffer ownership','mem.h')])

p('P02','No use of storage that has moved, been released or gone out of scope',
  'A pointer into a growable array or buffer is not used after an operation that may have moved that storage, released memory is not touched again, no address of a local variable outlives the call that owns it (in particular in a handle or in the record of an outstanding non-blocking operation), and messages of an outstanding operation do not use storage that other operations share and may move.',
  ['inputs','histories'],'all inputs that make storage grow or shrink at any point, all histories of outstanding operations',
  'Whether a reallocation moves depends on the allocator and the data volume; the tests run small sizes and no sanitizer, so a stale pointer usually still reads the right bytes.',
  ['mem.h','gs.c','crystal.c','sarray_transfer.c','sarray_sort.c','sort_imp.h','findpts.c','findpts_imp.h','findpts_local_imp.h','findpts_el_2.c','findpts_el_3.c','fcrystal.c'],
  [('array_reserve/buffer_reserve','mem.h'),('re-derivation of row pointers after growth','gs.c shared_ids, crl_work_init, cr_learn; crystal.c; findpts_imp.h')])

p('P03','Every posted message request is waited for, in its own slot, exactly once',
  'For every message pattern the library runs, the number of requests it waits for equals the number it posted, each posted request has a slot of its own that is within the waited range, and neither a received buffer is read nor a sent buffer written between posting and waiting. Reallocating the storage of such a buffer counts as touching it, and the message buffers of one step do not overlap where one of them is received into. A call that is documented as blocking leaves no request outstanding; the non-blocking reduction leaves a request that can be waited for on every path. (At most one operation outstanding per gather-scatter object; the process alone shares nothing.)',
  ['inputs','schedules','configurations'],'all process counts and data distributions, all orders in which messages complete, builds with and without non-blocking collectives',
  'A missing or surplus wait shows only for particular process counts or message timings; the tests run a few process counts on shared memory where eager messages complete at once.',
  ['comm.c','comm.h','crystal.c','gs.c'],
  [('post/wait pairs','gs.c pw_exec*, cr_exec, cr_learn, allreduce_exec*; crystal.c crystal_exchange; comm.c scan_imp/allreduce_imp, comm_iallreduce')])

p('P04','Sends and receives of every exchange match',
  'In every exchange each receive names its source and its tag explicitly, all messages of an exchange travel on the one communicator of its object, and the tag a sender uses is the tag its receiver waits for, so that messages of different neighbours cannot be confused whatever the arrival order; the size sent to a peer is the size that peer was told to expect (the same size on both sides, the size announced to it, or the one at its place of the shared list). In the staged exchanges - crystal router, its recorded form in gather-scatter, scan and the hand-written reduction - the processes of a range split into two adjoining halves, and for every number of processes each message sent in a stage has exactly one receive posted at its target, and each receive one sender. (How the lists of neighbours are built is not part of this property.)',
  ['schedules','inputs'],'all interleavings of message arrivals, all process counts including non-powers of two',
  'A tag or peer mismatch can be masked by arrival order, appears only for particular (often odd) numbers of processes in some stage, and tests use only a few small process counts.',
  ['comm.c','comm.h','crystal.c','gs.c'],
  [('tag discipline','gs.c pw_exec_recvs/sends, cr_exec, cr_learn; crystal.c crystal_exchange/router; comm.c scan_imp, allreduce_imp')])

p('P05','Blocking, split-phase, scalar, vector, multi-field and transposed forms agree',
  'Starting an operation without blocking and then waiting for it performs the same steps on the same data as the blocking form, for every exchange method; and the scalar, vector and multi-field forms perform the same gather, initialisation, exchange and scatter steps and differ only in data layout. The transposed form is the same operation with the roles of the two index maps (and of sender and receiver) exchanged and without the initialisation of flagged entries.',
  ['inputs','programs','configurations'],'all data types, operations, layouts, methods, transposes and inputs, in every build configuration',
  'Tests compare a few combinations of layout, type, operation and method; the product space is large and several methods have no split-phase test.',
  ['gs.c'],[('gs_aux vs gs_aux_irecv/isend/wait','gs.c'),('pw_exec vs pw_exec_irecv/isend/wait','gs.c'),('allreduce_exec vs allreduce_exec_i/wait','gs.c'),('mode tables','gs.c')])

p('P06','Every data type and operation is served by its own exact kernel',
  'For each of the supported data types and each of the operations (sum, product, minimum, maximum, and the identity element used to initialise), every gather, scatter, initialisation and reduction entry point computes with the kernel of exactly that type and operation, with the element size of that type, and the same pair is passed to the message layer as the corresponding message type and reduction, with the caller\'s count. The identity of each operation is the neutral value that the type can represent (zero, one, and the largest and smallest finite values). Each kernel steps through its arrays with the stride of its layout: one element, or the vector length.',
  ['inputs','programs'],'every (type, operation, layout) combination and every value',
  'The dispatch tables have hundreds of (type, operation, entry point) cells; the tests sample a few types and operations with a few values.',
  ['gs_defs.h','gs_local.c','gs_local.h','comm.c','comm.h','gs.c'],
  [('type x operation dispatch','gs_local.c GS_FOR_EACH_DOMAIN/OP switches'),('identities','gs_defs.h'),('comm_type / MPI op mapping','comm.c')])

p('P07','All processes take the same sequence of collective steps',
  'Whether a process takes part in a collective operation (reduction, scan, barrier, broadcast, communicator duplication, a crystal-router transfer) and how often depends only on quantities that are equal on all processes of the communicator, never on its rank, on its share of the data or on timing. The only rank-dependent steps are the pairings inside a collective itself.',
  ['inputs','schedules'],'all distributions of data over processes including empty ones, all process counts',
  'A process-dependent branch around a collective hangs only for the data distribution that triggers it; the tests use balanced inputs.',
  ['comm.c','crystal.c','gs.c','sarray_transfer.c','findpts.c','findpts_imp.h'],
  [('collective call sites','gs.c gs_setup_aux, auto_setup, dry_run_time, shared_ids; findpts_imp.h setup/findptsms/eval; sarray_transfer.c; crystal.c crystal_router')])

p('P08','Set-up leaves no part of an object undefined',
  'After any of the set-up routines returns, every part of the object (the handle itself, the data block of the selected method, the record of an outstanding operation, and what is embedded in them) that a later operation or the teardown reads has been given a value, whichever method, dimension or option was selected; and a routine that is selected through the object is never an undefined one.',
  ['inputs','configurations','histories'],'all methods, dimensions and options, and all later operations on the object',
  'Undefined parts hold whatever the allocator returned, often zero in a fresh process, so tests pass.',
  ['gs.c','crystal.c','comm.h','findpts.c','findpts_imp.h','findpts_local.c','findpts_local_imp.h','findpts_el_2.c','findpts_el_3.c','obbox.c'],
  [('method slots','gs.c pw_setup/cr_setup/allreduce_setup'),('setup routines','findpts.c, findpts_imp.h, findpts_local_imp.h, crystal.c')])

p('P09','Failures stop the program instead of continuing',
  'A failed allocation or reallocation is never used: every allocation result is checked before it reaches its user, and the failure path reports where it happened and does not return. Any detected error (an invalid handle or parameter, unsupported configuration, inconsistent data) that is reported through the failure routine likewise never returns to the caller.',
  ['fault_sequences','inputs'],'failure of any allocation at any point, any invalid argument that is detected',
  'The tests never make an allocation fail.',
  ['mem.h','fail.c','fail.h','comm.c','gs.c','findpts.c','fcrystal.c'],
  [('checked allocation wrappers','mem.h smalloc/scalloc/srealloc'),('fail/die','fail.c')])

p('P10','Global identifiers keep their full width everywhere',
  'A global identifier (64-bit in the default configuration) is never passed through a narrower integer on its way from the caller to a comparison, a sort key, a hash cell, a record sent to another process or the result; it is only ever reduced to a narrower type by a division or remainder that makes it fit.',
  ['inputs'],'all identifier values including those above 2^31 and 2^32',
  'The tests use small identifiers that survive truncation.',
  ['types.h','gs.c','sort.c','sort_imp.h','sarray_sort.c','sarray_sort.h','findpts_imp.h','sarray_transfer.c','fcrystal.c'],
  [('ulong/slong declarations and casts','all of src/'),('long-key sorting flag','sarray_sort.h call sites')])

p('P11','Inputs are not modified',
  'Data that an operation takes as read-only input (identifier lists, point coordinates, element coordinates, nodes, maps, field values, the caller\'s communicator) is never written by the library, directly or through any alias it keeps; an operation writes only to its documented outputs, the scratch storage it is handed and its own object.',
  ['inputs','histories'],'all inputs, and all later operations through a stored alias',
  'Tests look at outputs and seldom re-read inputs.',
  ['gs.c','gs_local.c','comm.c','findpts.c','findpts_imp.h','findpts_local.c','findpts_local_imp.h','findpts_el_2.c','findpts_el_3.c','obbox.c','lob_bnd.c','poly.c','tensor.c','tensor.h'],
  [('const-qualified parameters and const-dropping casts','public headers')])

p('P12','Results depend only on arguments and objects: no hidden shared state',
  'The result of an operation is a function of its arguments and the objects passed to it; the library keeps no other state between calls than its registries of Fortran objects and outstanding operations, shared scratch storage whose old contents are never read, and the process-wide communicator information. In particular an exchange or interpolation does not alter the set-up part of its object, so objects can be reused any number of times and in any order.',
  ['histories'],'all sequences of calls on any number of objects',
  'Tests exercise each object a few times and seldom two objects alternately.',
  ['gs.c','findpts.c','fcrystal.c','fail.c','comm.c','sort_imp.h','findpts_imp.h'],
  [('static data of the library','all of src/'),('writers of set-up fields','gs.c, findpts_imp.h')])

p('P13','All linkable names carry the configured prefix',
  'With any name prefix chosen at build time and any Fortran naming convention, every function and object the library exports carries the prefix (C) or the Fortran prefix (Fortran interface), so that the library can be linked beside another copy of itself or any other code.',
  ['configurations'],'all prefixes and naming conventions',
  'The tests use one prefix and one naming convention.',
  ['name.h','comm.h','crystal.h','gs.h','findpts.h','findpts_local.h','obbox.h','poly.h','lob_bnd.h','tensor.h','sort.h','sarray_sort.h','sarray_transfer.h','fail.h'],
  [('prefix macros','name.h')])

p('P14','Integer-width configurations are consistent across all units',
  'In every supported combination of local and global integer width options the local/global integer types, their signed/unsigned pairs, their print formats, their absolute-value functions, their data-type tags and message types, and their sort and hash entry points all denote the same width, and the library compiles in each.',
  ['configurations'],'all supported integer-width option combinations',
  'Only one combination is ever built by the tests.',
  ['types.h','gs_defs.h','sort.h','comm.c','sort.c'],
  [('width macros','types.h'),('domain mapping','gs_defs.h')])

p('P15','Duplicated declarations of one structure or routine agree',
  'Every structure or routine that is declared in more than one place (public headers, hand-copied declarations and textual instances for two and three dimensions) has the same layout and the same signature in all of them, so objects can be passed between units.',
  ['configurations','programs'],'all translation units and configurations, including client code that includes the public headers in any order',
  'C does not check declarations across units; a layout mismatch corrupts memory only when the drifting part is used.',
  ['crystal.h','gs.h','findpts.h','findpts_local.h','findpts_el.h','obbox.h','lob_bnd.h','findpts.c','findpts_local.c','findpts_imp.h','findpts_local_imp.h'],
  [('headers vs definitions','all headers')])

p('P16','Fortran handles and parameters are validated before use',
  'Every Fortran-callable routine that takes an object handle rejects, by stopping the program, a handle that is out of range or already released before it uses the object, and those that take a data-type or operation code reject codes out of range before using them. Set-up stores the new object under the number it returns and makes room for it first, and release makes the handle invalid.',
  ['inputs','histories'],'all handle values and parameter codes, all set-up/release sequences',
  'Tests pass valid handles only.',
  ['gs.c','findpts.c','fcrystal.c'],
  [('handle checks','gs.c fgs_check_handle/fgs_check_parms; findpts.c CHECK_HANDLE; fcrystal.c check_handle')])

p('P17','The Fortran interface forwards the same operation',
  'Each Fortran-callable routine performs the corresponding C operation with the caller\'s arguments in the right places: counts, strides (scaled by the size of the element type they refer to), dimension, option and code translations (one-based codes to internal ones) and output arguments. The number of records a transfer reports is stored in the caller\'s variable.',
  ['inputs','programs'],'all argument values',
  'A few Fortran tests exist for a part of the routines, with unit strides and default options.',
  ['gs.c','findpts.c','fcrystal.c'],[('wrappers','gs.c fgs*/figs*; findpts.c ffindpts*; fcrystal.c fcrystal*')])

p('P18','Every operation terminates',
  'Every loop of the library runs a finite number of times for every input: it is bounded by a count fixed on entry, walks a finite list towards an end it cannot step over, halves or strictly shrinks a remaining amount, or is an iteration with an explicit limit; no routine calls itself. Not included: the two Newton iterations for the quadrature nodes, which end on floating-point convergence, and the active-set step of the constrained minimisation inside the point search, which ends when its set of constraints repeats.',
  ['inputs'],'all inputs, including empty, degenerate and non-converging ones',
  'An endless loop needs a particular input (an empty list, one process, a non-convergent point).',
  ['gs.c','gs_local.c','sort_imp.h','crystal.c','comm.c','sarray_transfer.c','findpts_el_2.c','findpts_el_3.c','findpts_imp.h','findpts_local_imp.h','obbox.c','lob_bnd.c','poly.c'],
  [('loop variants','all loops'),('iteration limit of the point search','findpts_el_2.c, findpts_el_3.c')])

p('P19','Sorting orders by the requested keys, and stably',
  'Sorting records by one or several keys orders them by exactly those fields, the first key being the most significant, with each field compared at its own width, keeps records with equal keys in their original order, and moves whole records. Both internal methods (for short and long lists) obey the same comparison.',
  ['inputs'],'all record layouts used in the library, all key combinations, all lengths around and beyond the switch between methods',
  'Tests sort random data for a few layouts; a lost tie order, a key of the wrong width or a wrong key offset shows only with particular keys.',
  ['sort_imp.h','sort.c','sarray_sort.c','sarray_sort.h','gs.c','findpts_imp.h'],
  [('merge and radix sort','sort_imp.h'),('field offsets and widths','sarray_sort.h'),('key order','sarray_sort.c')])

p('P20','The crystal router keeps every message intact while forwarding',
  'While data is routed (crystal_router), each message travels as one record consisting of its destination, its source, its length and that many words. In every round the scan of the stream starts at its first word, goes on by exactly one whole record per step and stops behind the last word; a record goes to the half of the processes its destination belongs to, by comparing its destination with the cut of that round and nothing else: a process keeps records for its own half and sends the others; each record is copied whole, exactly once, with a copy that allows for overlap where source and target may overlap, into space that is large enough. What is announced and sent is everything on the outgoing side; what arrives is placed behind what was kept, one message after the other, each with the length announced by the process it comes from, after making room for all of it; and the number of words afterwards is what was kept plus what arrived.',
  ['inputs','schedules'],'all process counts, destinations and message lengths including zero',
  'Tests use small fixed messages on a few processes.',
  ['crystal.c','crystal.h'],[('record walk and split','crystal.c crystal_move'),('exchange and buffer growth','crystal.c crystal_exchange')])

p('P21','Record transfer packs and unpacks the same fields, within the space there is',
  'When arrays of records are transferred (sarray_transfer_many and the routines built on it), each record of each array is taken in the order of the processes, once, and the receiver stores exactly what the sender packed: every byte of the record from the same place in the row it was packed into, except the process number kept inside a record, which on arrival is the sender if the caller asked for that and its own (the destination) otherwise; nothing is replaced when process numbers are given separately. Messages carry their target, this process as source and their true length. The stream is large enough for what is packed, arrays are grown to hold all that is received, and with fixed capacity no more is stored in any array than the least capacity of the arrays given, while the number returned is still that of all records that arrived and the arrays are told how many they hold.',
  ['inputs'],'all record sizes, process-field positions, numbers of arrays, counts and capacities',
  'Tests do not exceed a fixed capacity and use one or two record layouts.',
  ['sarray_transfer.c','sarray_transfer.h','fcrystal.c'],
  [('pack/unpack','sarray_transfer.c pack_int/pack_ext/pack_more/unpack_int/unpack_more'),('counts and capacity','sarray_transfer.c num_rows/cap_rows/sarray_transfer_many')])

p('P22','Quadrature nodes, weights and basis polynomials are the exact ones',
  'The tabulated Gauss-Lobatto-Legendre nodes agree with the roots of the defining Legendre polynomials to full double precision; all Gauss and Gauss-Lobatto nodes and weights computed for up to 28 points agree with them to at least 12 digits, increase strictly, are symmetric, and exactly the requested number of entries is stored. For every number of points the evaluation routine that the set-up selects is, in exact arithmetic, the Lagrange basis of exactly those nodes (zero at every other node, one at its own) together with its true first and second derivatives, writes exactly the entries of the requested order of derivative, and stays within the advertised size of its data array; the same holds of the basis set up for arbitrary given nodes.',
  ['inputs'],'2 to 28 points for nodes and weights, 2 to 25 for the basis at quadrature nodes, 2 to 7 arbitrary nodes; derivative orders 0 to 2',
  'Tests compare a subset of orders to loose tolerances.',
  ['poly_imp.h','poly.c'],[('tables','poly_imp.h'),('selection, formulas','poly.c')])

p('P23','Work arrays are as large as what is written to them',
  'Every scratch array that the library sizes itself, or whose required size it documents for the caller, is at least as large as the furthest element any routine writes to it, for all orders and dimensions.',
  ['inputs'],'all polynomial orders, dimensions and option values',
  'An overrun of a few elements usually lands in allocator slack and passes unnoticed for the orders tested.',
  ['obbox.c','lob_bnd.c','lob_bnd.h','poly.c','tensor.c','tensor.h','findpts_el_2.c','findpts_el_3.c','findpts_local_imp.h'],
  [('size formulas','lob_bnd.h, poly.h, obbox.c, findpts_el_*.c')])

p('P24','Every point receives a complete answer',
  'A search first marks every point "not found" and then writes, whenever it reports a point as found or on the boundary, its status, process, element, reference coordinates and distance together and all from the same candidate (its own result or that of one other process); the answer is replaced, as a whole, exactly when there was none, when the candidate is interior, or when it is nearer, and never when the answer is already interior (with several sessions the same holds of the best candidate of each session). Points without an interior answer are offered, with their own coordinates and number, to every process listed in their hash cell except the one they are from, and the answers go back to that process and to that point. Evaluation takes all points that were found and no others, sends each with its own element and reference coordinates to the process named in its answer, and writes for each its own value at the caller\'s stride.',
  ['inputs'],'all points, strides and candidate orders',
  'Tests look at aggregate errors for points that are inside.',
  ['findpts_imp.h','findpts_local_imp.h','findpts.c','findpts_local.c'],
  [('candidate replacement','findpts_local_imp.h, findpts_imp.h')])

p('P25','Hash cell ranges are consistent between building and looking up',
  'A point and the box of an element that contains it are mapped to hash cells by the same cell formula; looking up a point probes a cell within the table bounds, the two passes that count and fill the table visit the same cells, and in the distributed table the owner of a cell is computed the same way when cells are inserted and when points are looked up.',
  ['inputs'],'all point positions including outside the domain, mesh extents, hash sizes and process counts',
  'A mismatch loses only points in particular cells.',
  ['findpts_local_imp.h','findpts_imp.h'],[('hash_index/hash_range','findpts_local_imp.h, findpts_imp.h')])

p('P27','Results do not depend on time, addresses or message arrival order',
  'No value computed or communicated by the library (other than the printed timings and the choice of the fastest exchange method) depends on clocks, random numbers, memory addresses, environment variables or the order in which messages arrive; the choice of method is made from data all processes agree on.',
  ['schedules','histories'],'all schedules and repeated runs',
  'Nondeterminism shows up only across many runs.',
  ['comm.c','gs.c','crystal.c','sort_imp.h','findpts_imp.h'],
  [('receives name their source','comm.h, crystal.c, gs.c'),('agreed timing choice','gs.c dry_run_time/auto_setup')])

p('P30','A gather-scatter combines exactly the entries with the same identifier',
  'After an exchange every entry holds the reduction over all entries on all processes that carry the same identifier (flagged entries contribute nothing), and entries with identifier zero are untouched.',
  ['inputs','schedules'],'all identifier assignments over all processes','Tests use a handful of structured identifier patterns.',
  ['gs.c','gs_local.c'],[('maps','gs.c')])
p('P31','Making identifiers unique leaves exactly one owner',
  'After unique numbering is requested exactly one entry over all processes keeps each identifier positive and all its other copies are flagged.',
  ['inputs'],'all identifier assignments','Tests use a few patterns.',['gs.c'],[('ownership choice','gs.c make_topology_unique')])
p('P32','Crystal router delivers every message to its destination',
  'Every message handed to the router arrives at its destination process exactly once, with its source recorded, for every number of processes.',
  ['inputs','schedules'],'all process counts and message patterns','Tests run small process counts.',['crystal.c'],[('router','crystal.c')])
p('P33','Point search finds the right element and converges',
  'For a point inside the mesh the search returns an element containing it with reference coordinates accurate to the tolerance, and for a point outside it reports so.',
  ['inputs'],'all meshes and points','Numerical behaviour over a continuum of geometries.',['findpts_el_2.c','findpts_el_3.c','findpts_local_imp.h'],[('Newton iteration','findpts_el_*.c')])
p('P34','Bounds and boxes enclose the geometry',
  'The computed lower and upper bounds enclose the polynomial everywhere and bounding boxes contain their element.',
  ['inputs'],'all polynomials and element geometries','Continuum of inputs.',['lob_bnd.c','obbox.c'],[('bounds','lob_bnd.c')])
p('P35','Interpolation reproduces polynomials',
  'Interpolation and differentiation matrices are exact for polynomials of the supported degree up to rounding.',
  ['inputs'],'all orders and nodes','Rounding behaviour.',['poly.c','tensor.c'],[('Lagrange basis','poly.c')])
p('P36','Automatic method choice picks the fastest method',
  'The automatic set-up uses the exchange method with the smallest maximum measured time.',
  ['schedules'],'all timings','Timing.',['gs.c'],[('auto_setup','gs.c')])
with open(H+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,x['title']
