#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <float.h>
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "tensor.h"
#include "gs_defs.h"
#include "gs_local.h"
#include "comm.h"
#include "mem.h"
#include "sort.h"
#include "sarray_sort.h"
#include "crystal.h"
#include "sarray_transfer.h"
#include "gs.h"
#include "poly.h"
#include "lob_bnd.h"
#include "obbox.h"
#include "findpts_el.h"
#include "findpts_local.h"
#include "findpts.h"
/* what types.h promises, as types: violating any line makes this unit fail to compile */
#define SAME(what, a, b) _Static_assert(__builtin_types_compatible_p(a, b), what)
#define FUN(what, f, ...) _Static_assert(__builtin_types_compatible_p(__typeof__(&f), __typeof__(__VA_ARGS__)), what)

SAME("sint is the documented local type", sint, LOCAL_T);
SAME("uint is the documented local type", uint, unsigned LOCAL_T);
SAME("slong is the documented global type", slong, GLOBAL_T);
SAME("ulong is the documented global type", ulong, unsigned GLOBAL_T);
SAME("iabs works at the local width", __typeof__(iabs((sint)0)), sint);
SAME("iabsl works at the global width", __typeof__(iabsl((slong)0)), slong);

/* data type tags */
#define TAGOF(T) _Generic((T)0, int: gs_int, long: gs_long, long long: TAG_LL)
#if defined(GSLIB_USE_LONG_LONG) || defined(GSLIB_USE_GLOBAL_LONG_LONG)
#define TAG_LL gs_long_long
SAME("long_long", long_long, long long);
#else
#define TAG_LL 99
#endif
_Static_assert(gs_sint == TAGOF(sint), "gs_sint is the tag of sint");
_Static_assert(gs_slong == TAGOF(slong), "gs_slong is the tag of slong");
GS_DEFINE_DOM_SIZES()
#define SZ(tag) (gs_dom_size_is_##tag)
_Static_assert(gs_double == 0 && gs_float == 1 && gs_int == 2 && gs_long == 3, "tags are in the documented order");

/* identities exist at the type of the tag */
GS_DEFINE_IDENTITIES()
SAME("identity table of int", __typeof__(gs_identity_int[0]), const int);
SAME("identity table of long", __typeof__(gs_identity_long[0]), const long);
SAME("identity table of float", __typeof__(gs_identity_float[0]), const float);
SAME("identity table of double", __typeof__(gs_identity_double[0]), const double);

/* reductions */
FUN("comm_reduce_sint", comm_reduce_sint, sint (*)(const struct comm *, gs_op, const sint *, uint));
FUN("comm_reduce_slong", comm_reduce_slong, slong (*)(const struct comm *, gs_op, const slong *, uint));
FUN("comm_reduce_int", comm_reduce_int, int (*)(const struct comm *, gs_op, const int *, uint));
FUN("comm_reduce_long", comm_reduce_long, long (*)(const struct comm *, gs_op, const long *, uint));
FUN("comm_reduce_double", comm_reduce_double, double (*)(const struct comm *, gs_op, const double *, uint));
FUN("comm_reduce_float", comm_reduce_float, float (*)(const struct comm *, gs_op, const float *, uint));

/* sorts */
FUN("sortv", sortv, void (*)(uint *, const uint *, uint, unsigned, buffer *));
FUN("sortv_long", sortv_long, void (*)(ulong *, const ulong *, uint, unsigned, buffer *));
FUN("sortp", sortp, uint *(*)(buffer *, int, const uint *, uint, unsigned));
FUN("sortp_long", sortp_long, uint *(*)(buffer *, int, const ulong *, uint, unsigned));
FUN("sortp_double", sortp_double, uint *(*)(buffer *, int, const double *, uint, unsigned));
FUN("sortp_float", sortp_float, uint *(*)(buffer *, int, const float *, uint, unsigned));

/* public entry points take the global type for identifiers and the local one for counts */
FUN("gs_setup", gs_setup, struct gs_data *(*)(const slong *, uint, const struct comm *, int, gs_method, int));
FUN("gs_unique", gs_unique, void (*)(slong *, uint, const struct comm *));
SAME("struct comm ids", __typeof__(((struct comm *)0)->id), uint);
SAME("struct comm np", __typeof__(((struct comm *)0)->np), uint);

/* one field of each width, sorted through the macros: dispatches at that width */
struct rec_ { uint u; ulong l; double d; float f; };
void probe_sorts(struct rec_ *a, uint n, buffer *b);
void probe_sorts(struct rec_ *a, uint n, buffer *b)
{
  sarray_sort(struct rec_, a, n, u, 0, b);
  sarray_sort(struct rec_, a, n, l, 1, b);
  sarray_sort(struct rec_, a, n, f, 2, b);
  sarray_sort(struct rec_, a, n, d, 3, b);
}
/* sizes the tags are transferred with */
void probe_sizes(unsigned *o);
void probe_sizes(unsigned *o)
{
  o[0] = gs_dom_size[gs_double] - sizeof(double);
  o[1] = gs_dom_size[gs_float] - sizeof(float);
  o[2] = gs_dom_size[gs_sint] - sizeof(sint);
  o[3] = gs_dom_size[gs_slong] - sizeof(slong);
  o[4] = gs_dom_size[gs_long] - sizeof(long);
  o[5] = gs_dom_size[gs_int] - sizeof(int);
}
