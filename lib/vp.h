/* primitives shared by every harness.  A harness is one C program that is
 * - compiled to LLVM bitcode with the real sources and executed symbolically
 *   by engine/symx (VP_SYM defined): every vp_int() is a fresh symbolic value
 *   and every VP_ASSERT a proof obligation discharged by the solver;
 * - compiled natively with sanitizers and replayed on the inputs the solver
 *   found: the same inputs are read, in order, from the file $VP_INPUT. */
#pragma once
#include <stddef.h>

int vp_int(int lo, int hi);          /* arbitrary value in [lo, hi] */
void vp_assume_(int c);
void vp_assert_(int c, const char *msg);
void vp_witness_(int c, const char *msg);
void vp_bound_(int c, const char *msg);
long vp_conc_(long v);               /* the same value, explored one by one */
extern int vp_case;                  /* which part of a split harness */
extern int vp_deep;                  /* 1 in the thorough tier */

#define VP_ASSUME(c)       vp_assume_(!!(c))
#define VP_ASSERT(c, msg)  vp_assert_(!!(c), msg)
#define VP_FAIL(msg)       vp_assert_(0, msg)
/* reachability witness: some execution must satisfy it (vacuity guard); its
 * inputs are replayed against the real build too. */
#define VP_WITNESS(c, msg) vp_witness_(!!(c), msg)
/* the harness's own bounds (e.g. the event log's size) */
#define VP_BOUND(c, msg)   vp_bound_(!!(c), msg)

#define vp_bool()   vp_int(0, 1)
#define vp_byte()   ((unsigned char)vp_int(0, 255))
#define vp_pick(lo, hi) ((int)vp_conc_(vp_int(lo, hi)))

/* a string of at most max arbitrary non-NUL bytes; buf has room for max+1 */
static inline void vp_str(char *buf, int max)
{
    int i, len = vp_pick(0, max);
    for (i = 0; i < len; i++) buf[i] = (char)vp_int(1, 255);
    for (; i <= max; i++) buf[i] = 0;
}
void harness(void);
