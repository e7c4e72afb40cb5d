/* Common prelude of all verification units.
 *
 * A unit #includes this file, then the *unmodified* source files of yasm
 * from $VF_REPO, then re-declares the functions under contract with
 * __CPROVER_requires / ensures / assigns clauses, and then defines one harness
 * per proof obligation group (the harness only builds the universe of
 * inputs; the deciding obligation is the enforced contract).
 *
 * The same unit compiles natively (clang, -DVF_REPLAY) for replaying verifier
 * counterexamples against the real code: contracts vanish and the CHK()
 * checks after the call become run-time checks.
 */
#ifndef VF_PRELUDE_H
#define VF_PRELUDE_H

#ifndef HAVE_CONFIG_H
#define HAVE_CONFIG_H 1
#endif
#ifndef __NO_CTYPE
#define __NO_CTYPE 1
#endif
#include "util.h"
#include <limits.h>
#include <ctype.h>
#include <stdint.h>
#include "libyasm/coretype.h"
#include "libyasm/errwarn.h"

/* ---- allocation: never fails (yasm_xmalloc exits the process instead) ---- */
#undef yasm_xmalloc
#undef yasm_xfree
#undef yasm_xcalloc
#undef yasm_xrealloc
#define yasm_xmalloc(n) vf_malloc(n)
#define yasm_xfree(p) ((void)(p))   /* leaks and frees are not modelled */
#define yasm_xcalloc(a,b) vf_calloc((a), (b))
#define yasm_xrealloc(p,n) vf_realloc((p), (n))

#ifndef VF_REPLAY
/* ---------------------------------------------------------- verifier ---- */
typedef unsigned __CPROVER_bitvector[256] u256;
typedef signed   __CPROVER_bitvector[256] s256;
typedef unsigned __CPROVER_bitvector[320] u320;
typedef unsigned __CPROVER_bitvector[512] u512;
typedef signed   __CPROVER_bitvector[512] s512;
typedef unsigned __CPROVER_bitvector[128] u128;

#define REQ(x)  __CPROVER_requires(x)
#define ENS(x)  __CPROVER_ensures(x)
#define ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define FRE(...) __CPROVER_frees(__VA_ARGS__)
#define OLD(x)  __CPROVER_old(x)
#define RET     __CPROVER_return_value
#define UPTO(p,n) __CPROVER_object_upto((p),(n))
#define WHOLE(p) __CPROVER_object_whole(p)

unsigned long nondet_vf_ulong(void);
unsigned long vf_log;
static unsigned long vf_nd(void)
{
    vf_log = nondet_vf_ulong();
    return vf_log;
}
#define ASSUME(x) __CPROVER_assume(x)
#define CHK(x, name)                    /* decided by the contract */
#define LEMMA(x, name) __CPROVER_assert((x), "lemma: " name)
#ifdef VF_CANARY
#define CANARY __CPROVER_assert(0, "vf_canary")
#else
#define CANARY ((void)0)
#endif
#define VF_INTERNAL() do { __CPROVER_assert(0, "internal error unreachable"); __CPROVER_assume(0); } while (0)

#else
/* ------------------------------------------------------------ replay ---- */
typedef unsigned _BitInt(256) u256;
typedef signed   _BitInt(256) s256;
typedef unsigned _BitInt(320) u320;
typedef unsigned _BitInt(512) u512;
typedef signed   _BitInt(512) s512;
typedef unsigned _BitInt(128) u128;
#define REQ(x)
#define ENS(x)
#define ASG(...)
#define FRE(...)
#define __CPROVER_loop_invariant(...)
#define __CPROVER_assigns(...)
#define __CPROVER_decreases(...)
unsigned long vf_nd(void);
void vf_assume(int ok, const char *what);
void vf_check(int ok, const char *what);
#define ASSUME(x) vf_assume(!!(x), #x)
#define CHK(x, name) vf_check(!!(x), name)
#define LEMMA(x, name) vf_check(!!(x), name)
#define CANARY
#define VF_INTERNAL() vf_check(0, "internal error reached")
#endif

static void *vf_malloc(size_t n) { void *p = malloc(n); ASSUME(p != 0); return p; }
static void *vf_calloc(size_t a, size_t b) { void *p = calloc(a, b); ASSUME(p != 0); return p; }
static void *vf_realloc(void *o, size_t n) { void *p = realloc(o, n); ASSUME(p != 0); return p; }
#define ND(type) ((type)vf_nd())
#define ND_BOOL() ((int)(vf_nd() & 1))
static void vf_nd_bytes(void *p, size_t n)
{
    unsigned char *c = (unsigned char *)p;
    size_t i;
    for (i = 0; i < n; i++)
        c[i] = (unsigned char)vf_nd();
}

/* ---- error / warning reporting: ghost state instead of the real list ---- */
yasm_error_class yasm_eclass;   /* class of the error set (0 = none) */
#define vf_err yasm_eclass
unsigned vf_nerr;       /* number of errors set */
unsigned vf_nwarn;      /* number of warnings set */
unsigned vf_warn;       /* class of the last warning */
#define VF_GHOST vf_err, vf_nerr, vf_nwarn, vf_warn

#ifndef VF_REAL_ERRWARN
/* the message text is dropped; class and count are kept */
static void vf_error_set(yasm_error_class c) { if (!vf_err) vf_err = c; vf_nerr++; }
static void vf_warn_set(yasm_warn_class c) { vf_warn = c; vf_nwarn++; }
#define yasm_error_set(c, ...) vf_error_set(c)
#define yasm_error_set_va(c, ...) vf_error_set(c)
#define yasm_warn_set(c, ...) vf_warn_set(c)
#define yasm_warn_set_va(c, ...) vf_warn_set(c)
#define yasm_error_set_xref(l, ...) ((void)(l))
yasm_warn_class yasm_warn_occurred(void) { return (yasm_warn_class)vf_warn; }
void yasm_error_clear(void) { vf_err = 0; }
void yasm_warn_clear(void) { vf_warn = 0; }
#undef yasm_internal_error
#define yasm_internal_error(m) VF_INTERNAL()
void yasm__fatal(const char *m, ...) { ASSUME(0); }
#endif
static void vf_ghost_init(void) { vf_err = 0; vf_nerr = 0; vf_nwarn = 0; vf_warn = 0; }

#endif
