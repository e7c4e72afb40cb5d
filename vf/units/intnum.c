#include "prelude.h"
#include "intnum_common.h"
#ifndef RA
#define RA 2
#endif
#ifndef RB
#define RB 2
#endif
#ifndef SIGN
#define SIGN 0
#endif
#ifndef OP
#define OP 0
#endif
void h_calc(void)
{
    int r;
    vf_intnum_boot(); MKN0(RA);
#if RB == 3     /* no operand */
    r = yasm_intnum_calc(&n0, OP, 0);
    CHK(P_CALC(r, OP, &n0, 0, (u256)g0, (u256)0), "calc without operand");
#else
    MKN1(RB);
#ifdef MAXCNT
    ASSUME(g1 <= MAXCNT);
#endif
    r = yasm_intnum_calc(&n0, OP, &n1);
    CHK(IV(&n1) == g1, "operand preserved");
    CHK(P_CALC(r, OP, &n0, 1, (u256)g0, (u256)g1), "calc");
#endif
    CANARY;
}

static void vf_mkbuf(void) { vf_nd_bytes(vf_buf, 32); gbuf = BUFV; }
void h_create_uint(void) { vf_intnum_boot(); unsigned long i = ND(unsigned long); yasm_intnum *n = yasm_intnum_create_uint(i);
    CHK(IS_INT(n, (s256)i), "create_uint"); CANARY; }
void h_create_int(void) { vf_intnum_boot(); long i = ND(long); yasm_intnum *n = yasm_intnum_create_int(i);
    CHK(IS_INT(n, (s256)i), "create_int"); CANARY; }
void h_copy(void) { vf_intnum_boot(); MKN0(RA); yasm_intnum *n = yasm_intnum_copy(&n0);
    CHK(n != &n0 && IS_INT(n, g0) && IV(&n0) == g0 && (IS_L(n) || n->val.bv != n0.val.bv), "copy"); CANARY; }
void h_compare(void) { vf_intnum_boot(); MKN0(RA); MKN1(RB); int r = yasm_intnum_compare(&n0, &n1);
    CHK(r == (g0 < g1 ? -1 : g0 > g1 ? 1 : 0), "compare"); CHK(IV(&n0) == g0 && IV(&n1) == g1, "operands preserved"); CANARY; }
void h_zero(void) { vf_intnum_boot(); MKN0(RA); yasm_intnum_zero(&n0); CHK(IS_INT(&n0, (s256)0), "zero"); CANARY; }
void h_set(void) { vf_intnum_boot(); MKN0(RA); MKN1(RB); yasm_intnum_set(&n0, &n1);
    CHK(IS_INT(&n0, g1) && IV(&n1) == g1 && (IS_L(&n0) || n0.val.bv != n1.val.bv), "set"); CANARY; }
void h_set_uint(void) { vf_intnum_boot(); MKN0(RA); unsigned long v = ND(unsigned long); yasm_intnum_set_uint(&n0, v);
    CHK(IS_INT(&n0, (s256)v), "set_uint"); CANARY; }
void h_set_int(void) { vf_intnum_boot(); MKN0(RA); long v = ND(long); yasm_intnum_set_int(&n0, v);
    CHK(IS_INT(&n0, (s256)v), "set_int"); CANARY; }
void h_is_zero(void) { vf_intnum_boot(); MKN0(RA); int r = yasm_intnum_is_zero(&n0); CHK((r != 0) == (g0 == 0), "is_zero"); CANARY; }
void h_is_pos1(void) { vf_intnum_boot(); MKN0(RA); int r = yasm_intnum_is_pos1(&n0); CHK((r != 0) == (g0 == 1), "is_pos1"); CANARY; }
void h_is_neg1(void) { vf_intnum_boot(); MKN0(RA); int r = yasm_intnum_is_neg1(&n0); CHK((r != 0) == (g0 == -1), "is_neg1"); CANARY; }
void h_sign(void) { vf_intnum_boot(); MKN0(RA); int r = yasm_intnum_sign(&n0);
    CHK(r == (g0 == 0 ? 0 : g0 < 0 ? -1 : 1) && IV(&n0) == g0, "sign"); CANARY; }
void h_get_uint(void) { vf_intnum_boot(); MKN0(RA); unsigned long r = yasm_intnum_get_uint(&n0);
    CHK(P_GET_UINT(r, &n0) && IV(&n0) == g0, "get_uint"); CANARY; }
void h_get_int(void) { vf_intnum_boot(); MKN0(RA); long r = yasm_intnum_get_int(&n0);
    CHK(P_GET_INT(r, &n0) && IV(&n0) == g0, "get_int"); CANARY; }
void h_in_range(void) { vf_intnum_boot(); MKN0(RA); long lo = ND(long), hi = ND(long); int r = yasm_intnum_in_range(&n0, lo, hi);
    CHK((r != 0) == (g0 >= lo && g0 <= hi) && IV(&n0) == g0, "in_range"); CANARY; }
void h_check_size(void) { vf_intnum_boot(); MKN0(RA); size_t sz = ND(size_t), rs = ND(size_t); int rt = ND(int), r;
    ASSUME(sz >= 1 && sz < 1000 && rs <= 256 && rt >= 0 && rt <= 2);
#ifdef RSMAX
    ASSUME(rs <= RSMAX);
#endif
#ifdef RSMIN
    ASSUME(rs >= RSMIN);
#endif
    r = yasm_intnum_check_size(&n0, sz, rs, rt);
    CHK((r != 0) == FITS(ASHR(g0, rs), sz, rt) && IV(&n0) == g0, "check_size"); CANARY; }
void h_get_sized(void) { vf_intnum_boot(); MKN0(RA); vf_mkbuf();
    size_t ds = ND(size_t), vs = ND(size_t); int sh = ND(int), w = ND(int);
#ifdef DS
    ASSUME(ds == DS); ds = DS;
#endif
#ifdef SH
    ASSUME(sh == SH); sh = SH;
#endif
#ifdef SHMAX
    ASSUME(sh <= SHMAX);
#endif
#ifdef SHMIN
    ASSUME(sh >= SHMIN);
#endif
    ASSUME(ds >= 1 && ds <= 32 && sh >= -255 && sh <= 255 && vs >= 1 && vs <= 256 && LSH(sh) + vs <= 8 * ds);
    yasm_intnum_get_sized(&n0, vf_buf, ds, vs, sh, 0, w);
    CHK(P_FIELD(vs, sh), "field bits"); CHK((vf_nwarn != 0) == WARNS(vs, sh, w), "range warning"); CHK(IV(&n0) == g0, "value preserved"); CANARY; }
void h_create_sized(void) { vf_intnum_boot(); vf_mkbuf(); int sg = ND_BOOL(); size_t n = ND(size_t); yasm_intnum *r;
    ASSUME(n >= 1 && n <= 32); r = yasm_intnum_create_sized(vf_buf, sg, n, 0);
    CHK(IS_INT(r, LOADED(n, sg)) && vf_nerr == 0, "create_sized"); CANARY; }
void h_get_leb128(void) { vf_intnum_boot(); MKN0(RA); int sg = SIGN; unsigned long n; ASSUME(LEBDOM(g0, sg));
    n = yasm_intnum_get_leb128(&n0, vf_buf, sg); CHK(LEBOK(n, g0, sg), "get_leb128"); CHK(IV(&n0) == g0, "value preserved"); CANARY; }
void h_size_leb128(void) { vf_intnum_boot(); MKN0(RA); int sg = SIGN; unsigned long n; ASSUME(LEBDOM(g0, sg));
    n = yasm_intnum_size_leb128(&n0, sg); CHK(LEBFIT(g0, n, sg), "size_leb128"); CANARY; }
void h_get_sleb(void) { vf_intnum_boot(); long v = ND(long); unsigned long n = yasm_get_sleb128(v, vf_buf); CHK(LEBOK(n, (s256)v, 1), "get_sleb128"); CANARY; }
void h_get_uleb(void) { vf_intnum_boot(); unsigned long v = ND(unsigned long); unsigned long n = yasm_get_uleb128(v, vf_buf); CHK(LEBOK(n, (s256)v, 0), "get_uleb128"); CANARY; }
/* size_* announces exactly the number of bytes get_* writes */
void h_leb_agree(void) { vf_intnum_boot(); MKN0(RA); int sg = SIGN; ASSUME(LEBDOM(g0, sg));
    unsigned long a = yasm_intnum_size_leb128(&n0, sg), b = yasm_intnum_get_leb128(&n0, vf_buf, sg);
    LEMMA(a == b, "size_leb128 == bytes written"); CANARY; }
void h_leb_agree_l(void) { vf_intnum_boot(); long v = ND(long);
    LEMMA(yasm_size_sleb128(v) == yasm_get_sleb128(v, vf_buf), "size_sleb128 == bytes written");
    LEMMA(yasm_size_uleb128((unsigned long)v) == yasm_get_uleb128((unsigned long)v, vf_buf), "size_uleb128 == bytes written"); CANARY; }
