#include "libyasm/bitvect.h"
/* Unsigned multiplication / division of 256-bit values. For the verifier these
 * are uninterpreted; h_mulpos / h_divpos relate them to the bit-level
 * algorithms through instances of their defining recurrences. */
#ifndef VF_REPLAY
u512 __CPROVER_uninterpreted_umul(u256 a, u256 b);
u256 __CPROVER_uninterpreted_udiv(u256 a, u256 b);
u256 __CPROVER_uninterpreted_umod(u256 a, u256 b);
#define UMUL(a,b) ((a) <= (b) ? __CPROVER_uninterpreted_umul((a), (b)) : __CPROVER_uninterpreted_umul((b), (a)))
#define UDIV(a,b) __CPROVER_uninterpreted_udiv((a), (b))
#define UMOD(a,b) __CPROVER_uninterpreted_umod((a), (b))
#else
#define UMUL(a,b) ((u512)(a) * (u512)(b))
static u256 vf_udm(u256 a, u256 b, int m)
{ u256 q = 0, r = 0; int i; for (i = 255; i >= 0; i--) { u512 t = ((u512)r << 1) | ((a >> i) & 1); if (t >= b) { t -= b; q |= (u256)1 << i; } r = (u256)t; } return m ? r : q; }
#define UDIV(a,b) vf_udm((a), (b), 0)
#define UMOD(a,b) vf_udm((a), (b), 1)
#endif
/* signed: truncation toward zero, remainder has the dividend's sign */
#define VF_ABS(x) ((s256)(x) < 0 ? (u256)0 - (x) : (x))
#define VF_NEG(c, x) ((c) ? (u256)0 - (x) : (x))
#define VF_SGN(x) ((s256)(x) < 0)
#define VF_MULOK(a,b) (UMUL(VF_ABS(a), VF_ABS(b)) < ((u512)1 << 255))
#define VF_MUL(a,b) VF_NEG(VF_SGN(a) != VF_SGN(b), (u256)UMUL(VF_ABS(a), VF_ABS(b)))
#define VF_DIV(a,b) VF_NEG(VF_SGN(a) != VF_SGN(b), UDIV(VF_ABS(a), VF_ABS(b)))
#define VF_MOD(a,b) VF_NEG(VF_SGN(a), UMOD(VF_ABS(a), VF_ABS(b)))
#ifdef VF_BV_GHOST
/* ghosts of the multiplication / division loop proofs */
#ifndef VF_REPLAY
u256 gX, gY; u512 gP; u256 gQ;   /* operands, product, quotient at entry */
/* prefix product: sum of gX << i over set bits i < c of the multiplier gY */
u512 __CPROVER_uninterpreted_psum(unsigned c);
/* prefix remainder: (gX >> b) mod gY */
u256 __CPROVER_uninterpreted_prem(unsigned b);
#define PSUM(c) __CPROVER_uninterpreted_psum(c)
#define PREM(b) __CPROVER_uninterpreted_prem(b)
#define GT(b) (((u320)PREM((b) + 1) << 1) | ((gX >> (b)) & 1))
/* facts of integer arithmetic at index c (lim = index of the highest set bit) */
static void vf_ax_mul(unsigned c, unsigned lim)
{
    __CPROVER_assume(PSUM(c + 1) == PSUM(c) + (((gY >> c) & 1) ? (u512)gX << c : (u512)0));
    __CPROVER_assume(c > lim || PSUM(c + 1) <= gP);
    __CPROVER_assume(c >= lim || ((u512)gX << (c + 1)) <= gP);
}
static void vf_ax_div(unsigned b)
{
    __CPROVER_assume(PREM(b) == (u256)(GT(b) >= gY ? GT(b) - gY : GT(b)));
    __CPROVER_assume(((gQ >> b) & 1) == (GT(b) >= gY ? 1 : 0));
    __CPROVER_assume(PREM(b + 1) < gY);
}
#endif
#endif
#ifdef VF_REPLAY
#define vf_ax_mul(c, l) ((void)0)
#define vf_ax_div(b) ((void)0)
#endif
#define V(p) (*(u256 *)(p))
#define ONE ((u256)1)
#include "libyasm/bitvect.c"
/* state established by BitVector_Boot() (proved by h_boot) */
static N_word vf_bitmask[32];
static void vf_boot(void)
{
#ifdef VF_REPLAY
    BitVector_Boot();
#else
    N_word tab[32] = {1u << 0,1u << 1,1u << 2,1u << 3,1u << 4,1u << 5,1u << 6,1u << 7,1u << 8,1u << 9,1u << 10,1u << 11,1u << 12,1u << 13,1u << 14,1u << 15,1u << 16,1u << 17,1u << 18,1u << 19,1u << 20,1u << 21,1u << 22,1u << 23,1u << 24,1u << 25,1u << 26,1u << 27,1u << 28,1u << 29,1u << 30,1u << 31};
    BITS = 32; LSB = 1; LONGBITS = 64; MODMASK = 31; LOGBITS = 5; FACTOR = 2;
    MSB = 0x80000000u; LOG10 = 9; EXP10 = 1000000000;
    memcpy(vf_bitmask, tab, sizeof tab);
    BITMASKTAB = vf_bitmask;
#endif
    vf_ghost_init();
}
#define MK(n) N_word n##_[11]; wordptr n = n##_ + 3; \
    n##_[0] = 256; n##_[1] = 8; n##_[2] = ~0u; \
    n##_[3] = ND(N_word); n##_[4] = ND(N_word); n##_[5] = ND(N_word); n##_[6] = ND(N_word); n##_[7] = ND(N_word); n##_[8] = ND(N_word); n##_[9] = ND(N_word); n##_[10] = ND(N_word);
