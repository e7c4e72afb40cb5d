#include "prelude.h"
#define VF_BV_GHOST 1
#include "bitvect_common.h"
#include "bitvect_spec.h"
#ifndef AL
#define AL 0
#endif
#ifndef MINUS
#define MINUS 0
#endif
/* AL: aliasing pattern of the operands */

void h_empty(void) { vf_boot(); MK(x); BitVector_Empty(x); CHK(V(x) == 0, "Empty"); CANARY; }
void h_copy(void) { vf_boot(); MK(x); MK(y); wordptr Y = AL ? x : y; u256 o = V(Y);
    BitVector_Copy(x, Y); CHK(V(x) == o, "Copy"); CANARY; }
void h_is_empty(void) { vf_boot(); MK(x); u256 o = V(x); int r = BitVector_is_empty(x);
    CHK((r != 0) == (o == 0) && V(x) == o, "is_empty"); CANARY; }
void h_equal(void) { vf_boot(); MK(x); MK(y); wordptr Y = AL ? x : y; int r = BitVector_equal(x, Y);
    CHK((r != 0) == (V(x) == V(Y)), "equal"); CANARY; }
void h_compare(void) { vf_boot(); MK(x); MK(y); wordptr Y = AL ? x : y; int r = BitVector_Compare(x, Y);
    CHK(P_Compare(r, V(x), V(Y)), "Compare"); CANARY; }
void h_sign(void) { vf_boot(); MK(x); u256 o = V(x); int r = BitVector_Sign(x);
    CHK(V(x) == o && r == (o == 0 ? 0 : SG(o) < 0 ? -1 : 1), "Sign"); CANARY; }
void h_lsb(void) { vf_boot(); MK(x); u256 o = V(x); boolean b = (boolean)ND_BOOL(); BitVector_LSB(x, b);
    CHK(V(x) == ((o & ~ONE) | (b ? ONE : (u256)0)), "LSB"); CANARY; }
void h_msb(void) { vf_boot(); MK(x); int r = BitVector_msb_(x); CHK((r != 0) == (SG(V(x)) < 0), "msb"); CANARY; }
void h_shl(void) { vf_boot(); MK(x); u256 o = V(x); boolean c = (boolean)ND_BOOL(); int r = BitVector_shift_left(x, c);
    CHK(V(x) == ((o << 1) | (c ? ONE : (u256)0)) && (r != 0) == (SG(o) < 0), "shift_left"); CANARY; }
void h_shr(void) { vf_boot(); MK(x); u256 o = V(x); boolean c = (boolean)ND_BOOL(); int r = BitVector_shift_right(x, c);
    CHK(V(x) == ((o >> 1) | (c ? ONE << 255 : (u256)0)) && (r != 0) == ((o & ONE) != 0), "shift_right"); CANARY; }
void h_movl(void) { vf_boot(); MK(x); u256 o = V(x); N_int n = ND(N_int); BitVector_Move_Left(x, n);
    CHK(V(x) == (n >= 256 ? (u256)0 : o << n), "Move_Left"); CANARY; }
#define AY (AL == 1 || AL == 3 ? x : y)
#define AZ (AL == 2 || AL == 3 ? x : AL == 4 ? y : z)
void h_compute(void) { vf_boot(); MK(x); MK(y); MK(z); boolean c = (boolean)ND_BOOL(); boolean c0 = c;
    wordptr Y = AY, Z = AL == 5 ? 0 : AZ; u256 oy = V(Y), oz = Z ? V(Z) : (u256)0;
    BitVector_compute(x, Y, Z, MINUS, &c);
    CHK(V(x) == (MINUS ? oy - oz - (c0 ? ONE : (u256)0) : oy + oz + (c0 ? ONE : (u256)0)), "compute"); CANARY; }
void h_add(void) { vf_boot(); MK(x); MK(y); MK(z); boolean c = 0; u256 oy = V(y), oz = V(z);
    BitVector_add(x, y, z, &c); CHK(V(x) == oy + oz, "add"); CANARY; }
void h_sub(void) { vf_boot(); MK(x); MK(y); MK(z); boolean c = 0; u256 oy = V(y), oz = V(z);
    BitVector_sub(x, y, z, &c); CHK(V(x) == oy - oz, "sub"); CANARY; }
void h_inc(void) { vf_boot(); MK(x); MK(y); wordptr Y = AL ? x : y; u256 o = V(Y);
    BitVector_inc(x, Y); CHK(V(x) == o + ONE, "inc"); CANARY; }
void h_dec(void) { vf_boot(); MK(x); MK(y); wordptr Y = AL ? x : y; u256 o = V(Y);
    BitVector_dec(x, Y); CHK(V(x) == o - ONE, "dec"); CANARY; }
void h_negate(void) { vf_boot(); MK(x); MK(y); wordptr Y = AL ? x : y; u256 o = V(Y);
    BitVector_Negate(x, Y); CHK(V(x) == (u256)0 - o, "Negate"); CANARY; }
void h_union(void) { vf_boot(); MK(x); MK(y); MK(z); wordptr Y = AY, Z = AZ; u256 a = V(Y), b = V(Z);
    Set_Union(x, Y, Z); CHK(V(x) == (a | b), "Union"); CANARY; }
void h_inter(void) { vf_boot(); MK(x); MK(y); MK(z); wordptr Y = AY, Z = AZ; u256 a = V(Y), b = V(Z);
    Set_Intersection(x, Y, Z); CHK(V(x) == (a & b), "Intersection"); CANARY; }
void h_xor(void) { vf_boot(); MK(x); MK(y); MK(z); wordptr Y = AY, Z = AZ; u256 a = V(Y), b = V(Z);
    Set_ExclusiveOr(x, Y, Z); CHK(V(x) == (a ^ b), "ExclusiveOr"); CANARY; }
void h_compl(void) { vf_boot(); MK(x); MK(y); wordptr Y = AL ? x : y; u256 o = V(Y);
    Set_Complement(x, Y); CHK(V(x) == ~o, "Complement"); CANARY; }
void h_max32(void) { vf_boot(); MK(x); x[-3] = 32; x[-2] = 1; long r = Set_Max(x);
    CHK(x[0] == 0 ? r == LONG_MIN : (r >= 0 && r <= 31 && (x[0] >> (unsigned)r) == 1), "Set_Max"); CANARY; }
static unsigned char vf_bb[32];
void h_block_store(void) { vf_boot(); MK(x); vf_nd_bytes(vf_bb, 32); N_int n = ND(N_int); ASSUME(n <= 32); BitVector_Block_Store(x, vf_bb, n);
    CHK(V(x) == (*(u256 *)vf_bb & LOWMASK(8 * n)), "Block_Store"); CANARY; }
void h_block_read(void) { vf_boot(); MK(x); u256 o = V(x); N_int n; unsigned char *r = BitVector_Block_Read(x, &n);
    CHK(n == 32 && *(u256 *)r == o && V(x) == o && r[32] == 0, "Block_Read"); CANARY; }
void h_max(void) { vf_boot(); MK(x); long r = Set_Max(x);
    CHK(V(x) == 0 ? r == LONG_MIN : (r >= 0 && r <= 255 && (V(x) >> (unsigned)r) == ONE), "Set_Max"); CANARY; }
void h_chunk_store(void) { vf_boot(); MK(x); u256 o = V(x); N_int cs = ND(N_int), off = ND(N_int); N_long v = ND(N_long);
    ASSUME(cs <= 64); BitVector_Chunk_Store(x, cs, off, v);
    CHK(V(x) == (off >= 256 ? o : (o & ~(LOWMASK(cs) << off)) | (((u256)v & LOWMASK(cs)) << off)), "Chunk_Store"); CANARY; }
void h_chunk_read(void) { vf_boot(); MK(x); N_int cs = ND(N_int), off = ND(N_int);
    ASSUME(cs <= 64); N_long r = BitVector_Chunk_Read(x, cs, off);
    CHK(r == (N_long)(off >= 256 ? (u256)0 : (V(x) >> off) & LOWMASK(cs)), "Chunk_Read"); CANARY; }
void h_fill(void) { vf_boot(); MK(x); u256 o = V(x); N_int lo = ND(N_int), hi = ND(N_int);
    ASSUME(lo <= hi && hi < 256); BitVector_Interval_Fill(x, lo, hi);
    CHK(V(x) == (o | (LOWMASK(hi - lo + 1) << lo)), "Interval_Fill"); CANARY; }
void h_icopy(void) { vf_boot(); MK(x); MK(y); u256 o = V(x), oy = V(y); N_int xo = ND(N_int), yo = ND(N_int), n = ND(N_int), m;
    ASSUME(xo < 256 && yo == 0 && n <= 256);
#ifdef XO
    ASSUME(xo == XO); xo = XO;
#endif
#ifdef NW
    ASSUME(n >= NW*32+1 && n <= NW*32+32);
#endif
#ifdef XW
    ASSUME(xo / 32 == XW);
#endif
    BitVector_Interval_Copy(x, y, xo, yo, n);
    m = n > 256 - yo ? 256 - yo : n;
    CHK(V(x) == ((o & ~(LOWMASK(m) << xo)) | (((oy >> yo) & LOWMASK(m)) << xo)), "Interval_Copy"); CANARY; }

void h_mulpos(void)
{
    vf_boot(); MK(x); MK(y); MK(z);
    boolean strict = (boolean)ND_BOOL(); ErrCode r; u256 oy; u256 oz;
#ifdef Z32
    z[-3] = 32; z[-2] = 1;
#endif
#ifdef SMALLZ
    ASSUME(ZV(z) < 16 || (ZV(z) & (ZV(z) - 1)) == 0); ASSUME(ZV(z) < 64);
#endif
    oy = V(y); oz = ZV(z);
    ASSUME(!strict || oy < (ONE << 255));
#if defined(GHOST) && !defined(VF_REPLAY)
    gX = oy; gY = oz; gP = UMUL(oy, oz);
    ASSUME(oz == 0 || oy == 0 ? gP == 0 : gP >= oy);
    ASSUME(PSUM(0) == 0);
    { unsigned lim = ND(unsigned); ASSUME(lim < 256 && (oz == 0 || (oz >> lim) == 1)); ASSUME(oz == 0 || gP == PSUM(lim + 1)); }
#elif defined(SMALLZ) && !defined(VF_REPLAY)
    { u512 p = 0; int i; for (i = 0; i < 6; i++) if ((oz >> i) & 1) p += (u512)oy << i; ASSUME(UMUL(oy, oz) == p); }
#endif
    r = BitVector_Mul_Pos(x, y, z, strict);
    CHK((r == ErrCode_Ok) == (UMUL(oy, oz) < MULBOUND(strict)), "Mul_Pos error");
    CHK(r != ErrCode_Ok || V(x) == (u256)UMUL(oy, oz), "Mul_Pos");
    CANARY;
}
void h_divpos(void)
{
    vf_boot(); MK(q); MK(x); MK(y); MK(r); u256 ox = V(x), oy = V(y); ErrCode e;
    ASSUME(oy != 0 && oy <= (ONE << 255));
#if defined(SMALLX)
    ASSUME((ox >> 4) == 0 && (oy >> 4) == 0);
#endif
#if defined(GHOST) && !defined(VF_REPLAY)
    gX = ox; gY = oy; gQ = UDIV(ox, oy);
    ASSUME(gQ <= ox);
    ASSUME(PREM(0) == UMOD(ox, oy));
    ASSUME(ox != 0 || PREM(0) == 0);
    { unsigned lim = ND(unsigned); ASSUME(lim < 256 && (ox == 0 || (ox >> lim) == 1)); ASSUME(ox == 0 || PREM(lim + 1) == 0); }
#elif defined(SMALLX) && !defined(VF_REPLAY)
    ASSUME(UDIV(ox, oy) == (u256)((unsigned)ox / (unsigned)oy) && UMOD(ox, oy) == (u256)((unsigned)ox % (unsigned)oy));
#endif
    e = BitVector_Div_Pos(q, x, y, r);
    CHK(e == ErrCode_Ok && V(y) == oy && V(q) == UDIV(ox, oy) && V(r) == UMOD(ox, oy), "Div_Pos");
    CANARY;
}
void h_multiply(void)
{
    vf_boot(); MK(x); MK(y); MK(z); u256 oy = V(y), oz = V(z);
#ifndef VF_REPLAY       /* multiplication by 0 and by a factor >= 1 */
    { u256 a = VF_ABS(oy), b = VF_ABS(oz); u512 m = UMUL(a, b);
      ASSUME(a == 0 || b == 0 ? m == 0 : (m >= a && m >= b)); }
#endif
    BitVector_Multiply(x, y, z);
    CHK(!VF_MULOK(oy, oz) || V(x) == VF_MUL(oy, oz), "Multiply"); CHK(V(y) == oy && V(z) == oz, "operands");
    CANARY;
}
void h_divide(void)
{
    vf_boot(); MK(q); MK(x); MK(y); MK(r); u256 ox = V(x), oy = V(y);
    ASSUME(oy != 0);
#ifndef VF_REPLAY       /* 0 / y */
    ASSUME(ox != 0 || (UDIV((u256)0, VF_ABS(oy)) == 0 && UMOD((u256)0, VF_ABS(oy)) == 0));
#endif
    BitVector_Divide(q, x, y, r);
    CHK(V(q) == VF_DIV(ox, oy) && V(r) == VF_MOD(ox, oy), "Divide"); CHK(V(x) == ox && V(y) == oy, "operands");
    CANARY;
}
