/* Contracts of the bit-vector primitives, at the width yasm's integers use
 * (256 bits).  Used in two ways: enforced on the real bodies by the bitvect
 * unit, and replacing the calls in the units above it. */
#ifndef BITVECT_SPEC_H
#define BITVECT_SPEC_H

#define WF(p) ((p) != 0 && (p)[-3] == 256 && (p)[-2] == 8 && (p)[-1] == 0xffffffffu)
#define ISB(b) ((b) == 0 || (b) == 1)
#define SG(x) ((s256)(x))

void BitVector_Empty(wordptr addr)
REQ(WF(addr)) ASG(UPTO(addr, 32))
ENS(V(addr) == 0);

static void BIT_VECTOR_cpy_words(wordptr target, wordptr source, N_word count)
REQ(count == 8 && target != 0 && source != 0) ASG(UPTO(target, 32))
ENS(V(target) == OLD(V(source)));

void BitVector_Copy(wordptr X, wordptr Y)
REQ(WF(X) && WF(Y)) ASG(UPTO(X, 32), UPTO(Y, 32))
ENS(V(X) == OLD(V(Y)) && V(Y) == OLD(V(Y)));

boolean BitVector_is_empty(wordptr addr)
REQ(WF(addr)) ASG(UPTO(addr, 32))
ENS(V(addr) == OLD(V(addr))) ENS(ISB(RET)) ENS((RET != 0) == (V(addr) == 0));

boolean BitVector_equal(wordptr X, wordptr Y)
REQ(WF(X) && WF(Y)) ASG(UPTO(X, 32), UPTO(Y, 32))
ENS(V(X) == OLD(V(X)) && V(Y) == OLD(V(Y)))
ENS(ISB(RET)) ENS((RET != 0) == (V(X) == V(Y)));

#define P_Compare(r, x, y) ((r) == (SG(x) < SG(y) ? -1 : SG(x) > SG(y) ? 1 : 0))
Z_int BitVector_Compare(wordptr X, wordptr Y)
REQ(WF(X) && WF(Y)) ASG()
ENS(P_Compare(RET, V(X), V(Y)));

Z_int BitVector_Sign(wordptr addr)
REQ(WF(addr)) ASG(UPTO(addr, 32))
ENS(V(addr) == OLD(V(addr)))
ENS(RET == (V(addr) == 0 ? 0 : SG(V(addr)) < 0 ? -1 : 1));

void BitVector_LSB(wordptr addr, boolean bit)
REQ(WF(addr)) ASG(UPTO(addr, 32))
ENS(V(addr) == ((OLD(V(addr)) & ~ONE) | (bit ? ONE : (u256)0)));

boolean BitVector_msb_(wordptr addr)
REQ(WF(addr)) ASG()
ENS(ISB(RET)) ENS((RET != 0) == (SG(V(addr)) < 0));

boolean BitVector_shift_left(wordptr addr, boolean carry_in)
REQ(WF(addr) && ISB(carry_in)) ASG(UPTO(addr, 32))
ENS(V(addr) == ((OLD(V(addr)) << 1) | (carry_in ? ONE : (u256)0)))
ENS(ISB(RET)) ENS((RET != 0) == (SG(OLD(V(addr))) < 0));

boolean BitVector_shift_right(wordptr addr, boolean carry_in)
REQ(WF(addr) && ISB(carry_in)) ASG(UPTO(addr, 32))
ENS(V(addr) == ((OLD(V(addr)) >> 1) | (carry_in ? ONE << 255 : (u256)0)))
ENS(ISB(RET)) ENS((RET != 0) == ((OLD(V(addr)) & ONE) != 0));

void BitVector_Move_Left(wordptr addr, N_int bits)
REQ(WF(addr)) ASG(UPTO(addr, 32))
ENS(V(addr) == (bits >= 256 ? (u256)0 : OLD(V(addr)) << bits));

boolean BitVector_compute(wordptr X, wordptr Y, wordptr Z, boolean minus, boolean *carry)
REQ(WF(X) && WF(Y) && (Z == 0 || WF(Z))) REQ(ISB(minus) && ISB(*carry))
ASG(UPTO(X, 32), *carry)
ENS(V(X) == (minus
      ? OLD(V(Y)) - (Z ? OLD(V(Z)) : (u256)0) - (OLD(*carry) ? ONE : (u256)0)
      : OLD(V(Y)) + (Z ? OLD(V(Z)) : (u256)0) + (OLD(*carry) ? ONE : (u256)0)))
ENS(ISB(*carry) && ISB(RET))
ENS((*carry != 0) == (minus
      ? (u320)OLD(V(Y)) < (u320)(Z ? OLD(V(Z)) : (u256)0) + (OLD(*carry) ? 1 : 0)
      : (((u320)OLD(V(Y)) + (u320)(Z ? OLD(V(Z)) : (u256)0) + (OLD(*carry) ? 1 : 0)) >> 256) != 0))
ENS(minus || (RET != 0) == (SG(~(OLD(V(Y)) ^ (Z ? OLD(V(Z)) : (u256)0)) & (V(X) ^ OLD(V(Y)))) < 0));

boolean BitVector_add(wordptr X, wordptr Y, wordptr Z, boolean *carry)
REQ(WF(X) && WF(Y) && WF(Z) && *carry == 0) ASG(UPTO(X, 32), *carry)
ENS(V(X) == OLD(V(Y)) + OLD(V(Z)));

boolean BitVector_sub(wordptr X, wordptr Y, wordptr Z, boolean *carry)
REQ(WF(X) && WF(Y) && WF(Z) && *carry == 0) ASG(UPTO(X, 32), *carry)
ENS(V(X) == OLD(V(Y)) - OLD(V(Z)));

boolean BitVector_inc(wordptr X, wordptr Y)
REQ(WF(X) && WF(Y)) ASG(UPTO(X, 32))
ENS(V(X) == OLD(V(Y)) + ONE);

boolean BitVector_dec(wordptr X, wordptr Y)
REQ(WF(X) && WF(Y)) ASG(UPTO(X, 32))
ENS(V(X) == OLD(V(Y)) - ONE);

void BitVector_Negate(wordptr X, wordptr Y)
REQ(WF(X) && WF(Y)) ASG(UPTO(X, 32))
ENS(V(X) == (u256)0 - OLD(V(Y)));

void Set_Union(wordptr X, wordptr Y, wordptr Z)
REQ(WF(X) && WF(Y) && WF(Z)) ASG(UPTO(X, 32))
ENS(V(X) == (OLD(V(Y)) | OLD(V(Z))));

void Set_Intersection(wordptr X, wordptr Y, wordptr Z)
REQ(WF(X) && WF(Y) && WF(Z)) ASG(UPTO(X, 32))
ENS(V(X) == (OLD(V(Y)) & OLD(V(Z))));

void Set_ExclusiveOr(wordptr X, wordptr Y, wordptr Z)
REQ(WF(X) && WF(Y) && WF(Z)) ASG(UPTO(X, 32))
ENS(V(X) == (OLD(V(Y)) ^ OLD(V(Z))));

void Set_Complement(wordptr X, wordptr Y)
REQ(WF(X) && WF(Y)) ASG(UPTO(X, 32))
ENS(V(X) == ~OLD(V(Y)));

#define WF32(p) ((p) != 0 && (p)[-3] == 32 && (p)[-2] == 1 && (p)[-1] == 0xffffffffu)
#define ZV(p) ((p)[-3] == 32 ? (u256)(p)[0] : V(p))
Z_long Set_Max(wordptr addr)
REQ(WF(addr) || WF32(addr)) ASG()
ENS(ZV(addr) == 0 ? RET == LONG_MIN
                 : (RET >= 0 && RET <= 255 && (ZV(addr) >> (unsigned)RET) == ONE));

/* chunks: at most 64 bits at bit offset `offset` (beyond bit 255 dropped) */
#define LOWMASK(n) ((n) >= 256 ? ~(u256)0 : (ONE << (n)) - ONE)
void BitVector_Chunk_Store(wordptr addr, N_int chunksize, N_int offset, N_long value)
REQ(WF(addr)) REQ(chunksize <= 64) ASG(UPTO(addr, 32))
ENS(V(addr) == (offset >= 256 ? OLD(V(addr)) : (OLD(V(addr)) & ~(LOWMASK(chunksize) << offset))
                | (((u256)value & LOWMASK(chunksize)) << offset)));

N_long BitVector_Chunk_Read(wordptr addr, N_int chunksize, N_int offset)
REQ(WF(addr)) REQ(chunksize <= 64) ASG()
ENS(RET == (N_long)(offset >= 256 ? (u256)0 : (V(addr) >> offset) & LOWMASK(chunksize)));

void BitVector_Interval_Fill(wordptr addr, N_int lower, N_int upper)
REQ(WF(addr)) REQ(lower < 256 && upper < 256 && lower <= upper) ASG(UPTO(addr, 32))
ENS(V(addr) == (OLD(V(addr)) | (LOWMASK(upper - lower + 1) << lower)));

/* X[xo .. xo+len) = Y[yo .. yo+len), the rest of X unchanged */
void BitVector_Interval_Copy(wordptr X, wordptr Y, N_int Xoffset, N_int Yoffset, N_int length)
REQ(WF(X) && WF(Y) && X != Y) REQ(Xoffset < 256 && Yoffset == 0 && length <= 256)
ASG(UPTO(X, 32))
ENS(V(X) == ((OLD(V(X)) & ~(LOWMASK(length > 256 - Yoffset ? 256 - Yoffset : length) << Xoffset))
             | (((V(Y) >> Yoffset) & LOWMASK(length > 256 - Yoffset ? 256 - Yoffset : length)) << Xoffset)));

void BitVector_Block_Store(wordptr addr, charptr buffer, N_int length)
REQ(WF(addr) && length <= 32 && __CPROVER_r_ok(buffer, 32)) ASG(UPTO(addr, 32))
ENS(V(addr) == (*(u256 *)buffer & LOWMASK(8 * length)));

charptr BitVector_Block_Read(wordptr addr, N_intptr length)
REQ(WF(addr)) ASG(UPTO(addr, 32), *length)
ENS(__CPROVER_is_fresh(RET, 33)) ENS(*length == 32 && V(addr) == OLD(V(addr)))
ENS(*(u256 *)RET == V(addr) && RET[32] == 0);

/* unsigned shift-add product; the smaller factor Z may be 32 bits wide */
#define MULBOUND(strict) ((u512)1 << ((strict) ? 255 : 256))
ErrCode BitVector_Mul_Pos(wordptr X, wordptr Y, wordptr Z, boolean strict)
REQ(WF(X) && WF(Y) && (WF(Z) || WF32(Z)) && X != Y && X != Z && Y != Z)
ASG(UPTO(X, 32), UPTO(Y, 32))
ENS(RET == ErrCode_Ok || RET == ErrCode_Ovfl)
/* a strict product with Y >= 2^255 is left open (it never fits) */
ENS((strict && OLD(V(Y)) >= (ONE << 255)) || (RET == ErrCode_Ok) == (UMUL(OLD(V(Y)), ZV(Z)) < MULBOUND(strict)))
ENS((strict && OLD(V(Y)) >= (ONE << 255)) || RET != ErrCode_Ok || V(X) == (u256)UMUL(OLD(V(Y)), ZV(Z)));

ErrCode BitVector_Div_Pos(wordptr Q, wordptr X, wordptr Y, wordptr R)
REQ(WF(Q) && WF(X) && WF(Y) && WF(R) && Q != R && Q != X && Q != Y && R != X && R != Y && X != Y)
REQ(V(Y) != 0 && V(Y) <= (ONE << 255))
ASG(UPTO(Q, 32), UPTO(R, 32), UPTO(X, 32), UPTO(Y, 32))
ENS(RET == ErrCode_Ok && V(Y) == OLD(V(Y)))
ENS(V(Q) == UDIV(OLD(V(X)), V(Y)) && V(R) == UMOD(OLD(V(X)), V(Y)));

ErrCode BitVector_Multiply(wordptr X, wordptr Y, wordptr Z)
REQ(WF(X) && WF(Y) && WF(Z) && X != Y && X != Z) ASG(UPTO(X, 32), UPTO(Y, 32), UPTO(Z, 32))
ENS(V(Y) == OLD(V(Y)) && V(Z) == OLD(V(Z)))
ENS(!VF_MULOK(V(Y), V(Z)) || V(X) == VF_MUL(V(Y), V(Z)));

ErrCode BitVector_Divide(wordptr Q, wordptr X, wordptr Y, wordptr R)
REQ(WF(Q) && WF(X) && WF(Y) && WF(R) && Q != R && Q != X && Q != Y && R != X && R != Y)
REQ(V(Y) != 0)
ASG(UPTO(Q, 32), UPTO(R, 32), UPTO(X, 32), UPTO(Y, 32))
ENS(V(Y) == OLD(V(Y)) && V(X) == OLD(V(X)))
ENS(V(Q) == VF_DIV(V(X), V(Y))) ENS(V(R) == VF_MOD(V(X), V(Y)));
#endif
