/* Contracts of the integer-number API (libyasm/intnum.c).
 * Value view: IV(n) is the signed 256-bit integer an intnum stands for.
 * Representation invariant INV(n): either a long, or a well-formed 256-bit
 * vector holding a value outside (-2^31, 2^31). */
#ifndef INTNUM_SPEC_H
#define INTNUM_SPEC_H
#define IS_L(n) ((n)->type == INTNUM_L)
#define IV(n) (IS_L(n) ? (s256)(n)->val.l : SG(V((n)->val.bv)))
#define TWO31 ((s256)0x80000000ul)
#define INV(n) (IS_L(n) || ((n)->type == INTNUM_BV && WF((n)->val.bv) && \
    (SG(V((n)->val.bv)) >= TWO31 || SG(V((n)->val.bv)) <= -TWO31)))

/* universe: operands n0 / n1 with their vector storage, and the file-static
 * work vectors of intnum.c */
static N_word b0_[11], b1_[11], w_[5][11];
static yasm_intnum n0, n1;
static s256 g0, g1;             /* ghost: entry values of n0, n1 */
#define WORK UPTO(conv_bv, 32), UPTO(result, 32), UPTO(spare, 32), UPTO(op1static, 32), UPTO(op2static, 32), \
             WHOLE(b0_), WHOLE(b1_), VF_GHOST
#define STATICS_WF (WF(conv_bv) && WF(result) && WF(spare) && WF(op1static) && WF(op2static))

static void vf_words(N_word *w)
{ w[0] = 256; w[1] = 8; w[2] = ~0u;
  w[3] = ND(N_word); w[4] = ND(N_word); w[5] = ND(N_word); w[6] = ND(N_word);
  w[7] = ND(N_word); w[8] = ND(N_word); w[9] = ND(N_word); w[10] = ND(N_word); }
static void vf_intnum_boot(void)
{
    vf_boot();
    vf_words(w_[0]); vf_words(w_[1]); vf_words(w_[2]); vf_words(w_[3]); vf_words(w_[4]);
    conv_bv = w_[0] + 3; result = w_[1] + 3; spare = w_[2] + 3; op1static = w_[3] + 3; op2static = w_[4] + 3;
}
/* rep: 0 long, 1 vector, 2 either */
static void vf_intn(yasm_intnum *n, N_word *b, int rep)
{
    vf_words(b);
    if (rep == 2) rep = ND_BOOL();
    if (rep) { n->type = INTNUM_BV; n->val.bv = b + 3; ASSUME(INV(n)); }
    else { n->type = INTNUM_L; n->val.l = ND(long); }
}
#define MKN0(rep) vf_intn(&n0, b0_, rep); g0 = IV(&n0)
#define MKN1(rep) vf_intn(&n1, b1_, rep); g1 = IV(&n1)

/* ---- yasm_intnum_calc ---- */
#define BOOL256(c) ((c) ? (u256)1 : (u256)0)
#define IS_DIVOP(op) ((op) == YASM_EXPR_DIV || (op) == YASM_EXPR_SIGNDIV || (op) == YASM_EXPR_MOD || (op) == YASM_EXPR_SIGNMOD)
#define IS_UNOP(op) ((op) == YASM_EXPR_NEG || (op) == YASM_EXPR_NOT || (op) == YASM_EXPR_LNOT)
#define IS_SEGOP(op) ((op) == YASM_EXPR_SEG || (op) == YASM_EXPR_WRT || (op) == YASM_EXPR_SEGOFF)
#define IS_CALCOP(op) ((unsigned)(op) <= YASM_EXPR_NE || IS_SEGOP(op))
#define SHCNT(b) (SG(b) >= 0 && SG(b) < TWO31)
#define S_SHL(a, b) (SG(b) >= 0 && SG(b) < 256 ? (a) << (unsigned)(b) : (u256)0)
#define S_SHR(a, b) (SG(b) < 0 ? (u256)0 : SG(b) < 256 ? (u256)(SG(a) >> (unsigned)(b)) : SG(a) < 0 ? ~(u256)0 : (u256)0)
#define S_CALC(op, a, b) ( \
    (op) == YASM_EXPR_IDENT ? (a) : (op) == YASM_EXPR_ADD ? (a) + (b) : (op) == YASM_EXPR_SUB ? (a) - (b) : \
    (op) == YASM_EXPR_MUL ? VF_MUL((a), (b)) : \
    (op) == YASM_EXPR_DIV || (op) == YASM_EXPR_SIGNDIV ? VF_DIV((a), (b)) : \
    (op) == YASM_EXPR_MOD || (op) == YASM_EXPR_SIGNMOD ? VF_MOD((a), (b)) : \
    (op) == YASM_EXPR_NEG ? (u256)0 - (a) : (op) == YASM_EXPR_NOT ? ~(a) : \
    (op) == YASM_EXPR_OR ? (a) | (b) : (op) == YASM_EXPR_AND ? (a) & (b) : (op) == YASM_EXPR_XOR ? (a) ^ (b) : \
    (op) == YASM_EXPR_XNOR ? ~((a) ^ (b)) : (op) == YASM_EXPR_NOR ? ~((a) | (b)) : \
    (op) == YASM_EXPR_SHL ? S_SHL(a, b) : (op) == YASM_EXPR_SHR ? S_SHR(a, b) : \
    (op) == YASM_EXPR_LOR ? BOOL256((a) != 0 || (b) != 0) : (op) == YASM_EXPR_LAND ? BOOL256((a) != 0 && (b) != 0) : \
    (op) == YASM_EXPR_LNOT ? BOOL256((a) == 0) : (op) == YASM_EXPR_LXOR ? BOOL256(((a) != 0) != ((b) != 0)) : \
    (op) == YASM_EXPR_LXNOR ? BOOL256(((a) != 0) == ((b) != 0)) : (op) == YASM_EXPR_LNOR ? BOOL256((a) == 0 && (b) == 0) : \
    (op) == YASM_EXPR_LT ? BOOL256(SG(a) < SG(b)) : (op) == YASM_EXPR_GT ? BOOL256(SG(a) > SG(b)) : \
    (op) == YASM_EXPR_LE ? BOOL256(SG(a) <= SG(b)) : (op) == YASM_EXPR_GE ? BOOL256(SG(a) >= SG(b)) : \
    (op) == YASM_EXPR_EQ ? BOOL256((a) == (b)) : BOOL256((a) != (b)))
/* result left open: product that does not fit, arithmetic shift of a negative value by a count >= 2^31 */
#define OPEN_CALC(op, a, b) (((op) == YASM_EXPR_MUL && !VF_MULOK((a), (b))) || \
    ((op) == YASM_EXPR_SHR && SG(a) < 0 && SG(b) >= TWO31))
#define P_CALC_ERR(op, have, b) ((!(have) && !IS_UNOP(op)) || ((have) && IS_DIVOP(op) && (b) == 0) || !IS_CALCOP(op))
#define P_CALC(r, op, acc, have, a, b) ( \
    P_CALC_ERR(op, have, b) \
      ? ((r) != 0 && vf_nerr > 0 && IV(acc) == SG(a) && \
         (!((have) && IS_DIVOP(op)) || vf_err == YASM_ERROR_ZERO_DIVISION)) \
      : IS_SEGOP(op) ? vf_nerr > 0 \
      : ((r) == 0 && vf_nerr == 0 && INV(acc) && (OPEN_CALC(op, a, b) || IV(acc) == SG(S_CALC(op, a, b)))))
int yasm_intnum_calc(yasm_intnum *acc, yasm_expr_op op, yasm_intnum *operand)
REQ(INV(acc) && IV(acc) == g0 && (operand == 0 || (INV(operand) && IV(operand) == g1)) && STATICS_WF && vf_nerr == 0)
ASG(*acc, WORK)
ENS(operand == 0 || IV(operand) == g1)
ENS(P_CALC(RET, op, acc, operand != 0, (u256)g0, (u256)g1));

/* ---- construction, conversion, comparison ---- */
#define PRE1(n) (INV(n) && IV(n) == g0 && STATICS_WF && vf_nerr == 0 && vf_nwarn == 0)
#define IS_INT(n, v) (INV(n) && IV(n) == (v))

yasm_intnum *yasm_intnum_create_uint(unsigned long i) ASG(VF_GHOST) ENS(IS_INT(RET, (s256)i));
yasm_intnum *yasm_intnum_create_int(long i) ASG(VF_GHOST) ENS(IS_INT(RET, (s256)i));
yasm_intnum *yasm_intnum_copy(const yasm_intnum *intn)
REQ(PRE1(intn)) ASG(WORK)
ENS(RET != intn && IS_INT(RET, g0) && IV(intn) == g0)
ENS(IS_L(RET) || IS_L(intn) || RET->val.bv != intn->val.bv);
int yasm_intnum_compare(const yasm_intnum *intn1, const yasm_intnum *intn2)
REQ(PRE1(intn1) && INV(intn2) && IV(intn2) == g1) ASG(WORK)
ENS(RET == (g0 < g1 ? -1 : g0 > g1 ? 1 : 0)) ENS(IV(intn1) == g0 && IV(intn2) == g1);
void yasm_intnum_zero(yasm_intnum *intn) REQ(PRE1(intn)) ASG(*intn, WORK) ENS(IS_INT(intn, (s256)0));
void yasm_intnum_set(yasm_intnum *intn, const yasm_intnum *val)
REQ(PRE1(intn) && INV(val) && IV(val) == g1) ASG(*intn, WORK)
ENS(IS_INT(intn, g1) && IV(val) == g1)
ENS(IS_L(intn) || IS_L(val) || intn->val.bv != val->val.bv);
void yasm_intnum_set_uint(yasm_intnum *intn, unsigned long val)
REQ(PRE1(intn)) ASG(*intn, WORK) ENS(IS_INT(intn, (s256)val));
void yasm_intnum_set_int(yasm_intnum *intn, long val)
REQ(PRE1(intn)) ASG(*intn, WORK) ENS(IS_INT(intn, (s256)val));
int yasm_intnum_is_zero(const yasm_intnum *intn)
REQ(PRE1(intn)) ASG(WORK) ENS((RET != 0) == (g0 == 0)) ENS(IV(intn) == g0);
int yasm_intnum_is_pos1(const yasm_intnum *intn)
REQ(PRE1(intn)) ASG(WORK) ENS((RET != 0) == (g0 == 1)) ENS(IV(intn) == g0);
int yasm_intnum_is_neg1(const yasm_intnum *intn)
REQ(PRE1(intn)) ASG(WORK) ENS((RET != 0) == (g0 == -1)) ENS(IV(intn) == g0);
int yasm_intnum_sign(const yasm_intnum *intn)
REQ(PRE1(intn)) ASG(WORK) ENS(RET == (g0 == 0 ? 0 : g0 < 0 ? -1 : 1)) ENS(IV(intn) == g0);
/* exact within the range of a long, saturating outside of it */
#define P_GET_UINT(r, n) (g0 < 0 ? (r) == 0 : g0 <= (s256)ULONG_MAX ? (s256)(r) == g0 : (r) == ULONG_MAX)
#define P_GET_INT(r, n) (g0 > (s256)LONG_MAX ? (r) == LONG_MAX : g0 < (s256)LONG_MIN ? (r) == LONG_MIN : (s256)(r) == g0)
unsigned long yasm_intnum_get_uint(const yasm_intnum *intn)
REQ(PRE1(intn)) ASG(WORK) ENS(P_GET_UINT(RET, intn)) ENS(IV(intn) == g0);
long yasm_intnum_get_int(const yasm_intnum *intn)
REQ(PRE1(intn)) ASG(WORK) ENS(P_GET_INT(RET, intn)) ENS(IV(intn) == g0);
int yasm_intnum_in_range(const yasm_intnum *intn, long low, long high)
REQ(PRE1(intn)) ASG(WORK) ENS((RET != 0) == (g0 >= low && g0 <= high)) ENS(IV(intn) == g0);

/* ---- size checks and fixed-width fields ---- */
#define POW2(n) ((s512)1 << (unsigned)(n))
#define FITS(v, size, rt) ((size) >= 256 ? 1 : \
    (rt) == 0 ? ((v) >= 0 && (s512)(v) < POW2(size)) : \
    (rt) == 1 ? ((s512)(v) >= -POW2((size) - 1) && (s512)(v) < POW2((size) - 1)) : \
                ((s512)(v) >= -POW2((size) - 1) && (s512)(v) < POW2(size)))
#define ASHR(v, n) ((n) >= 256 ? ((v) < 0 ? (s256)-1 : (s256)0) : (v) >> (unsigned)(n))
int yasm_intnum_check_size(const yasm_intnum *intn, size_t size, size_t rshift, int rangetype)
REQ(PRE1(intn) && size >= 1 && size < 1000 && rshift <= 256 && rangetype >= 0 && rangetype <= 2) ASG(UPTO(conv_bv, 32), UPTO(b0_ + 3, 32))
ENS((RET != 0) == FITS(ASHR(g0, rshift), size, rangetype)) ENS(IV(intn) == g0);

static unsigned char vf_buf[40];
static u256 gbuf;               /* ghost: entry contents of the first 32 bytes */
#define BUFV (*(u256 *)vf_buf)
#define MASKN(n) ((n) >= 256 ? ~(u256)0 : ((u256)1 << (unsigned)(n)) - 1)
#define RSH(shift) ((shift) < 0 ? -(shift) : 0)
#define LSH(shift) ((shift) < 0 ? 0 : (shift))
#define P_FIELD(valsize, shift) (BUFV == ((gbuf & ~(MASKN(valsize) << LSH(shift))) | \
        ((((u256)ASHR(g0, RSH(shift))) & MASKN(valsize)) << LSH(shift))))
#define WARNS(valsize, shift, warn) \
    (((warn) < 0 && !FITS(ASHR(g0, RSH(shift)), valsize, 1)) || ((warn) > 0 && !FITS(ASHR(g0, RSH(shift)), valsize, 2)) || \
     ((warn) != 0 && RSH(shift) > 0 && (((u256)g0) & MASKN(RSH(shift))) != 0))
void yasm_intnum_get_sized(const yasm_intnum *intn, unsigned char *ptr, size_t destsize, size_t valsize, int shift, int bigendian, int warn)
REQ(PRE1(intn) && ptr == vf_buf && BUFV == gbuf && destsize >= 1 && destsize <= 32 && bigendian == 0 && shift >= -255)
REQ(valsize >= 1 && LSH(shift) + valsize <= 8 * destsize)
ASG(WORK, WHOLE(vf_buf))
ENS(P_FIELD(valsize, shift)) ENS((vf_nwarn != 0) == WARNS(valsize, shift, warn)) ENS(IV(intn) == g0);

#define LOADED(n, sign) ((sign) && (n) < 32 && ((gbuf >> (8 * (n) - 1)) & 1) \
        ? SG(gbuf | ~MASKN(8 * (n))) : SG(gbuf & MASKN(8 * (n))))
yasm_intnum *yasm_intnum_create_sized(unsigned char *ptr, int sign, size_t srcsize, int bigendian)
REQ(STATICS_WF && vf_nerr == 0 && ptr == vf_buf && BUFV == gbuf && srcsize >= 1 && srcsize <= 32 && bigendian == 0)
ASG(WORK)
ENS(IS_INT(RET, LOADED(srcsize, sign)) && vf_nerr == 0) ENS(BUFV == gbuf);

/* ---- LEB128 ---- */
#define LEBBYTE(v, n, j) ((j) >= (n) || vf_buf[j] == ((unsigned char)((u256)((v) >> (7 * (j))) & 0x7f) | ((j) + 1 < (n) ? 0x80 : 0)))
#define LEBBYTES(v, n) (LEBBYTE(v, n, 0) && \
    LEBBYTE(v, n, 1) && \
    LEBBYTE(v, n, 2) && \
    LEBBYTE(v, n, 3) && \
    LEBBYTE(v, n, 4) && \
    LEBBYTE(v, n, 5) && \
    LEBBYTE(v, n, 6) && \
    LEBBYTE(v, n, 7) && \
    LEBBYTE(v, n, 8) && \
    LEBBYTE(v, n, 9) && \
    LEBBYTE(v, n, 10) && \
    LEBBYTE(v, n, 11) && \
    LEBBYTE(v, n, 12) && \
    LEBBYTE(v, n, 13) && \
    LEBBYTE(v, n, 14) && \
    LEBBYTE(v, n, 15) && \
    LEBBYTE(v, n, 16) && \
    LEBBYTE(v, n, 17) && \
    LEBBYTE(v, n, 18) && \
    LEBBYTE(v, n, 19) && \
    LEBBYTE(v, n, 20) && \
    LEBBYTE(v, n, 21) && \
    LEBBYTE(v, n, 22) && \
    LEBBYTE(v, n, 23) && \
    LEBBYTE(v, n, 24) && \
    LEBBYTE(v, n, 25) && \
    LEBBYTE(v, n, 26) && \
    LEBBYTE(v, n, 27) && \
    LEBBYTE(v, n, 28) && \
    LEBBYTE(v, n, 29) && \
    LEBBYTE(v, n, 30) && \
    LEBBYTE(v, n, 31) && \
    LEBBYTE(v, n, 32) && \
    LEBBYTE(v, n, 33) && \
    LEBBYTE(v, n, 34) && \
    LEBBYTE(v, n, 35) && \
    LEBBYTE(v, n, 36))

/* n bytes suffice: the decoded 7n-bit (signed) number is v itself */
#define LEBFIT(v, n, sign) ((n) >= 1 && (n) <= 37 && ((sign) \
    ? (v) >> (7 * (n) - 1 > 255 ? 255 : (unsigned)(7 * (n) - 1)) == ((v) < 0 ? (s256)-1 : (s256)0) \
    : (7 * (n) >= 256 || ((u256)(v) >> (unsigned)(7 * (n))) == 0)))
#define LEBDOM(v, sign) ((sign) ? ((v) < (s256)1 << 250 && (v) > -((s256)1 << 250)) : (v) >= 0)
#define LEBOK(n, v, sign) (LEBFIT(v, n, sign) && LEBBYTES(v, n))
unsigned long yasm_intnum_get_leb128(const yasm_intnum *intn, unsigned char *ptr, int sign)
REQ(PRE1(intn) && ptr == vf_buf && LEBDOM(g0, sign)) ASG(WORK, WHOLE(vf_buf))
ENS(LEBOK(RET, g0, sign)) ENS(IV(intn) == g0);
unsigned long yasm_intnum_size_leb128(const yasm_intnum *intn, int sign)
REQ(PRE1(intn) && LEBDOM(g0, sign)) ASG(WORK)
ENS(LEBFIT(g0, RET, sign)) ENS(IV(intn) == g0);
unsigned long yasm_get_sleb128(long v, unsigned char *ptr)
REQ(STATICS_WF && ptr == vf_buf) ASG(WORK, WHOLE(vf_buf)) ENS(LEBOK(RET, (s256)v, 1));
unsigned long yasm_get_uleb128(unsigned long v, unsigned char *ptr)
REQ(STATICS_WF && ptr == vf_buf) ASG(WORK, WHOLE(vf_buf)) ENS(LEBOK(RET, (s256)v, 0));
#endif
