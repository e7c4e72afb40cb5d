/* Integers and constant expressions as seen by the layout code: an expression
 * either has a (mathematical) value or is not constant.  The integer functions
 * behave as their contracts of C05 say. */
typedef struct vf_ex { int known, known_dist; __int128 v; } vf_ex;
#define EX(e) ((vf_ex *)(e))
static yasm_intnum *vf_get_intnum(yasm_expr **ep, int calc_bc_dist)
{ return *ep && (EX(*ep)->known || (calc_bc_dist && EX(*ep)->known_dist)) ? (yasm_intnum *)*ep : 0; }
static unsigned long vf_get_uint(const yasm_intnum *n) { return EX(n)->v < 0 ? 0 : EX(n)->v > (__int128)ULONG_MAX ? ULONG_MAX : (unsigned long)EX(n)->v; }
static long vf_get_int(const yasm_intnum *n) { return EX(n)->v < (__int128)LONG_MIN ? LONG_MIN : EX(n)->v > (__int128)LONG_MAX ? LONG_MAX : (long)EX(n)->v; }
static int vf_sign(const yasm_intnum *n) { return EX(n)->v < 0 ? -1 : EX(n)->v > 0; }
#define yasm_expr_get_intnum vf_get_intnum
#define yasm_intnum_get_uint vf_get_uint
#define yasm_intnum_get_int vf_get_int
#define yasm_intnum_sign vf_sign
static void vf_ex_init(vf_ex *e)
{
    unsigned long a = ND(unsigned long); unsigned k = ND(unsigned) % 4;
    e->known = 1; e->known_dist = 1;
    e->v = k == 0 ? (__int128)a : k == 1 ? (__int128)a - ((__int128)1 << 64) : k == 2 ? (__int128)a + ((__int128)1 << 64) : (__int128)(a & 0xff);
}
