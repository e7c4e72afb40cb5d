/* layout bytecodes: bytecode.c, bc-align.c, bc-org.c, bc-reserve.c, bc-incbin.c */
#include "prelude.h"
#include "libyasm-stdint.h"
#include "libyasm/coretype.h"
#include "libyasm/file.h"
#include "libyasm/linemap.h"
#include "libyasm/intnum.h"
#include "libyasm/expr.h"
#include "libyasm/value.h"
#include "libyasm/symrec.h"
#include "libyasm/insn.h"
#include "libyasm/arch.h"
#include "libyasm/section.h"
#include "libyasm/bytecode.h"
#include "vf_int.h"

static unsigned char *org_buf; static unsigned long org_j;
static vf_ex ex_a, ex_b, ex_c, ex_zero;
/* value_finalize: an absolute constant value; a zero is delivered as NULL */
static int vf_fin_complex, vf_fin_rel, vf_relobj;
static int vf_finalize_expr(yasm_value *v, yasm_expr *e, yasm_bytecode *p, unsigned size)
{
    v->abs = e && EX(e)->known && EX(e)->v == 0 ? 0 : e; v->rel = vf_fin_rel ? (yasm_symrec *)&vf_relobj : 0;
    return vf_fin_complex;
}
#define yasm_value_finalize_expr vf_finalize_expr
static void vf_value_init(yasm_value *v, yasm_expr *e, unsigned size) { v->abs = e; v->rel = 0; v->size = (unsigned char)size; }
#define yasm_value_initialize vf_value_init
static yasm_expr__item *vf_item_int(yasm_intnum *n) { return (yasm_expr__item *)n; }
#define yasm_expr_int vf_item_int
static yasm_intnum *vf_create_uint(unsigned long v) { ex_zero.known = ex_zero.known_dist = 1; ex_zero.v = v; return (yasm_intnum *)&ex_zero; }
#define yasm_intnum_create_uint vf_create_uint
static yasm_expr *vf_create(yasm_expr_op op, yasm_expr__item *l, yasm_expr__item *r, unsigned long line) { return (yasm_expr *)l; }
#define yasm_expr_create vf_create
static unsigned long vf_negated;
static int vf_calc(yasm_intnum *a, yasm_expr_op op, yasm_intnum *b) { EX(a)->v = op == YASM_EXPR_NEG ? -EX(a)->v : (__int128)77777; return 0; }
#define yasm_intnum_calc vf_calc
static int vf_isfloat;
static int vf_contains(const yasm_expr *e, int t) { return vf_isfloat; }
#define yasm_expr__contains vf_contains
void yasm_expr_destroy(yasm_expr *e) {}
void yasm_expr_print(const yasm_expr *e, FILE *f) {}
void yasm_intnum_destroy(yasm_intnum *n) {}
static int vf_lookup(yasm_linemap *lm, unsigned long line, const char **fn, unsigned long *fl) { return 0; }
#define yasm_linemap_lookup vf_lookup

#ifdef RECORD
/* copies of unbounded length are recorded instead of made: position, length and source */
static unsigned char *vf_base; static unsigned long vf_done; static int vf_bad, vf_filled; static const unsigned char **vf_tab;
static void vf_memset(void *p, int c, unsigned long n) { if (p != (void *)(vf_base + vf_done)) vf_bad = 1; vf_done += n; vf_filled = (unsigned char)c; }
static void vf_memcpy(void *p, const void *s, unsigned long n)
{
    if (p != (void *)(vf_base + vf_done) || n < 1 || n > 15 || s != (const void *)vf_tab[n]) vf_bad = 1;
    vf_done += n;
}
#define memset(p, c, n) vf_memset((p), (c), (n))
#define memcpy(p, s, n) vf_memcpy((p), (s), (n))
#endif
/* the included file: a length and accessibility; its content is byte i = vf_fbyte(i) */
static long vf_flen, vf_fpos; static int vf_fopened, vf_fclosed, vf_nofile, vf_noseek; static struct { unsigned char *p; size_t n; long at; } vf_rd; static char vf_fobj;
static FILE *vf_fopen_include(const char *i, const char *f, const char *m, char **o) { if (vf_nofile) return 0; vf_fopened++; vf_fpos = 0; return (FILE *)&vf_fobj; }
static int vf_fseek(FILE *f, long off, int wh) { if (vf_noseek) return -1; vf_fpos = wh == SEEK_END ? vf_flen + off : wh == SEEK_CUR ? vf_fpos + off : off; return 0; }
static long vf_ftell(FILE *f) { return vf_fpos; }
static size_t vf_fread(void *p, size_t s, size_t n, FILE *f)
{ vf_rd.p = p; vf_rd.n = s * n; vf_rd.at = vf_fpos; return vf_fpos > vf_flen || vf_fpos < 0 ? 0 : (unsigned long)(vf_flen - vf_fpos) < n * s ? (size_t)(vf_flen - vf_fpos) / s : n; }
static int vf_fclose(FILE *f) { vf_fclosed++; return 0; }
#define yasm_fopen_include vf_fopen_include
#define fseek vf_fseek
#define ftell vf_ftell
#undef fread
#define fread vf_fread
#define fclose vf_fclose
#include "libyasm/bytecode.c"
#include "libyasm/bc-align.c"
#include "libyasm/bc-org.c"
#include "libyasm/bc-reserve.c"
#include "libyasm/bc-incbin.c"
#undef memset
#undef memcpy

static yasm_bytecode bc, bc2; static bytecode_align al; static bytecode_org og; static bytecode_reserve rs; static bytecode_incbin ib;
static void boot(void)
{
    vf_ghost_init(); vf_ex_init(&ex_a); vf_ex_init(&ex_b); vf_ex_init(&ex_c);
    vf_nofile = ND_BOOL(); vf_noseek = ND_BOOL(); vf_flen = ND(long); ASSUME(vf_flen >= 0 && vf_flen < (1L << 40)); vf_fopened = vf_fclosed = 0;
    vf_fin_complex = ND_BOOL(); vf_fin_rel = ND_BOOL(); vf_isfloat = ND_BOOL();
    bc.len = 0; bc.line = 0; bc.multiple = 0; bc.section = 0; bc.offset = ND(unsigned long); bc.mult_int = ND(long);
}
static void boot_align(void)
{
    boot();
    al.boundary = (yasm_expr *)&ex_a; al.fill = ND_BOOL() ? (yasm_expr *)&ex_b : 0; al.maxskip = ND_BOOL() ? (yasm_expr *)&ex_c : 0; al.code_fill = 0;
    bc.contents = &al;
}
/* ---------------------------------------------------------------- align */
static unsigned long g_b, g_v; static unsigned long g_max; static int g_maxed;
#define REM (g_v % g_b)
#define PAD (REM ? g_b - REM : 0)
#define SKIPPED (g_maxed && PAD > g_max)
static int bc_align_expand(yasm_bytecode *b, int span, long old_val, long new_val, long *neg, long *pos)
ASG(b->len, *pos)
ENS(RET >= 0 && (g_b == 0 || RET > 0))
ENS(b->len == (g_b == 0 || SKIPPED ? 0 : PAD))
ENS(*pos == (g_b == 0 ? new_val : SKIPPED ? (long)(g_v + PAD - g_max - 1) : (long)(g_v + PAD)));
void h_align_expand(void)
{
    long v = ND(long), neg = 0, pos = 0; int r;
    boot_align();
    g_b = vf_get_uint((yasm_intnum *)&ex_a); g_v = (unsigned long)v; g_maxed = al.maxskip != 0; g_max = vf_get_uint((yasm_intnum *)&ex_c);
    ASSUME(v >= 0 && v < (1L << 40) && g_b < (1UL << 40));
    r = bc_align_expand(&bc, ND(int), ND(long), v, &neg, &pos);
    CHK(r >= 0 && (g_b == 0 || r > 0), "align expand succeeds");
    CHK(bc.len == (g_b == 0 || SKIPPED ? 0 : PAD), "padding length");
    CHK(pos == (g_b == 0 ? v : SKIPPED ? (long)(g_v + PAD - g_max - 1) : (long)(g_v + PAD)), "threshold of the padding");
    CANARY;
}
void h_align_len(void)      /* initial length = padding at the initial offset; then the next location is aligned */
{
    int r;
    boot_align();
    g_b = vf_get_uint((yasm_intnum *)&ex_a); g_v = bc.offset; g_maxed = al.maxskip != 0; g_max = vf_get_uint((yasm_intnum *)&ex_c);
    ASSUME(g_v < (1UL << 40) && g_b < (1UL << 40));
    r = bc_align_calc_len(&bc, 0, 0);
    LEMMA(r == 0 && bc.len == (g_b == 0 || SKIPPED ? 0 : PAD), "length of ALIGN");
    CANARY;
}
/* output: as many bytes as the length says, all of them padding of the asked kind */
static struct { unsigned char b[16]; } vf_fill[16]; static const unsigned char *tab[16]; static unsigned tablast;
static void boot_tab(void)
{
    unsigned i; int use = ND_BOOL();
    tab[0] = 0; tablast = ND(unsigned); ASSUME(tablast <= 15);      /* NULL entries only at the end of the table */
    for (i = 1; i < 16; i++) { tab[i] = i <= tablast ? vf_fill[i].b : (unsigned char *)0; }
    al.code_fill = use ? &tab[0] : (const unsigned char **)0;
}
#ifdef RECORD
void h_align_out(void)
{
    static unsigned char obj[16]; unsigned char *p = obj; int r; unsigned long L, fill;
    boot_align(); boot_tab();
    vf_base = obj; vf_done = 0; vf_bad = 0; vf_filled = -1; vf_tab = tab;
    g_b = vf_get_uint((yasm_intnum *)&ex_a); g_v = bc.offset; g_maxed = al.maxskip != 0; g_max = vf_get_uint((yasm_intnum *)&ex_c);
    ASSUME(g_v < (1UL << 40) && g_b < (1UL << 40));
    L = g_b == 0 || SKIPPED ? 0 : PAD; fill = vf_get_uint((yasm_intnum *)&ex_b);
    r = bc_align_tobytes(&bc, &p, obj, 0, 0, 0);
    LEMMA(!vf_bad, "padding is written contiguously from whole patterns");
    LEMMA(r == (L > 0 && !al.fill && al.code_fill && tablast == 0) && (r != 0) == (vf_err != 0), "padding fails only without any fill pattern");
    LEMMA(r != 0 || (vf_done == L && p == obj + L), "as many padding bytes as the length says");
    LEMMA(r != 0 || L == 0 || vf_filled == (al.fill ? (int)(unsigned char)fill : al.code_fill ? -1 : 0), "the padding value");
    CANARY;
}
#else
void h_align_out(void)
{
    static unsigned char obj[64]; unsigned char *p = obj + 1; int r; unsigned long L, fill, i, n; unsigned j;
    boot_align(); boot_tab(); vf_nd_bytes(vf_fill, sizeof vf_fill);
    g_b = vf_get_uint((yasm_intnum *)&ex_a); g_v = bc.offset; g_maxed = al.maxskip != 0; g_max = vf_get_uint((yasm_intnum *)&ex_c);
    ASSUME(g_v < (1UL << 40) && g_b <= 48);
    L = g_b == 0 || SKIPPED ? 0 : PAD; fill = vf_get_uint((yasm_intnum *)&ex_b);
    r = bc_align_tobytes(&bc, &p, obj, 0, 0, 0);
    LEMMA(r == (L > 0 && !al.fill && al.code_fill && tablast == 0) && (r != 0) == (vf_err != 0), "padding fails only without any fill pattern");
    LEMMA(r != 0 || p == obj + 1 + L, "as many padding bytes as the length says");
    i = ND(unsigned long); ASSUME(i < L);
    if (r == 0) {
        n = tablast; j = (unsigned)i;
        if (al.fill || !al.code_fill) LEMMA(obj[1 + i] == (al.fill ? (unsigned char)fill : 0), "the padding value");
        else {
            /* i lies in a whole pattern: patterns of the largest size first, the remainder last */
            unsigned long full = (L - 1) / n * n;
            LEMMA(obj[1 + i] == (i < full ? vf_fill[n].b[i % n] : vf_fill[L - full].b[i - full]), "padding patterns");
        }
    }
    CANARY;
}
#endif
/* ------------------------------------------------------------------ org */
static int bc_org_expand(yasm_bytecode *b, int span, long old_val, long new_val, long *neg, long *pos)
ASG(b->len, VF_GHOST)
ENS((RET < 0) == ((unsigned long)new_val > og.start) && (vf_err != 0) == (RET < 0))
ENS(RET < 0 || (RET > 0 && b->len == og.start - (unsigned long)new_val));
void h_org_expand(void)
{
    long v = ND(long), neg = 0, pos = 0; int r;
    boot(); og.start = ND(unsigned long); og.fill = ND(unsigned long); bc.contents = &og;
    r = bc_org_expand(&bc, 1, 0, v, &neg, &pos);
    CHK((r < 0) == ((unsigned long)v > og.start) && (vf_err != 0) == (r < 0), "ORG fails only when the place is already passed");
    CHK(r < 0 || (r > 0 && bc.len == og.start - (unsigned long)v), "ORG fills up to the place asked for");
    CANARY;
}
void h_org_len(void)
{
    int r;
    boot(); og.start = ND(unsigned long); bc.contents = &og;
    r = bc_org_calc_len(&bc, 0, 0);
    LEMMA((r != 0) == (bc.offset > og.start) && (r == 0 ? bc.offset + bc.len == og.start : vf_err != 0), "ORG places the next bytecode");
    CANARY;
}
#ifndef ORGMAX
#define ORGMAX (1UL << 40)
#endif
void h_org_out(void)
{
    unsigned long L; unsigned char *p; int r;
    boot(); og.start = ND(unsigned long); og.fill = ND(unsigned long); bc.contents = &og;
    ASSUME(bc.offset > og.start || og.start - bc.offset <= ORGMAX);
    L = bc.offset > og.start ? 0 : og.start - bc.offset; org_j = ND(unsigned long);
    org_buf = malloc(L + 1); ASSUME(org_buf != 0); p = org_buf; ASSUME(org_j < L || L == 0);
    r = bc_org_tobytes(&bc, &p, org_buf, 0, 0, 0);
    LEMMA((r != 0) == (bc.offset > og.start) && (r != 0) == (vf_err != 0), "ORG output fails only on overlap");
    LEMMA(r != 0 || p == org_buf + L, "as many fill bytes as the length says");
    LEMMA(r != 0 || L == 0 || org_buf[org_j] == (unsigned char)og.fill, "the fill value");
    CANARY;
}
/* -------------------------------------------------------------- reserve */
void h_reserve(void)
{
    int r; unsigned long had = ND(unsigned long), n = 64; int gap = 0; unsigned char buf[4]; unsigned char *q; unsigned sz;
    boot(); rs.itemsize = ND(unsigned); rs.numitems = (yasm_expr *)&ex_a; bc.contents = &rs; bc.callback = &bc_reserve_callback;
    bc.len = had; ASSUME(had <= UINT_MAX);
    r = bc_reserve_calc_len(&bc, 0, 0);
    LEMMA(r == 0 && bc.len == had + rs.itemsize && bc_reserve_elem_size(&bc) == (int)rs.itemsize, "RES item size");
    LEMMA(yasm_bc_reserve_numitems(&bc, &sz) == (yasm_expr *)&ex_a && sz == rs.itemsize, "RES description");
    bc_reserve_finalize(&bc, 0);
    LEMMA(bc.multiple == (yasm_expr *)&ex_a && rs.numitems == 0, "the number of items becomes the repeat count");
    /* a reservation is reported as a gap of len * multiple bytes and never materialised */
    ASSUME(ex_a.v >= 0 && ex_a.v < 1024);
    bc.len = ND(unsigned short);
    q = yasm_bc_tobytes(&bc, buf, &n, &gap, 0, 0, 0);
    LEMMA(q == 0 && (ex_a.v == 0 ? n == 0 : (gap == 1 && n == bc.len * (unsigned long)ex_a.v)), "RES is a gap");
    CANARY;
}
/* --------------------------------------------------------------- incbin */
static void boot_incbin(void)
{
    boot(); ib.filename = (char *)"f"; ib.from = "g"; ib.start = ND_BOOL() ? (yasm_expr *)&ex_a : 0; ib.maxlen = ND_BOOL() ? (yasm_expr *)&ex_b : 0;
    ex_a.known = ND_BOOL(); ex_b.known = ND_BOOL(); bc.contents = &ib;
}
void h_incbin_final(void)
{
    int gs, gm;
    boot_incbin(); vf_fin_complex = vf_fin_rel = 0; gs = ib.start != 0; gm = ib.maxlen != 0;
    bc_incbin_finalize(&bc, 0);
    LEMMA(gm == (ib.maxlen != 0) && (!gm || (EX(ib.maxlen)->known == ex_b.known && EX(ib.maxlen)->v == ex_b.v)), "the maximum length survives finalisation");
    LEMMA((ib.start ? (gs && ib.start == (yasm_expr *)&ex_a) : (!gs || ex_a.v == 0)), "the start survives finalisation");
    CANARY;
}
void h_incbin_bad(void)
{
    boot_incbin();
    bc_incbin_finalize(&bc, 0);
    LEMMA((vf_err != 0) == (vf_fin_complex || vf_fin_rel), "start and length must be absolute and simple");
    CANARY;
}
void h_incbin(void)
{
    int r; unsigned long start, max, want, had = ND(unsigned short); unsigned char obj[8]; unsigned char *p = obj;
    boot_incbin(); bc.len = had;
    start = ib.start ? vf_get_uint((yasm_intnum *)&ex_a) : 0; max = ib.maxlen ? vf_get_uint((yasm_intnum *)&ex_b) : ULONG_MAX;
    r = bc_incbin_calc_len(&bc, 0, 0);
    LEMMA((r < 0) == ((ib.start && !ex_a.known) || (ib.maxlen && !ex_b.known) || vf_nofile || vf_noseek) && (r < 0) == (vf_err != 0), "INCBIN fails exactly when it must");
    want = start > (unsigned long)vf_flen ? 0 : (unsigned long)vf_flen - start; if (want > max) want = max;
    LEMMA(r < 0 || bc.len == had + want, "length of the included part");
    LEMMA(r < 0 || (vf_nwarn > 0) == (start > (unsigned long)vf_flen), "a start past the end is warned about");
    if (r >= 0 && had == 0 && start < (1UL << 62)) {
        vf_rd.p = 0;
        r = bc_incbin_tobytes(&bc, &p, obj, 0, 0, 0);
        LEMMA(r == 0 && vf_err == 0, "the part that was measured can be read");
        LEMMA(want == 0 || (vf_rd.p == obj && vf_rd.at == (long)start && vf_rd.n == want), "exactly that part of the file is read");
        LEMMA(p == obj + want, "as many bytes as the length says");
        LEMMA(vf_fopened == vf_fclosed, "files are closed");
    }
    CANARY;
}
void h_incbin_short(void)   /* the file shrank, or cannot be opened, between layout and output: reported, not ignored */
{
    int r; unsigned char obj[8]; unsigned char *p = obj; unsigned long start;
    boot_incbin(); ex_a.known = 1; bc.len = ND(unsigned); start = ib.start ? vf_get_uint((yasm_intnum *)&ex_a) : 0;
    ASSUME(start < (1UL << 62));
    r = bc_incbin_tobytes(&bc, &p, obj, 0, 0, 0);
    LEMMA((r != 0) == (vf_nofile || vf_noseek || (bc.len > 0 && (start > (unsigned long)vf_flen || (unsigned long)vf_flen - start < bc.len))), "INCBIN output fails exactly when the file does");
    LEMMA((r != 0) == (vf_err != 0), "and says so");
    CANARY;
}
/* ------------------------------------------------------------- bytecode */
static int vf_cb_ret, vf_cb_n; static unsigned long vf_cb_len; static int vf_cb_bad; static unsigned char *vf_cb_at[8];
static int cb_calc(yasm_bytecode *b, yasm_bc_add_span_func f, void *d) { if (b->len != 0) vf_cb_bad = 1; b->len += vf_cb_len; return vf_cb_ret; }
static int vf_ex_span; static long vf_ex_new;
static int cb_expand(yasm_bytecode *b, int span, long o, long n, long *a, long *c) { vf_ex_span = span; vf_ex_new = n; *a = 1; *c = 2; return vf_cb_ret; }
static int cb_bytes(yasm_bytecode *b, unsigned char **p, unsigned char *s, void *d, yasm_output_value_func f, yasm_output_reloc_func g)
{ unsigned i; if (vf_cb_n < 8) vf_cb_at[vf_cb_n] = *p; vf_cb_n++; for (i = 0; i < vf_cb_len; i++) (*p)[i] = (unsigned char)(i + 1); *p += vf_cb_len; return 0; }
static const yasm_bytecode_callback vf_cb = { 0, 0, 0, 0, cb_calc, cb_expand, cb_bytes, 0 };
static int vf_spans, vf_span_id; static yasm_expr *vf_span_e;
static void vf_add_span(void *d, yasm_bytecode *b, int id, const yasm_value *v, long n, long p) { vf_spans++; vf_span_id = id; vf_span_e = v->abs; }
void h_calc_len(void)
{
    int r; __int128 m;
    boot(); bc.callback = &vf_cb; bc.multiple = ND_BOOL() ? (yasm_expr *)&ex_a : 0; ex_a.known = ND_BOOL(); vf_cb_ret = ND_BOOL() ? -1 : 0; vf_cb_len = ND(unsigned long);
    bc.len = ND(unsigned long); vf_cb_bad = 0; vf_spans = 0; m = ex_a.v;
    r = yasm_bc_calc_len(&bc, vf_add_span, 0);
    LEMMA(!vf_cb_bad, "lengths are computed from scratch");
    LEMMA((r < 0) == (vf_cb_ret < 0 || (bc.multiple && (ex_a.known ? m < 0 : vf_isfloat))), "bad repeat counts are errors");
    LEMMA(r < 0 ? bc.len == 0 : bc.len == vf_cb_len, "length of one copy");
    LEMMA(r < 0 || bc.mult_int == (!bc.multiple ? 1 : !ex_a.known ? 0 : vf_get_int((yasm_intnum *)&ex_a)), "repeat count");
    LEMMA(r < 0 || vf_spans == (bc.multiple && !ex_a.known) && (!vf_spans || (vf_span_id == 0 && vf_span_e == bc.multiple)), "an unknown repeat count is resolved by layout");
    CANARY;
}
void h_expand(void)
{
    int r, s = ND(int); long nv = ND(long), a = 0, c = 0, m0;
    boot(); bc.callback = &vf_cb; vf_cb_ret = ND(int); vf_ex_span = 0; m0 = bc.mult_int; bc.len = ND(unsigned long);
    r = yasm_bc_expand(&bc, s, ND(long), nv, &a, &c);
    LEMMA(s != 0 || (r > 0 && bc.mult_int == nv), "span 0 is the repeat count");
    LEMMA(s == 0 || (r == vf_cb_ret && vf_ex_span == s && vf_ex_new == nv && bc.mult_int == m0), "other spans belong to the bytecode");
    CANARY;
}
#define MAXM 4
void h_tobytes(void)        /* bounded: at most MAXM copies of at most 6 bytes */
{
    static unsigned char buf[16]; unsigned long n = 16; int gap = 7; unsigned char *q, *b; unsigned long L; long m; unsigned k;
    boot(); bc.callback = &vf_cb; bc.multiple = ND_BOOL() ? (yasm_expr *)&ex_a : 0; ex_a.known = ND_BOOL(); vf_cb_len = ND(unsigned) % 7; bc.len = vf_cb_len; vf_cb_n = 0;
    ASSUME(ex_a.v <= MAXM); L = bc.len;
    q = yasm_bc_tobytes(&bc, buf, &n, &gap, 0, 0, 0);
    m = !bc.multiple ? 1 : ex_a.v < 0 ? 0 : (long)ex_a.v;
    LEMMA((vf_err != 0) == (bc.multiple && ex_a.v < 0), "a negative repeat count is an error");
    LEMMA(n == L * (unsigned long)m && vf_cb_n == m, "size is length times repeat count");
    LEMMA((q != 0) == (L * m > 16), "a buffer is allocated exactly when the given one is too small");
    b = q ? q : buf; k = ND(unsigned);
    LEMMA(k >= (unsigned)m || vf_cb_at[k] == b + k * L, "copies follow one another");
    LEMMA(m == 0 || gap == 0, "code and data are not gaps");
    CANARY;
}
void h_dist(void)
{
    yasm_intnum *r; unsigned long d1, d2; unsigned short l1, l2;
    boot(); bc.section = ND_BOOL() ? (yasm_section *)&ex_b : (yasm_section *)&ex_c; bc2.section = ND_BOOL() ? (yasm_section *)&ex_b : (yasm_section *)&ex_c;
    bc.len = l1 = ND(unsigned short); bc2.len = l2 = ND(unsigned short); bc.mult_int = ND(unsigned short); bc2.mult_int = ND(unsigned short); bc2.offset = ND(unsigned long);
    ASSUME(bc.offset < (1UL << 62) && bc2.offset < (1UL << 62));
    d1 = bc.offset + bc.len * bc.mult_int; d2 = bc2.offset + bc2.len * bc2.mult_int;
    LEMMA(yasm_bc_next_offset(&bc) == d1, "offset behind a bytecode");
    r = yasm_calc_bc_dist(&bc, &bc2);
    LEMMA((r == 0) == (bc.section != bc2.section), "distances exist only within a section");
    LEMMA(!r || EX(r)->v == (__int128)d2 - (__int128)d1, "distance between labels");
    CANARY;
}
void h_multiple(void)
{
    int r, c = ND_BOOL(); long m = 77;
    boot(); bc.multiple = ND_BOOL() ? (yasm_expr *)&ex_a : 0; ex_a.known = ND_BOOL(); ex_a.known_dist = ND_BOOL();
    r = yasm_bc_get_multiple(&bc, &m, c);
    LEMMA((r != 0) == (bc.multiple && (!(ex_a.known || (c && ex_a.known_dist)) || ex_a.v < 0)) && (r != 0) == (vf_err != 0), "repeat count errors");
    LEMMA(r || m == (bc.multiple ? vf_get_int((yasm_intnum *)&ex_a) : 1), "repeat count");
    bc.multiple = ND_BOOL() ? (yasm_expr *)&ex_a : 0; vf_err = 0; ex_a.known = 1;
    { int had = bc.multiple != 0; yasm_bc_finalize(&bc, 0);
      LEMMA(vf_fin_complex || vf_fin_rel || ((bc.multiple != 0) == had && (!had || EX(bc.multiple)->v == ex_a.v)), "the repeat count survives finalisation");
      LEMMA(!had || (vf_err != 0) == (vf_fin_complex || vf_fin_rel), "a repeat count must be absolute"); }
    CANARY;
}
