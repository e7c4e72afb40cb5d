/* data directives: bc-data.c */
#include "prelude.h"
#include "libyasm-stdint.h"
#include "libyasm/coretype.h"
#include "libyasm/intnum.h"
#include "libyasm/expr.h"
#include "libyasm/value.h"
#include "libyasm/bytecode.h"
#include "libyasm/arch.h"
#include "vf_int.h"
/* collaborators: a value is written as size bytes that depend on the value
 * (integer conversion is C03/C04's subject) */
#define VB(n, i) ((unsigned char)(EX(n)->v * 16 + (i)))
static int vf_bad_call, vf_warn_asked; static unsigned vf_leb_n; static yasm_bytecode *vf_thebc; static long vf_arch_[4];
#define vf_arch (*(yasm_arch *)vf_arch_)
static unsigned vf_size_leb(const yasm_intnum *n, int sign) { return 1 + ((unsigned)EX(n)->v + (unsigned)(sign != 0)) % 3; }
static unsigned long vf_get_leb(const yasm_intnum *n, unsigned char *p, int sign) { unsigned i, k = vf_size_leb(n, sign); for (i = 0; i < k; i++) p[i] = VB(n, i); return k; }
static void vf_get_sized(const yasm_intnum *n, unsigned char *p, size_t d, size_t vs, int sh, int big, int warn) { unsigned i; if (d * 8 != vs || sh || big || !warn) vf_bad_call = 1; for (i = 0; i < d; i++) p[i] = VB(n, i); }
static int vf_int_tobytes(yasm_arch *a, const yasm_intnum *n, unsigned char *p, size_t d, size_t vs, int sh, const yasm_bytecode *b, int warn)
{ unsigned i; if (a != &vf_arch || d * 8 != vs || sh || !warn) vf_bad_call = 1; for (i = 0; i < d; i++) p[i] = VB(n, i); return 0; }
#define yasm_intnum_size_leb128 vf_size_leb
#define yasm_intnum_get_leb128 vf_get_leb
#define yasm_intnum_get_sized vf_get_sized
#undef yasm_arch_intnum_tobytes
#define yasm_arch_intnum_tobytes vf_int_tobytes
static void vf_value_init(yasm_value *v, yasm_expr *e, unsigned size) { v->abs = e; v->rel = 0; v->wrt = 0; v->size = (unsigned char)size; v->sign = 0; }
#define yasm_value_initialize vf_value_init
#define yasm_value_delete(v) ((void)(v))
static int vf_fin_rel, vf_fin_complex;
static int vf_finalize_expr(yasm_value *v, yasm_expr *e, yasm_bytecode *p, unsigned size)
{ v->abs = e && EX(e)->known && EX(e)->v == 0 ? 0 : e; v->rel = vf_fin_rel ? (yasm_symrec *)&vf_fin_rel : 0; return vf_fin_complex; }
#define yasm_value_finalize_expr vf_finalize_expr
static unsigned vf_nfin;
static int vf_finalize(yasm_value *v, yasm_bytecode *p) { vf_nfin++; return 0; }
#define yasm_value_finalize vf_finalize
static vf_ex ex_zero;
static yasm_expr__item *vf_item_int(yasm_intnum *n) { return (yasm_expr__item *)n; }
#define yasm_expr_int vf_item_int
static yasm_intnum *vf_create_uint(unsigned long v) { ex_zero.known = ex_zero.known_dist = 1; ex_zero.v = v; return (yasm_intnum *)&ex_zero; }
#define yasm_intnum_create_uint vf_create_uint
static yasm_expr *vf_create(yasm_expr_op op, yasm_expr__item *l, yasm_expr__item *r, unsigned long line) { return (yasm_expr *)l; }
#define yasm_expr_create vf_create
static yasm_bytecode bc;
static yasm_bytecode *vf_create_common(const yasm_bytecode_callback *cb, void *c, unsigned long line) { bc.callback = cb; bc.contents = c; bc.line = line; bc.len = 0; bc.multiple = 0; return &bc; }
#define yasm_bc_create_common vf_create_common
static int vf_expand_common(yasm_bytecode *b, int s, long o, long n, long *x, long *y) { return 0; }
#define yasm_bc_expand_common vf_expand_common
#define yasm_expr_destroy(e) ((void)(e))
static void vf_vprint(const yasm_value *v, FILE *f, int i) {}
#define yasm_value_print vf_vprint
#define yasm_expr_print(e, f) ((void)0)
/* allocation from a pool, with a guard byte behind every block */
/* not a two-dimensional array: CBMC 6.11 misreads a row of a two-dimensional char array
 * through a pointer with a symbolic index */
static unsigned char pool0[64], pool1[64], pool2[64], pool3[64], pool4[64], pool5[64], pool6[64], pool7[64]; static unsigned char *const pool[8] = {pool0, pool1, pool2, pool3, pool4, pool5, pool6, pool7}; static unsigned long poolsz[8]; static unsigned npool; static unsigned ndpool, nbpool;
static void *vf_pool(unsigned long n);
#undef yasm_xmalloc
#define yasm_xmalloc(n) vf_pool(n)
/* the union of a data item becomes a struct: every member keeps its own storage
 * (dropped: overlap of the members) so that the verifier can fold constants */
#define union struct
#include "libyasm/bc-data.c"
#undef union
static yasm_dataval dpool[12]; static bytecode_data bpool[2];
static void *vf_pool(unsigned long n)
{
    if (n == sizeof(yasm_dataval)) { ASSUME(ndpool < 12); return &dpool[ndpool++]; }
    if (n == sizeof(bytecode_data)) { ASSUME(nbpool < 2); return &bpool[nbpool++]; }
    ASSUME(npool < 8 && n < 64); poolsz[npool] = n; pool[npool][n] = 0xEE; return pool[npool++];
}

#ifndef NI
#define NI 2
#endif
static vf_ex val[NI], mul[NI]; static yasm_dataval item[NI]; static unsigned char raw0[4], raw1[4], raw2[4]; static unsigned char *const raw[3] = {raw0, raw1, raw2};
static yasm_value *ov_v[8]; static unsigned ov_n[8], ov_c; static unsigned long ov_off[8]; static int ov_fail;
static struct { int block, it; unsigned char b; int unknown; } xs[64], gs[64]; static unsigned nx, ng;
#define PUT(s, n, bl, i, by, un) do { if (n < 64) { s[n].block = bl; s[n].it = i; s[n].b = by; s[n].unknown = un; n++; } } while (0)
static void boot(void)
{
    unsigned i;
    vf_ghost_init(); vf_bad_call = 0; vf_fin_rel = vf_fin_complex = 0; vf_nfin = 0; npool = ndpool = nbpool = 0; nx = ng = 0; ov_c = 0;
    for (i = 0; i < NI; i++) { val[i].known = val[i].known_dist = 1; mul[i].known = mul[i].known_dist = 1; mul[i].v = 2; item[i].multiple = 0; }
}
static void syms(void) { unsigned i; for (i = 0; i < NI; i++) vf_nd_bytes(raw[i], 4); }
/* the shapes of an item: type, length (RAW) or known (values); all of them are enumerated */
static const struct { int type; unsigned len; } shape[] = { {DV_VALUE,1}, {DV_RAW,3}, {DV_VALUE,0}, {DV_RAW,4}, {DV_RESERVE,0}, {DV_EMPTY,0}, {DV_RAW,0}, {DV_RAW,1}, {DV_RAW,2}, {DV_SLEB128,1}, {DV_ULEB128,1}, {DV_SLEB128,0} };
#define NSHAPE 12
static void set_item(unsigned i, unsigned s, int mult, unsigned v)
{
    item[i].type = shape[s].type; item[i].multiple = mult ? (yasm_expr *)&mul[i] : (yasm_expr *)0; val[i].v = v; val[i].known = val[i].known_dist = (int)shape[s].len;
    if (shape[s].type == DV_RAW) { item[i].data.raw.contents = raw[i]; item[i].data.raw.len = shape[s].len; }
    else vf_value_init(&item[i].data.val, (yasm_expr *)&val[i], 0);
}
static void create_one(unsigned size, int az, int warch)
{
    static yasm_datavalhead h; static yasm_dataval cp[NI]; unsigned i, j, len; yasm_bytecode *b; bytecode_data *d; yasm_dataval *o; unsigned cnt[NI];
    yasm_dvs_initialize(&h);
    for (i = 0; i < NI; i++) {
        int blk = item[i].multiple ? (int)i + 1 : 0;
        cp[i] = item[i]; yasm_dvs_append(&h, &cp[i]);
        switch (item[i].type) {
            case DV_EMPTY: break;
            case DV_VALUE: case DV_ULEB128: case DV_SLEB128:
                if (val[i].known && item[i].type == DV_VALUE && (warch || size == 1)) { for (j = 0; j < size; j++) PUT(xs, nx, blk, i, VB(&val[i], j), 0); }
                else if (val[i].known && item[i].type != DV_VALUE) { len = vf_size_leb((yasm_intnum *)&val[i], item[i].type == DV_SLEB128); for (j = 0; j < len; j++) PUT(xs, nx, blk, i, VB(&val[i], j), 0); }
                else PUT(xs, nx, blk, i, 0, 1 + (int)item[i].type);
                break;
            case DV_RAW:
                len = (unsigned)item[i].data.raw.len;
                for (j = 0; j < (len + size - 1) / size * size; j++) PUT(xs, nx, blk, i, j < len ? raw[i][j] : 0, 0);
                break;
            case DV_RESERVE: for (j = 0; j < size; j++) PUT(xs, nx, blk, i, 0, 0); break;
        }
        if (az) PUT(xs, nx, 0, i, 0, 0);
    }
    b = yasm_bc_create_data(&h, size, az, warch ? &vf_arch : (yasm_arch *)0, 7);
    d = (bytecode_data *)b->contents;
    LEMMA(b->line == 7 && bc_data_item_size(b) == (int)size, "line and item size");
    LEMMA(!vf_bad_call, "integers are converted at the item size, with warnings");
    for (i = 0; i < NI; i++) cnt[i] = 0;
    STAILQ_FOREACH(o, &d->datahead, link) {
        int blk = 0; unsigned hasval;
        for (i = 0; i < NI; i++) if (o->multiple == (yasm_expr *)&mul[i]) { blk = (int)i + 1; cnt[i]++; }
        LEMMA(blk != 0 || o->multiple == 0, "repeat counts come from the items");
        if (o->type == DV_RAW) { for (j = 0; j < o->data.raw.len; j++) PUT(gs, ng, blk, 0, o->data.raw.contents[j], 0); }
        else {
            PUT(gs, ng, blk, 0, 0, 1 + (int)o->type); hasval = 0;
            for (i = 0; i < NI; i++) if (o->data.val.abs == (yasm_expr *)&val[i]) { hasval = 1; LEMMA(o->multiple == item[i].multiple, "value keeps its repeat count"); }
            LEMMA(hasval && (o->type != DV_VALUE || o->data.val.size == size * 8), "an unresolved value keeps its item and size");
        }
    }
    LEMMA(ng == nx, "number of data bytes");
    for (i = 0; i < nx && i < ng; i++) LEMMA(gs[i].b == xs[i].b && gs[i].unknown == xs[i].unknown && gs[i].block == xs[i].block, "data bytes, in order, with their repeat counts");
    for (i = 0; i < NI; i++) LEMMA(cnt[i] <= 1, "a repeated item is repeated as a whole");
    for (i = 0; i < npool; i++) LEMMA(pool[i][poolsz[i]] == 0xEE, "nothing is written behind the data");
}
#ifndef SIZE
#define SIZE 1
#define AZ 0
#define WARCH 1
#endif
#ifndef SH0
#define SH0 0
#endif
#ifndef SH2
#define SH2 0
#endif
/* creation: the items in order, converted, padded and terminated as asked */
void h_create(void)
{
    unsigned a, m;
    syms();
    for (a = 0; a < NSHAPE; a++) for (m = 0; m < 4; m++) {
        boot(); set_item(0, SH0, m & 1, 5); if (NI > 1) set_item(NI > 1, a, m >> 1, 10);
        if (NI > 2) set_item(2 % NI, SH2, m & 1, 12);
        create_one(SIZE, AZ, WARCH);
    }
    CANARY;
}
/* layout length and output */
static int vf_output_value(yasm_value *v, unsigned char *p, unsigned n, unsigned long off, yasm_bytecode *b, int warn, void *d)
{ unsigned i; if (ov_c < 8) { ov_v[ov_c] = v; ov_n[ov_c] = n; ov_off[ov_c] = off; } ov_c++; if (b != &bc || !warn || d != (void *)&val[0]) vf_bad_call = 1; for (i = 0; i < n; i++) p[i] = VB(v->abs, i); return ov_fail; }
static void output_one(void)
{
    static unsigned char buf[100]; static bytecode_data d; unsigned i, j, len, nd = 0; int m, r, neg = 0; unsigned char *p = buf;
    yasm_dvs_initialize(&d.datahead);
    for (i = 0; i < NI; i++) {
        yasm_dvs_append(&d.datahead, &item[i]);
        m = item[i].multiple ? (int)mul[i].v : 1; if (m < 0) neg = 1;
        for (; m > 0; m--) switch (item[i].type) {
            case DV_EMPTY: break;
            case DV_VALUE: nd++; for (j = 0; j < item[i].data.val.size / 8u; j++) PUT(xs, nx, 0, i, VB(&val[i], j), 0); break;
            case DV_RAW: for (j = 0; j < item[i].data.raw.len; j++) PUT(xs, nx, 0, i, raw[i][j], 0); break;
            case DV_ULEB128: case DV_SLEB128: len = vf_size_leb((yasm_intnum *)&val[i], item[i].type == DV_SLEB128); for (j = 0; j < len; j++) PUT(xs, nx, 0, i, VB(&val[i], j), 0); break;
            case DV_RESERVE: for (j = 0; j < item[i].data.val.size / 8u; j++) PUT(xs, nx, 0, i, 0, 0); break;
        }
    }
    d.item_size = 1; bc.contents = &d; bc.len = 3;
    r = bc_data_calc_len(&bc, 0, 0);
    LEMMA(neg == (vf_err != 0), "a negative repeat count is reported");
    LEMMA(neg || (r == 0 && bc.len == 3 + nx), "announced length");
    if (!neg) {
        r = bc_data_tobytes(&bc, &p, buf, &val[0], vf_output_value, 0);
        LEMMA((r != 0) == (ov_fail && nd > 0), "fails only when a value cannot be written");
        LEMMA(!vf_bad_call, "values are handed on with bytecode, warnings and context");
        if (!ov_fail) {
            LEMMA(p == buf + nx, "as many bytes as announced");
            LEMMA(ov_c == nd, "every value is written once per repetition");
            for (i = 0; i < nx; i++) LEMMA(buf[i] == xs[i].b, "bytes in order");
            for (i = 0; i < ov_c && i < 8; i++) LEMMA(ov_n[i] == ov_v[i]->size / 8u && ov_off[i] < nx, "size and place of values");
        }
    }
}
void h_output(void)
{
    unsigned a, k; int m;
    syms();
    for (k = 0; k < 2; k++) for (a = 0; a < NSHAPE; a++) for (m = -2; m <= 3; m++) {
        boot(); ov_fail = (a == 0 && k);
        set_item(0, a, m > -2, k); mul[0].v = m; if (NI > 1) { set_item(NI > 1, SH0, k, k); mul[NI > 1].v = 2; }
        for (unsigned i = 0; i < NI; i++) { val[i].known = val[i].known_dist = 1; if (item[i].type != DV_RAW) item[i].data.val.size = item[i].type == DV_ULEB128 || item[i].type == DV_SLEB128 ? 0 : (k + i) & 1 ? 8 : 16; }
        output_one();
    }
    CANARY;
}
static void ndtypes(void)
{
    unsigned i;
    boot(); syms();
    for (i = 0; i < NI; i++) {
        val[i].known = val[i].known_dist = ND_BOOL(); mul[i].known = mul[i].known_dist = ND_BOOL(); mul[i].v = (__int128)(ND(unsigned char) % 5) - 1;
        item[i].multiple = ND_BOOL() ? (yasm_expr *)&mul[i] : (yasm_expr *)0; item[i].type = ND(unsigned) % 6; vf_value_init(&item[i].data.val, (yasm_expr *)&val[i], 0);
    }
}
void h_final(void)
{
    bytecode_data d; unsigned i, nv = 0, neg = 0; int nm = 0, notc = 0;
    ndtypes(); yasm_dvs_initialize(&d.datahead); vf_fin_rel = ND_BOOL(); vf_fin_complex = ND_BOOL();
    for (i = 0; i < NI; i++) {
        yasm_dvs_append(&d.datahead, &item[i]); if (notc) continue; if (item[i].type == DV_VALUE) nv++;
        if ((item[i].type == DV_ULEB128 || item[i].type == DV_SLEB128) && !val[i].known) notc = 1;
        if (!notc && item[i].multiple) nm++;
    }
    bc.contents = &d;
    bc_data_finalize(&bc, 0);
    LEMMA(vf_nfin == nv, "every value is finalised");
    LEMMA((vf_err != 0) == (notc || (nm > 0 && (vf_fin_rel || vf_fin_complex))), "LEB128 values and repeat counts must be constant");
    CANARY;
}
void h_final1(void)     /* a repeat count keeps its value, zero included */
{
    bytecode_data d; int had;
    ndtypes(); yasm_dvs_initialize(&d.datahead); item[0].type = DV_RESERVE; mul[0].known = mul[0].known_dist = ND_BOOL(); had = item[0].multiple != 0;
    yasm_dvs_append(&d.datahead, &item[0]); bc.contents = &d;
    bc_data_finalize(&bc, 0);
    LEMMA((item[0].multiple != 0) == had && (!had || (EX(item[0].multiple)->v == mul[0].v && EX(item[0].multiple)->known == mul[0].known)), "repeat count keeps its value");
    CANARY;
}
