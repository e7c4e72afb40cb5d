/* libyasm/symrec.c: symbol states */
#include "prelude.h"
#include "libyasm-stdint.h"
#include "libyasm/hamt.h"
#include <string.h>
static char xs_[4]; static int xs_n;
static char *vf_strdup(const char *s) { xs_[0] = s[0]; xs_[1] = s[0] ? s[1] : 0; xs_[2] = 0; xs_[3] = 0; xs_n++; return xs_; }
#undef yasm__xstrdup
#define yasm__xstrdup(s) vf_strdup(s)
#undef tolower
#define tolower(c) vf_lower(c)
static int vf_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#ifndef CS
#define CS 1
#endif
#ifndef KIND
#define KIND 0
#endif
#include "libyasm/symrec.c"
/* ---- the table: at most one symbol that matters, found by name ---- */
static yasm_symtab tab; static yasm_symrec R; static char rname[4]; static int present; static yasm_symrec fresh_, *ins_;
static int seq(const char *a, const char *b) { return a[0] == b[0] && (a[0] == 0 || (a[1] == b[1] && (a[1] == 0 || a[2] == b[2]))); }
void *HAMT_insert(HAMT *h, const char *str, void *data, int *replace, void (*del)(void *))
{
    if (present && seq(R.name, str)) { if (*replace) { LEMMA(0, "a symbol is never replaced"); } return &R; }
    *replace = 1; ins_ = data; return data;
}
void *HAMT_search(HAMT *h, const char *str) { return present && seq(R.name, str) ? &R : 0; }
HAMT *HAMT_create(int n, void (*e)(const char *, unsigned int, const char *)) { return 0; }
void HAMT_destroy(HAMT *h, void (*d)(void *)) {}
static yasm_symrec *tv[3]; static unsigned tn;
int HAMT_traverse(HAMT *h, void *d, int (*f)(void *, void *)) { unsigned i; for (i = 0; i < tn; i++) { int r = symtab_parser_finalize_checksym(tv[i], d); if (r) return r; } return 0; }
const HAMTEntry *HAMT_first(const HAMT *h) { return 0; }
const HAMTEntry *HAMT_next(const HAMTEntry *p) { return 0; }
void *HAMTEntry_get_data(const HAMTEntry *e) { return 0; }
static unsigned pn; static unsigned long pl[8]; static int perr[8];
void yasm_errwarn_propagate(yasm_errwarns *ew, unsigned long line) { LEMMA(pn < 8, "propagated"); pl[pn] = line; perr[pn] = vf_err; pn++; vf_err = 0; }
static unsigned addn; static yasm_bytecode *addbc; static yasm_symrec *addsym;
void yasm_bc__add_symrec(yasm_bytecode *bc, yasm_symrec *s) { addn++; addbc = bc; addsym = s; }
static long ebuf_[16], bbuf_[8][2];
#define EXPR ((yasm_expr *)ebuf_)
#define BCP(i) ((yasm_bytecode *)bbuf_[i])
yasm_intnum *yasm_intnum_create_uint(unsigned long i) { LEMMA(i == 0, "absolute zero"); return 0; }
yasm_expr__item *yasm_expr_int(yasm_intnum *i) { return 0; }
yasm_expr *yasm_expr_create(yasm_expr_op op, yasm_expr__item *a, yasm_expr__item *b, unsigned long l) { return EXPR; }
void yasm_expr_destroy(yasm_expr *e) {}
void yasm_expr_print(const yasm_expr *e, FILE *f) {}
void yasm_vps_destroy(yasm_valparamhead *h) {}
void yasm_vps_print(const yasm_valparamhead *h, FILE *f) {}
void yasm_section_print(const yasm_section *s, FILE *f, int i, int p) {}
void yasm_bc_print(const yasm_bytecode *s, FILE *f, int i) {}
yasm_section *yasm_bc_get_section(yasm_bytecode *bc) { return 0; }
void yasm__assoc_data_destroy(yasm__assoc_data *a) {}
void yasm__assoc_data_print(const yasm__assoc_data *a, FILE *f, int i) {}
static yasm__assoc_data *ad_in; static const yasm_assoc_data_callback *ad_cb; static void *ad_d;
void *yasm__assoc_data_get(yasm__assoc_data *a, const yasm_assoc_data_callback *cb) { ad_in = a; ad_cb = cb; return ad_d; }
yasm__assoc_data *yasm__assoc_data_add(yasm__assoc_data *a, const yasm_assoc_data_callback *cb, void *d) { ad_in = a; ad_cb = cb; ad_d = d; return (yasm__assoc_data *)bbuf_[7]; }

static const char segs[2][2];
static yasm_symrec g0;      /* before */
static char nm[4], want[4]; static int isR;
static void any_rec(yasm_symrec *r, char *n)
{
    r->name = n; r->type = ND(unsigned char) % 5; r->status = ND(unsigned char) & 15; r->visibility = ND(unsigned char) & 15;
    r->def_line = ND(unsigned long); r->decl_line = ND(unsigned long); r->use_line = ND(unsigned long);
    r->value.precbc = ND_BOOL() ? BCP(0) : (yasm_bytecode *)0; r->size = ND(unsigned); r->segment = ND_BOOL() ? segs[0] : (char *)0; r->assoc_data = ND_BOOL() ? (yasm__assoc_data *)bbuf_[5] : (yasm__assoc_data *)0;
}
static char pick(unsigned char c) { switch (c & 7) { case 0: return 0; case 1: return 'a'; case 2: return 'A'; case 3: return 'z'; case 4: return 'Z'; case 5: return '@'; case 6: return '['; default: return 'b'; } }
static void boot(void)
{
    unsigned i;
    vf_ghost_init(); pn = 0; addn = 0; ins_ = 0; tab.case_sensitive = CS; present = ND_BOOL();
    rname[0] = pick(ND(unsigned char)); rname[1] = rname[0] ? pick(ND(unsigned char)) : 0; rname[2] = 0;
    if (!tab.case_sensitive) for (i = 0; i < 2; i++) rname[i] = vf_lower(rname[i]);     /* a case-insensitive table holds lower case names */
    any_rec(&R, rname); g0 = R;
    nm[0] = pick(ND(unsigned char)); nm[1] = nm[0] ? pick(ND(unsigned char)) : 0; nm[2] = 0;
    for (i = 0; i < 3; i++) want[i] = tab.case_sensitive ? nm[i] : vf_lower(nm[i]);
    isR = present && seq(want, rname);
}
#define KEPT(a, b) ((a)->name == (b)->name && (a)->assoc_data == (b)->assoc_data)
#define SAMEREC(a, b) (KEPT(a, b) && (a)->type == (b)->type && (a)->status == (b)->status && (a)->visibility == (b)->visibility && (a)->def_line == (b)->def_line && (a)->decl_line == (b)->decl_line \
    && (a)->use_line == (b)->use_line && (a)->value.precbc == (b)->value.precbc && (a)->size == (b)->size && (a)->segment == (b)->segment)
/* the record a function works on, with what it held before */
static yasm_symrec old_;
static void found(yasm_symrec *r, int in_table)
{
    LEMMA(r == &R ? (isR && in_table) : !(isR && in_table), "the same name (by the case rules) is the same symbol, another name another");
    if (r == &R) { old_ = g0; LEMMA(KEPT(r, &g0), "name and attached data stay"); }
    else {
        LEMMA(SAMEREC(&R, &g0), "other symbols are left alone");
        LEMMA(seq(r->name, want) && (in_table ? ins_ == r : (ins_ == 0 && tab.non_table_syms.slh_first->rec == r)), "a new symbol is entered under its name");
        old_.type = SYM_UNKNOWN; old_.status = in_table ? 0 : YASM_SYM_NOTINTABLE; old_.visibility = 0; old_.def_line = 0; old_.decl_line = 0; old_.use_line = 0; old_.size = 0; old_.segment = 0; old_.assoc_data = 0; old_.name = r->name;
        old_.value = r->value;
    }
}
void h_use(void)
{
    yasm_symrec *r; unsigned long line = ND(unsigned long);
    boot(); r = yasm_symtab_use(&tab, nm, line); found(r, 1);
    old_.status |= YASM_SYM_USED; if (!old_.use_line) old_.use_line = line;
    LEMMA(SAMEREC(r, &old_), "using a symbol only records the use and its first line"); LEMMA(!vf_err && !vf_nwarn, "quiet");
    CANARY;
}
void h_get(void)
{
    yasm_symrec *r;
    boot(); r = yasm_symtab_get(&tab, nm);
    LEMMA(r == (isR ? &R : (yasm_symrec *)0) && SAMEREC(&R, &g0) && !ins_, "looking a symbol up finds it by the case rules and creates nothing");
    CANARY;
}
void h_define(void)
{
    yasm_symrec *r; unsigned long line = ND(unsigned long); unsigned k, in = 1, ok; yasm_sym_vis vis = ND(unsigned char) & 15; yasm_bytecode *bc = ND_BOOL() ? BCP(1) : (yasm_bytecode *)0;
    k = KIND; boot();
    switch (k) {
        case 0: r = yasm_symtab_define_equ(&tab, nm, EXPR, line); break;
        case 1: r = yasm_symtab_define_label(&tab, nm, bc, 1, line); break;
        case 2: in = 0; r = yasm_symtab_define_label(&tab, nm, bc, 0, line); break;
        case 3: in = 0; r = yasm_symtab_define_curpos(&tab, nm, bc, line); break;
        default: line = 0; r = yasm_symtab_define_special(&tab, nm, vis); break;
    }
    found(r, in); ok = !(old_.status & YASM_SYM_DEFINED);
    if (!ok) {
        LEMMA(vf_err == YASM_ERROR_GENERAL && SAMEREC(r, &old_) && !addn, "a second definition is an error and changes nothing");
    } else {
        LEMMA(!vf_err && vf_nwarn == ((old_.visibility & YASM_SYM_EXTERN) ? 1 : 0), "a definition of a symbol declared external is warned of");
        old_.def_line = line; old_.size = 0; old_.segment = 0; old_.status |= YASM_SYM_DEFINED;
        old_.type = k == 0 ? SYM_EQU : k <= 2 ? SYM_LABEL : k == 3 ? SYM_CURPOS : SYM_SPECIAL;
        if (k == 0) { old_.value.expn = EXPR; old_.status |= YASM_SYM_VALUED; LEMMA(yasm_symrec_get_equ(r) == EXPR, "an EQU has the expression given"); }
        else if (k == 4) { old_.status |= YASM_SYM_VALUED; old_.visibility = vis; }
        else {
            yasm_symrec_get_label_bytecodep p; old_.value.precbc = bc;
            LEMMA(yasm_symrec_get_label(r, &p) == (bc != 0) && (!bc || p == bc), "a label is at the place given");
            LEMMA(addn == (k == 1 && bc != 0) && (!addn || (addbc == bc && addsym == r)), "a table label is recorded with its place");
        }
        LEMMA(SAMEREC(r, &old_), "a definition sets kind, value and line, and nothing else");
    }
    CANARY;
}
static void declare_spec(yasm_sym_vis vis, unsigned long line, int quiet)
{
    int ec = old_.visibility & (YASM_SYM_EXTERN | YASM_SYM_COMMON), ok;
    ok = vis == YASM_SYM_GLOBAL || (!(old_.status & YASM_SYM_DEFINED) && (!ec || (vis & ec)));
    if (ok) { old_.decl_line = line; old_.visibility |= vis; }
    LEMMA((vf_err == 0) == ok, "declarations that contradict a definition or an earlier declaration are errors, all others are accepted");
}
void h_declare(void)
{
    yasm_symrec *r; unsigned long line = ND(unsigned long); yasm_sym_vis vis;
    vis = 1 << (ND(unsigned char) & 3);
    boot(); ASSUME((R.visibility & (YASM_SYM_EXTERN | YASM_SYM_COMMON)) != (YASM_SYM_EXTERN | YASM_SYM_COMMON));
    r = yasm_symtab_declare(&tab, nm, vis, line); found(r, 1);
    declare_spec(vis, line, 0); LEMMA(SAMEREC(r, &old_), "a declaration adds its visibility and sets its line, and nothing else");
    LEMMA((r->visibility & (YASM_SYM_EXTERN | YASM_SYM_COMMON)) != (YASM_SYM_EXTERN | YASM_SYM_COMMON), "no symbol is both external and common");
    CANARY;
}
void h_finalize(void)
{
    static yasm_symrec A, B, A0, B0; static char an[4] = "a", bn[4] = "b"; int ue = ND_BOOL(), ua, ub; unsigned k = 0; unsigned long first = ULONG_MAX;
    boot(); any_rec(&A, an); any_rec(&B, bn); ASSUME(A.use_line < ULONG_MAX && B.use_line < ULONG_MAX); A0 = A; B0 = B; tv[0] = &A; tv[1] = &B; tn = 2;
#define UNDEF(s) (((s).status & YASM_SYM_USED) && !((s).status & YASM_SYM_DEFINED) && !((s).visibility & (YASM_SYM_EXTERN | YASM_SYM_COMMON)))
    ua = UNDEF(A); ub = UNDEF(B);
    yasm_symtab_parser_finalize(&tab, ue, 0);
    if (ue) { if (ua) A0.visibility |= YASM_SYM_EXTERN; if (ub) B0.visibility |= YASM_SYM_EXTERN; LEMMA(pn == 0 && !vf_err && !vf_nerr, "undefined symbols become external when asked for"); }
    else {
        if (ua) { LEMMA(k < pn && pl[k] == A0.use_line && perr[k], "every undefined symbol is reported at its first use"); k++; first = A0.use_line; }
        if (ub) { LEMMA(k < pn && pl[k] == B0.use_line && perr[k], "every undefined symbol is reported at its first use"); k++; if (B0.use_line < first) first = B0.use_line; }
        if (k) { LEMMA(pn == k + 1 && pl[k] == first && perr[k], "with one note at the first of them"); } else LEMMA(pn == 0 && !vf_nerr, "no complaint when every used symbol is defined, external or common");
    }
    LEMMA(SAMEREC(&A, &A0) && SAMEREC(&B, &B0), "symbols are otherwise unchanged");
    CANARY;
}
void h_query(void)
{
    yasm_symrec_get_label_bytecodep p; int x;
    boot();
    LEMMA(yasm_symrec_get_name(&R) == rname && yasm_symrec_get_visibility(&R) == g0.visibility && yasm_symrec_get_status(&R) == g0.status, "name, visibility, status");
    LEMMA(yasm_symrec_get_def_line(&R) == g0.def_line && yasm_symrec_get_decl_line(&R) == g0.decl_line && yasm_symrec_get_use_line(&R) == g0.use_line, "lines");
    LEMMA(yasm_symrec_get_equ(&R) == (g0.type == SYM_EQU && (g0.status & YASM_SYM_VALUED) ? g0.value.expn : (yasm_expr *)0), "only a valued EQU has an expression");
    x = yasm_symrec_get_label(&R, &p);
    LEMMA((x != 0) == ((g0.type == SYM_LABEL || g0.type == SYM_CURPOS) && g0.value.precbc) && (!x || p == g0.value.precbc), "only a label has a place");
    LEMMA((yasm_symrec_is_abs(&R) != 0) == (g0.def_line == 0 && g0.type == SYM_EQU && rname[0] == 0) && (yasm_symrec_is_special(&R) != 0) == (g0.type == SYM_SPECIAL) && (yasm_symrec_is_curpos(&R) != 0) == (g0.type == SYM_CURPOS), "kinds");
    LEMMA(SAMEREC(&R, &g0), "queries change nothing");
    { int s = ND(int); yasm_symrec_set_size(&R, s); LEMMA(yasm_symrec_get_size(&R) == s, "size"); g0.size = s; }
    yasm_symrec_set_segment(&R, segs[1]); g0.segment = segs[1]; LEMMA(yasm_symrec_get_segment(&R) == segs[1] && SAMEREC(&R, &g0), "segment");
    CANARY;
}
void h_abs(void)
{
    yasm_symrec *r;
    boot(); nm[0] = 0; want[0] = 0; isR = present && rname[0] == 0;
    r = yasm_symtab_abs_sym(&tab); found(r, 1);
    LEMMA(yasm_symrec_is_abs(r) && yasm_symrec_get_equ(r) == EXPR && (r->status & (YASM_SYM_DEFINED | YASM_SYM_USED)) == (YASM_SYM_DEFINED | YASM_SYM_USED), "the absolute symbol is zero");
    CANARY;
}
void h_global_name(void)
{
    static yasm_object ob; static char pre[3], suf[3]; char *g; unsigned i, n = 0; char e[8];
    boot(); pre[0] = pick(ND(unsigned char)); pre[1] = 0; suf[0] = pick(ND(unsigned char)); suf[1] = 0; ob.global_prefix = pre; ob.global_suffix = suf;
    if (g0.visibility & 7) { if (pre[0]) e[n++] = pre[0]; for (i = 0; rname[i]; i++) e[n++] = rname[i]; if (suf[0]) e[n++] = suf[0]; }
    else for (i = 0; rname[i]; i++) e[n++] = rname[i];
    e[n] = 0;
    g = yasm_symrec_get_global_name(&R, &ob);
    for (i = 0; i < 5; i++) if (i <= n) LEMMA(g[i] == e[i], "visible names carry the object's prefix and suffix, local names do not");
    CANARY;
}
