/* libyasm/section.c: layout (spans, thresholds, offsets, cycles) and the lists of an object */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <limits.h>
#include <ctype.h>
#include <sys/types.h>
/* the union of an expression item becomes a struct: every member keeps its own
 * storage (dropped: overlap of the members), the verifier follows the pointers */
#define union struct
#include "prelude.h"
#include "libyasm-stdint.h"
#include "libyasm/expr.h"
#undef union
static void *vf_pool(size_t n); static void *vf_repool(void *p, size_t n);
#undef yasm_xmalloc
#undef yasm_xcalloc
#undef yasm_xrealloc
#define yasm_xmalloc(n) vf_pool(n)
#define yasm_xcalloc(a, b) vf_pool((a) * (b))
#define yasm_xrealloc(p, n) vf_repool(p, n)
static char *vf_dup(const char *s);
#undef yasm__xstrdup
#define yasm__xstrdup(s) vf_dup(s)
static int vf_strcmp(const char *a, const char *b) { return a[0] != b[0] ? 1 : a[0] == 0 ? 0 : a[1] != b[1]; }
#define strcmp(a, b) vf_strcmp(a, b)
#include "libyasm/section.c"
#undef strcmp
#ifndef NT
#define NT 0
#endif
#ifndef NB1
#define NB1 3
#endif
#ifndef NB2
#define NB2 1
#endif
#ifndef SC
#define SC 0
#endif
static int vf_reported;
static char dup_[4]; static unsigned ndupd;
static char *vf_dup(const char *s) { dup_[0] = s[0]; dup_[1] = s[0] ? s[1] : 0; dup_[2] = 0; ndupd++; return dup_; }
/* ------------- stand-ins ------------- */
struct yasm_intnum { long v; };
static struct yasm_intnum ni_[16]; static unsigned nni;
static yasm_intnum *ni(long v) { LEMMA(nni < 16, "numbers"); ni_[nni].v = v; return &ni_[nni++]; }
yasm_intnum *yasm_intnum_create_uint(unsigned long v) { return ni((long)v); }
yasm_intnum *yasm_intnum_create_int(long v) { return ni(v); }
long yasm_intnum_get_int(const yasm_intnum *n) { return n->v; }
void yasm_intnum_set_int(yasm_intnum *n, long v) { n->v = v; }
static struct yasm_intnum *lastni; void yasm_intnum_destroy(yasm_intnum *n) { if (nni && n == &ni_[nni - 1]) nni--; }
#define NBC (NB1 > 4 ? 12 : 8)
static yasm_bytecode b_[NBC]; static yasm_section sec_[2]; static yasm_object obj_;
/* an expression: c + sum of sign * distance(a, b) */
typedef struct { int known; long c; unsigned nt; yasm_bytecode *a[2], *b[2]; long v[2]; } ex_;
#define EX(e) ((ex_ *)(e))
static yasm_span_term tm_[8]; static ex_ x_[4], cp_; static struct yasm_intnum xr_;
int yasm_expr__bc_dist_subst(yasm_expr **e, void *d, void (*cb)(unsigned int, yasm_bytecode *, yasm_bytecode *, void *))
{ unsigned i; for (i = 0; i < 2; i++) if (i < EX(*e)->nt) cb(i, EX(*e)->a[i], EX(*e)->b[i], d); return (int)EX(*e)->nt; }
yasm_expr *yasm_expr__copy_except(const yasm_expr *e, int except) { cp_ = *EX(e); return (yasm_expr *)&cp_; }
int yasm_expr__subst(yasm_expr *e, unsigned int n, const yasm_expr__item *it)
{ unsigned i; LEMMA(e == (yasm_expr *)&cp_ && n == cp_.nt, "terms put into a copy of the expression"); for (i = 0; i < 2; i++) if (i < n) { LEMMA(it[i].type == YASM_EXPR_INT, "number"); cp_.v[i] = it[i].data.intn->v; } return 0; }
yasm_intnum *yasm_expr_get_intnum(yasm_expr **e, int dist)
{ ex_ *x = EX(*e); LEMMA(x == &cp_ && !dist, "value of the copy"); if (!x->known) return 0; xr_.v = (long)((unsigned long)x->c + (x->nt > 0 ? (unsigned long)x->v[0] : 0) + (x->nt > 1 ? (unsigned long)x->v[1] : 0)); return &xr_; }
void yasm_expr_destroy(yasm_expr *e) {}
void yasm_value_delete(yasm_value *v) {}
void yasm_value_initialize(yasm_value *v, yasm_expr *e, unsigned int size) { static const yasm_value z; *v = z; v->abs = e; v->size = size; }
void yasm_value_init_copy(yasm_value *v, const yasm_value *o) { *v = *o; }
static yasm_bytecode *lab_[4]; struct yasm_symrec { long k; }; static struct yasm_symrec sy0_, sy1_, sy2_, sy3_;
#define SYM(i) ((i) == 0 ? &sy0_ : (i) == 1 ? &sy1_ : (i) == 2 ? &sy2_ : &sy3_)
int yasm_symrec_get_label(const yasm_symrec *s, yasm_symrec_get_label_bytecodep *p) { yasm_bytecode *l; if (s == &sy0_) l = lab_[0]; else if (s == &sy1_) l = lab_[1]; else if (s == &sy2_) l = lab_[2]; else l = lab_[3]; if (!l) return 0; *p = l; return 1; }
unsigned long yasm_bc_next_offset(yasm_bytecode *b) { return b->offset + b->len * b->mult_int; }
yasm_intnum *yasm_calc_bc_dist(yasm_bytecode *a, yasm_bytecode *b) { if (a->section != b->section) return 0; return ni((long)(yasm_bc_next_offset(b) - yasm_bc_next_offset(a))); }
static unsigned npr; static unsigned long prl[16];
void yasm_errwarn_propagate(yasm_errwarns *e, unsigned long line) { if (npr < 16) prl[npr] = line; npr++; if (vf_err) { vf_reported++; vf_err = 0; } }
/* ------------- storage ------------- */
static yasm_span sp_[6]; static unsigned nsp; static unsigned ntm; static yasm_offset_setter os_[4]; static unsigned nos; static struct { yasm_expr__item i[2]; } it_[4]; static unsigned nit; static struct { yasm_span *p[8]; size_t n; } bt_[4]; static unsigned nbt; static int btphase; static yasm_section ns_; static unsigned nns;
static void *vf_pool(size_t n)
{
    if (n == sizeof(yasm_section)) { nns++; return &ns_; }
    if (n == sizeof(yasm_span)) { LEMMA(nsp < 6, "spans"); return &sp_[nsp++]; }
    if (btphase) { LEMMA(nbt < 4 && n <= 64 && n % 8 == 0, "backtraces"); bt_[nbt].n = n; return bt_[nbt++].p; }
    if (n == sizeof(yasm_span_term)) { LEMMA(ntm < 8, "terms"); return &tm_[ntm++]; }
    if (n == sizeof(yasm_offset_setter)) { LEMMA(nos < 4, "offset setters"); return &os_[nos++]; }
    LEMMA(nit < 4 && n <= 2 * sizeof(yasm_expr__item), "items"); return &it_[nit++];
}
static void *vf_repool(void *p, size_t n)
{
    unsigned i;
    if (btphase) { for (i = 0; i < 4; i++) if (p == (void *)bt_[i].p) { LEMMA(n <= 64, "backtraces"); bt_[i].n = n; return p; } LEMMA(0, "backtrace"); }
    LEMMA(n % sizeof(yasm_span_term) == 0, "terms");
    if (!p) { LEMMA(n == sizeof(yasm_span_term) && ntm < 7, "terms"); ntm += 2; return &tm_[ntm - 2]; }     /* room for two */
    LEMMA(n == 2 * sizeof(yasm_span_term), "two terms at most"); return p;
}
/* ------------- interval tree: an enumeration of all intervals that overlap (inttree.c has its own obligations) ------------- */
static struct { long lo, hi; IntervalTreeNode n; } iv_[8]; static unsigned niv; static int treemade;
IntervalTree *IT_create(void) { treemade++; return (IntervalTree *)&treemade; }
void IT_destroy(IntervalTree *t) { treemade--; }
IntervalTreeNode *IT_insert(IntervalTree *t, long lo, long hi, void *d) { LEMMA(niv < 8 && lo <= hi, "interval"); iv_[niv].lo = lo; iv_[niv].hi = hi; iv_[niv].n.data = d; return &iv_[niv++].n; }
void IT_enumerate(IntervalTree *t, long lo, long hi, void *d, void (*f)(IntervalTreeNode *, void *)) { unsigned i; btphase = f == check_cycle; for (i = 0; i < 8; i++) if (i < niv && iv_[i].lo <= hi && lo <= iv_[i].hi) { if (f == check_cycle) check_cycle(&iv_[i].n, d); else { LEMMA(f == optimize_term_expand, "what to do"); optimize_term_expand(&iv_[i].n, d); } } btphase = 0; }
static void boot(void)
{
    static const yasm_bytecode zb; unsigned i;
    vf_ghost_init(); vf_reported = 0; nni = npr = nsp = ntm = nos = nit = nbt = nns = niv = ndupd = 0; btphase = 0; treemade = 0; lab_[0] = lab_[1] = lab_[2] = lab_[3] = 0;
    for (i = 0; i < NBC; i++) b_[i] = zb;
}
static yasm_bytecode *anybc(void) { unsigned i = ND(unsigned char) % 4; return &b_[i]; }
static void fill(void)
{
    unsigned i;
    for (i = 0; i < 4; i++) { b_[i].bc_index = ND(unsigned short); b_[i].offset = ND(unsigned); b_[i].len = ND(unsigned short); b_[i].mult_int = ND(unsigned char); b_[i].section = &sec_[0]; }
}
/* ------------- spans ------------- */
void h_add_span(void)
{
    static optimize_data o; static yasm_value v; static yasm_offset_setter os; int id = ND(int), i, n = ND_BOOL(); long a = ND(long), b = ND(long); yasm_span *s;
    boot(); TAILQ_INIT(&o.spans); o.os = &os; v.rel = SYM(0); v.abs = (yasm_expr *)&x_[0]; v.rshift = ND(unsigned char) & 63; v.curpos_rel = ND_BOOL();
    optimize_add_span(&o, &b_[0], 7, 0, 1, 2); o.os = 0; if (n) { o.os = &os; }
    optimize_add_span(&o, &b_[1], id, &v, a, b); s = TAILQ_FIRST(&o.spans); LEMMA(s && s->bc == &b_[0] && s->id == 7 && !s->depval.rel && !s->depval.abs && s->neg_thres == 1 && s->pos_thres == 2 && s->os == &os, "a span without value");
    s = TAILQ_NEXT(s, link); LEMMA(s && !TAILQ_NEXT(s, link) && s == &sp_[1] && s->bc == &b_[1] && s->id == id && s->depval.rel == v.rel && s->depval.abs == v.abs && s->depval.rshift == v.rshift && s->depval.curpos_rel == v.curpos_rel && s->neg_thres == a && s->pos_thres == b && s->os == (n ? &os : 0), "spans are kept in order with what they measure and where an ORG or ALIGN follows");
    LEMMA(s->active && s->cur_val == 0 && s->new_val == 0 && !s->rel_term && !s->terms && !s->items && s->num_terms == 0 && !s->backtrace && s->backtrace_size == 0, "nothing known yet");
    CANARY;
}
static int covers(yasm_bytecode *a, yasm_bytecode *b, unsigned long x) { return (x > a->bc_index && x <= b->bc_index) || (x > b->bc_index && x <= a->bc_index); }
#ifndef OSEC
#define OSEC 0
#define HABS 0
#endif
void h_terms(void)
{
    yasm_span *s = &sp_[0]; static const yasm_span z; unsigned i; int circ = 0, rel = ND_BOOL(), hasabs = NT || HABS, want;
    boot(); fill(); nsp = 1; *s = z; s->bc = anybc(); s->id = ND(int); s->depval.abs = hasabs ? (yasm_expr *)&x_[0] : 0; x_[0].nt = NT;
    for (i = 0; i < NT; i++) { x_[0].a[i] = anybc(); x_[0].b[i] = anybc(); if (covers(x_[0].a[i], x_[0].b[i], s->bc->bc_index)) circ = 1; }
    s->depval.rel = rel ? SYM(0) : 0; lab_[0] = ND_BOOL() ? anybc() : 0; s->depval.wrt = ND_BOOL() ? SYM(1) : 0; s->depval.seg_of = ND_BOOL(); s->depval.section_rel = ND_BOOL(); s->depval.curpos_rel = ND_BOOL();
    if (OSEC) b_[1].section = &sec_[1];
    want = rel && lab_[0] && !s->depval.wrt && !s->depval.seg_of && !s->depval.section_rel && s->depval.curpos_rel && lab_[0]->section == s->bc->section;
    span_create_terms(s);
    LEMMA(s->num_terms == NT, "a term for each distance");
    for (i = 0; i < NT; i++) LEMMA(s->terms[i].precbc == x_[0].a[i] && s->terms[i].precbc2 == x_[0].b[i] && s->terms[i].span == s && s->terms[i].subst == i && s->terms[i].cur_val == 0 && s->terms[i].new_val == (long)(yasm_bc_next_offset(x_[0].b[i]) - yasm_bc_next_offset(x_[0].a[i])) && s->items[i].type == YASM_EXPR_INT && s->items[i].data.intn && (i == 0 || s->items[i].data.intn != s->items[0].data.intn), "the distance between its two places");
    LEMMA((vf_err != 0) == (s->id <= 0 && circ), "a repeat count over its own bytecode is circular");
    LEMMA((s->rel_term != 0) == (want != 0), "a PC-relative reference within the section is measured");
    if (want) LEMMA(s->rel_term->precbc == 0 && s->rel_term->precbc2 == lab_[0] && s->rel_term->span == s && s->rel_term->subst == ~0U && s->rel_term->cur_val == 0 && s->rel_term->new_val == (long)(yasm_bc_next_offset(lab_[0]) - s->bc->offset), "from the start of its bytecode to the label");
    CANARY;
}
static long P2(void) { return ND_BOOL() ? LONG_MAX : (long)(int)ND(unsigned); }
/* a span with NT distances; returns what its value is */
static long anyspan(yasm_span *s, unsigned k)
{
    static const yasm_span z; unsigned i; long v = 0; int hasabs = NT || ND_BOOL();
    *s = z; s->bc = &b_[0]; s->id = ND(int); s->depval.abs = hasabs ? (yasm_expr *)&x_[k] : 0; x_[k].nt = NT; x_[k].known = ND_BOOL(); x_[k].c = (long)(int)ND(unsigned); s->num_terms = NT; s->terms = &tm_[2 * k]; s->items = it_[k].i;
    for (i = 0; i < NT; i++) { s->terms[i].span = s; s->terms[i].new_val = (long)(int)ND(unsigned); s->items[i].type = YASM_EXPR_INT; s->items[i].data.intn = ni(0); }
    s->depval.rel = ND_BOOL() ? SYM(0) : 0; s->depval.rshift = ND(unsigned char) & 63; if (s->depval.rel && ND_BOOL()) { s->rel_term = &tm_[5]; tm_[5].span = s; tm_[5].new_val = P2(); }
    s->cur_val = (long)(int)ND(unsigned); s->new_val = ND(long); s->neg_thres = ND(long); s->pos_thres = ND(long); s->active = 1; 
    return v;
}
static long valof(yasm_span *s)
{
    long v = 0; unsigned i;
    if (s->depval.abs) { ex_ *x = EX(s->depval.abs); if (!x->known) v = LONG_MAX; else { v = x->c; for (i = 0; i < NT; i++) v += s->terms[i].new_val; } }
    if (s->rel_term) { if (v == LONG_MAX || s->rel_term->new_val == LONG_MAX) return LONG_MAX; return v + (s->rel_term->new_val >> s->depval.rshift); }
    return s->depval.rel ? LONG_MAX : v;
}
static int exceeds(yasm_span *s, long v) { return s->id <= 0 ? v != s->cur_val : v < s->neg_thres || v > s->pos_thres; }
void h_recalc(void)
{
    yasm_span *s = &sp_[0]; long v, c0; int r;
    boot(); anyspan(s, 0); v = valof(s); c0 = s->cur_val;
    r = recalc_normal_span(s);
    LEMMA(s->new_val == v, "the value follows the current distances"); LEMMA((r != 0) == (exceeds(s, v) != 0), "expansion is due when a threshold is passed, or a repeat count changed");
    LEMMA(s->active == (v != LONG_MAX) && s->cur_val == c0, "what cannot be measured is expanded once for all");
    CANARY;
}
void h_itree_add(void)
{
    yasm_span *s = &sp_[0]; static yasm_span_term t; long i1, i2; boot(); fill(); anyspan(s, 0); t.span = s; t.precbc = ND_BOOL() ? &b_[1] : 0; t.precbc2 = ND_BOOL() ? &b_[2] : 0; b_[0].bc_index++;
    i1 = t.precbc ? (long)t.precbc->bc_index : (long)b_[0].bc_index - 1; i2 = t.precbc2 ? (long)t.precbc2->bc_index : (long)b_[0].bc_index - 1;
    optimize_itree_add((IntervalTree *)&treemade, s, &t);
    if (i1 == i2) LEMMA(niv == 0, "nothing between"); else LEMMA(niv == 1 && iv_[0].n.data == &t && iv_[0].lo == (i1 < i2 ? i1 : i2) + 1 && iv_[0].hi == (i1 < i2 ? i2 : i1), "the bytecodes between the two places");
    CANARY;
}
#ifndef RT
#define RT 0
#endif
void h_expand(void)
{
    yasm_span *s = &sp_[0]; static optimize_data o; static yasm_span_term t; yasm_span_term *p = NT ? &tm_[0] : &t; static IntervalTreeNode n; long i1, i2, n0, v; int act, due; static yasm_span other; yasm_span *qa, *qb;
    boot(); fill(); anyspan(s, 0); if (RT) { s->rel_term = p = &tm_[5]; s->depval.rel = SYM(0); p->new_val = P2(); } STAILQ_INIT(&o.QA); STAILQ_INIT(&o.QB); STAILQ_INSERT_TAIL(&o.QA, &other, linkq); other.linkq.stqe_next = 0;
    p->span = s; p->precbc = ND_BOOL() ? &b_[1] : 0; p->precbc2 = ND_BOOL() ? &b_[2] : 0; b_[0].bc_index++; if (p == &t) p->new_val = (long)(int)ND(unsigned);
    i1 = p->precbc ? (long)p->precbc->bc_index : (long)b_[0].bc_index - 1; i2 = p->precbc2 ? (long)p->precbc2->bc_index : (long)b_[0].bc_index - 1; ASSUME(i1 != i2 && p->new_val != LONG_MAX);
    act = s->active = ND(unsigned char) % 3; o.len_diff = (long)(int)ND(unsigned); n.data = p; n0 = p->new_val;
    optimize_term_expand(&n, &o);
    qa = STAILQ_NEXT(&other, linkq); qb = STAILQ_FIRST(&o.QB);
    LEMMA(p->new_val == (!act ? n0 : i1 < i2 ? n0 + o.len_diff : n0 - o.len_diff), "a distance grows with what lies between");
    v = valof(s); due = act == 1 && exceeds(s, v);
    LEMMA((qa == s) == (due && s->id <= 0) && (qa == s || !qa) && (qb == s) == (due && s->id > 0) && (qb == s || !qb), "queued once when due, repeat counts apart"); LEMMA(!due || s->active == 2, "marked as queued"); LEMMA(due || s->active == (act == 1 && v == LONG_MAX ? 0 : act), "otherwise left alone");
    CANARY;
}
/* ------------- circular repeat counts ------------- */
#ifndef NA
#define NA 0
#define NB 0
#endif
void h_cycle(void)
{
    static optimize_data o; static yasm_span_term t; static IntervalTreeNode n; unsigned i, k, na = NA, nb = NB, s, d, before = 0, want = 0, have = 0, self = 0, dep = 1; unsigned long pa = 0, pb = 0; static const yasm_span z; int used = ND_BOOL();
    boot(); for (i = 0; i < 4; i++) sp_[i] = z; btphase = 1; o.bt_changed = 0;
    o.span = &sp_[self]; t.span = &sp_[dep]; sp_[dep].id = ND(int); sp_[self].id = 0; n.data = &t; nbt = 0;
    if (na) { bt_[0].n = 8 * na; sp_[self].backtrace = bt_[0].p; sp_[self].backtrace_size = na; for (i = 0; i < na; i++) { k = 1 + ND(unsigned char) % 3; ASSUME(!(pa >> k & 1)); /* itself: an error already */ pa |= 1ul << k; bt_[0].p[i] = &sp_[k]; } }
    if (nb) { bt_[1].n = 8 * nb; sp_[dep].backtrace = bt_[1].p; sp_[dep].backtrace_size = nb; for (i = 0; i < nb; i++) { k = ND(unsigned char) & 3; ASSUME(!(pb >> k & 1)); pb |= 1ul << k; bt_[1].p[i] = &sp_[k]; } }
    nbt = 2; sp_[dep].backtrace_used = used;
    check_cycle(&n, &o);
    if (sp_[dep].id > 0) { LEMMA(!vf_err && sp_[dep].backtrace_size == (int)nb && !o.bt_changed, "only repeat counts matter"); goto out; }
    LEMMA((vf_err != 0) == (int)(pa >> dep & 1), "a repeat count that leads to itself is an error");
    want = pa | pb | 1ul << self; for (i = 0; i < 8; i++) if ((int)i < sp_[dep].backtrace_size) { yasm_span *q = sp_[dep].backtrace[i]; k = q == &sp_[0] ? 0 : q == &sp_[1] ? 1 : q == &sp_[2] ? 2 : 3; LEMMA(q == &sp_[k] && !(have >> k & 1), "each once"); have |= 1u << k; }
    LEMMA(have == want, "all that lead to a repeat count are remembered"); LEMMA(sp_[dep].backtrace == bt_[nb ? 1 : 2].p && (size_t)sp_[dep].backtrace_size * 8 <= bt_[nb ? 1 : 2].n, "in storage that is large enough");
    LEMMA(o.bt_changed == (want != pb && used), "and looked at again when already passed on");
out: CANARY;
}
/* ------------- offsets ------------- */
static int isoff[NBC]; static unsigned long newlen[NBC]; static int bcret[NBC]; static unsigned nexp; static int scen; static long jt_[NBC];
static unsigned long L0[NBC]; static int ty_[NBC]; static unsigned nlong; static int widened[NBC];
#ifndef AM
#define AM 3
#define AM2 15
#endif
#ifndef WL
#define WL 5
#endif
static unsigned long pm(unsigned i) { return ty_[i] == 4 ? AM2 : AM; }
static long alen(unsigned i, unsigned long off) { return (long)(-off & pm(i)); }
static unsigned bi(yasm_bytecode *b) { unsigned i; for (i = 0; i < NBC; i++) if (b == &b_[i]) return i; return 0; }
int yasm_bc_expand(yasm_bytecode *bc, int span, long old, long nw, long *nt, long *pt)
{
    unsigned i = bi(bc);
    if (!scen) { unsigned p = bi(bc) - 1; LEMMA(span == 1 && isoff[i] && *nt == 0 && *pt == (long)(bc->offset + bc->len * bc->mult_int) && nw == (long)yasm_bc_next_offset(&b_[p]), "the padding is found anew for the place it has"); nexp++; bc->len = newlen[i]; if (bcret[i] < 0) vf_error_set(YASM_ERROR_VALUE); return bcret[i]; }
    if (ty_[i] == 2) { LEMMA(span == 0, "span"); bc->mult_int = nw; return 1; }
    if (ty_[i] >= 3) { LEMMA(span == 1, "span"); bc->len = (unsigned long)alen(i, (unsigned long)nw); *pt = nw + (long)bc->len; return 1; }
    LEMMA(ty_[i] == 1 && span == 1 && !widened[i] && (nw < -126 || nw > 129), "a jump is widened once, when its target is out of reach"); widened[i] = 1; bc->len = WL; return 0;
}
static yasm_bytecode_callback offcb, plaincb;
static void sections(void)
{
    unsigned i; STAILQ_INIT(&obj_.sections); STAILQ_INSERT_TAIL(&obj_.sections, &sec_[0], link); STAILQ_INSERT_TAIL(&obj_.sections, &sec_[1], link); STAILQ_INIT(&sec_[0].bcs); STAILQ_INIT(&sec_[1].bcs); offcb.special = YASM_BC_SPECIAL_OFFSET; plaincb.special = YASM_BC_SPECIAL_NONE;
    for (i = 0; i <= NB1; i++) { STAILQ_INSERT_TAIL(&sec_[0].bcs, &b_[i], link); b_[i].section = &sec_[0]; b_[i].mult_int = 1; b_[i].callback = &plaincb; b_[i].line = 10 + i; }
    for (; i <= NB1 + NB2 + 1; i++) { STAILQ_INSERT_TAIL(&sec_[1].bcs, &b_[i], link); b_[i].section = &sec_[1]; b_[i].mult_int = 1; b_[i].callback = &plaincb; b_[i].line = 10 + i; }
}
void h_offsets(void)
{
    unsigned i, nx = 0; unsigned long o = 0; int r, bad = 0; boot(); sections(); scen = 0; nexp = 0;
    for (i = 1; i <= NB1 + NB2 + 1; i++) if (i != NB1 + 1) { b_[i].len = ND(unsigned); b_[i].mult_int = ND(unsigned char); b_[i].offset = ND(unsigned); isoff[i] = ND_BOOL(); b_[i].callback = isoff[i] ? &offcb : &plaincb; newlen[i] = ND(unsigned); bcret[i] = ND(unsigned char) % 3 - 1; if (isoff[i]) { nx++; if (bcret[i] < 0) bad = 1; } }
    r = update_all_bc_offsets(&obj_, 0);
    for (i = 0; i <= NB1 + NB2 + 1; i++) { if (i == 0 || i == NB1 + 1) { o = 0; LEMMA(b_[i].offset == 0, "sections start at 0"); continue; } LEMMA(b_[i].offset == o, "each bytecode comes after the one before"); if (isoff[i]) LEMMA(b_[i].len == newlen[i], "paddings"); o += b_[i].len * (unsigned long)b_[i].mult_int; }
    LEMMA(r == bad && nexp == nx && npr == nx, "each padding is found once, errors are passed on");
    CANARY;
}
/* ------------- the whole layout: NB1 bytecodes of kinds T1..: 0 plain, 1 jump, 2 repeated, 3 padding to a multiple of 4 ------------- */
#ifndef TYS
#define TYS 0
#define JTS 0
#define TA 0
#define TB 0
#endif
#ifndef LN
#define LN 3
#endif
#ifndef LO
#define LO LA
#endif
#ifndef LA
#define LA 0
#define LB 0
#endif
#ifndef CC
#define CC 0
#endif
#ifndef CE
#define CE 0
#endif
static int calcerr;
int yasm_bc_calc_len(yasm_bytecode *bc, yasm_bc_add_span_func add, void *d)
{
    static yasm_value v; static const yasm_value zv; unsigned i = bi(bc); v = zv; LEMMA(add == optimize_add_span, "spans are registered"); bc->len = L0[i];
    if (calcerr == 1 && i == 2) { vf_error_set(YASM_ERROR_VALUE); return -1; }
    if (ty_[i] == 1) { v.rel = SYM(jt_[i]); v.curpos_rel = 1; add(d, bc, 1, &v, -126, 129); }
    if (ty_[i] == 2) { bc->mult_int = 0; v.abs = (yasm_expr *)&x_[0]; add(d, bc, 0, &v, 0, 0); }
    if (ty_[i] >= 3) bc->len = (unsigned long)alen(i, bc->offset);
    return 0;
}
void h_optimize(void)
{
    static const int ty[] = {0, TYS}, jt[] = {0, JTS}; unsigned i, nj = 0; unsigned long o = 0; long c = CC;
    boot(); sections(); scen = 1; calcerr = CE; 
    for (i = 0; i < NBC; i++) { ty_[i] = i <= NB1 ? ty[i] : 0; widened[i] = 0; L0[i] = ty_[i] == 1 ? 2 : ty_[i] == 2 ? 1 : i == 1 ? (LO) : i < LN ? LA : LB; if (ty_[i] >= 3) b_[i].callback = &offcb; if (ty_[i] == 1) { lab_[nj] = &b_[jt[i]]; jt_[i] = nj; nj++; } }
    x_[0].known = 1; x_[0].c = c; x_[0].nt = 1; x_[0].a[0] = &b_[TA]; x_[0].b[0] = &b_[TB];
    yasm_object_optimize(&obj_, 0);
    LEMMA(!treemade, "storage is released");
    if (calcerr == 2) { LEMMA(vf_reported >= 1, "a repeat count over itself is diagnosed"); goto out; }
    if (calcerr) { LEMMA(vf_reported == 1, "an error stops the layout"); for (i = 1; i <= NB1; i++) LEMMA(!widened[i], "before anything is expanded"); goto out; }
    LEMMA(!vf_reported && !vf_err, "no error");
    for (i = 0; i <= NB1; i++) { if (i) { LEMMA(b_[i].offset == o, "each bytecode comes after the one before"); o += b_[i].len * (unsigned long)b_[i].mult_int; }
        if (ty_[i] == 0) LEMMA(b_[i].len == (i == 0 ? 0 : L0[i]) && b_[i].mult_int == 1, "contents keep their length");
        if (ty_[i] == 1 && !widened[i]) { long dist = (long)(yasm_bc_next_offset(&b_[jt[i]]) - b_[i].offset); LEMMA(dist >= -126 && dist <= 129 && b_[i].len == 2, "a short jump reaches its target in the final layout"); }
        if (ty_[i] == 2) LEMMA(b_[i].mult_int == c + (long)(yasm_bc_next_offset(&b_[TB]) - yasm_bc_next_offset(&b_[TA])), "a repeat count is right in the final layout");
        if (ty_[i] >= 3) LEMMA(((b_[i].offset + b_[i].len) & pm(i)) == 0 && b_[i].len <= pm(i), "a padding ends at its boundary in the final layout"); }
out: CANARY;
}
/* ------------- sections of an object ------------- */
static unsigned nmk; yasm_bytecode *yasm_bc_create_common(const yasm_bytecode_callback *cb, void *c, unsigned long l) { LEMMA(!cb && !c, "empty bytecode"); nmk++; return &b_[7]; }
static unsigned ninit; static yasm_objfmt_module om_; static yasm_objfmt_base of_; static yasm_section *inits; static unsigned long initl;
static void init_new(yasm_section *s, unsigned long l) { ninit++; inits = s; initl = l; }
void h_sections(void)
{
    static char n1[4], n2[4], q[4]; yasm_section *r, *g; int isnew = 5; unsigned long al = ND(unsigned long), line = ND(unsigned long); int code = ND_BOOL(), res = ND_BOOL(), e1, e2; unsigned cnt = ND(unsigned char) % 3; static yasm_bytecode nb; static yasm_reloc rl1, rl2;
    boot(); nmk = ninit = 0; om_.init_new_section = init_new; of_.module = &om_; obj_.objfmt = (yasm_objfmt *)&of_; n1[0] = ND(char); n2[0] = ND(char); q[0] = ND(char); n1[1] = n2[1] = q[1] = 0; ASSUME(n1[0] != n2[0]); sec_[0].name = n1; sec_[1].name = n2;
    STAILQ_INIT(&obj_.sections); if (cnt > 0) STAILQ_INSERT_TAIL(&obj_.sections, &sec_[0], link); if (cnt > 1) STAILQ_INSERT_TAIL(&obj_.sections, &sec_[1], link);
    e1 = cnt > 0 && n1[0] == q[0]; e2 = cnt > 1 && n2[0] == q[0]; b_[7].offset = 77;
    g = yasm_object_find_general(&obj_, q); LEMMA(g == (e1 ? &sec_[0] : e2 ? &sec_[1] : 0), "found by name");
    r = yasm_object_get_general(&obj_, q, al, code, res, &isnew, line);
    if (e1 || e2) LEMMA(r == g && !isnew && nns == 0 && ninit == 0, "the section of this name");
    else { LEMMA(r == &ns_ && isnew == 1 && nns == 1 && ninit == 1 && inits == r && initl == line && r->object == &obj_ && r->name == dup_ && dup_[0] == q[0] && r->align == al && r->code == code && r->res_only == res && r->def == 0 && !r->assoc_data && STAILQ_EMPTY(&r->relocs) && !r->destroy_reloc, "a new section with what was asked for");
        LEMMA(STAILQ_FIRST(&r->bcs) == &b_[7] && !STAILQ_NEXT(&b_[7], link) && b_[7].section == r && b_[7].offset == 0 && nmk == 1, "starting with an empty bytecode"); LEMMA(yasm_object_find_general(&obj_, q) == r && (cnt < 1 || STAILQ_FIRST(&obj_.sections) == &sec_[0]) && !STAILQ_NEXT(r, link) && (cnt < 1 || STAILQ_NEXT(&sec_[cnt - 1], link) == r), "at the end of the list"); }
    /* contents */
    STAILQ_INIT(&sec_[0].bcs); STAILQ_INSERT_TAIL(&sec_[0].bcs, &b_[0], link); STAILQ_INIT(&sec_[0].relocs); sec_[0].destroy_reloc = 0; b_[0].link.stqe_next = 0; nb.callback = &plaincb;
    LEMMA(yasm_section_bcs_append(&sec_[0], &nb) == &nb && nb.section == &sec_[0] && STAILQ_NEXT(&b_[0], link) == &nb && !STAILQ_NEXT(&nb, link) && yasm_section_bcs_first(&sec_[0]) == &b_[0] && yasm_section_bcs_last(&sec_[0]) == &nb, "appended");
    LEMMA(yasm_section_bcs_append(&sec_[0], 0) == 0 && !vf_err, "nothing to append"); b_[1].callback = 0; LEMMA(yasm_section_bcs_append(&sec_[0], &b_[1]) == 0 && yasm_section_bcs_last(&sec_[0]) == &nb, "empty bytecodes are dropped"); LEMMA(yasm_section_bcs_append(0, &nb) == 0 && vf_err, "no section");
    yasm_section_add_reloc(&sec_[0], &rl1, (void (*)(void *))1); yasm_section_add_reloc(&sec_[0], &rl2, (void (*)(void *))1); LEMMA(yasm_section_relocs_first(&sec_[0]) == &rl1 && (yasm_section_reloc_next)(&rl1) == &rl2 && !(yasm_section_reloc_next)(&rl2) && sec_[0].destroy_reloc == (void (*)(void *))1, "relocations in order");
    CANARY;
}
static unsigned nv; static int vret[4]; static yasm_bytecode *vb[4]; static yasm_section *vs[4]; static int vd;
static int visit(yasm_bytecode *b, void *d) { LEMMA(d == &vd && nv < 4, "visit"); vb[nv] = b; return vret[nv++]; }
static int visits(yasm_section *s, void *d) { LEMMA(d == &vd && nv < 4, "visit"); vs[nv] = s; return vret[nv++]; }
static unsigned nfin; static yasm_bytecode *fb[8], *fp[8];
void yasm_bc_finalize(yasm_bytecode *b, yasm_bytecode *p) { if (nfin < 8) { fb[nfin] = b; fp[nfin] = p; } nfin++; }
void h_traverse(void)
{
    unsigned i, stop = 99; int r, ew = ND_BOOL(); boot(); sections(); nv = nfin = 0; for (i = 0; i < 4; i++) vret[i] = (int)ND(unsigned char) - 128; for (i = 0; i < NB1; i++) if (vret[i] && stop == 99) stop = i;
    r = yasm_section_bcs_traverse(&sec_[0], ew ? (yasm_errwarns *)&vd : 0, &vd, visit);
    LEMMA(nv == (stop == 99 ? NB1 : stop + 1) && r == (stop == 99 ? 0 : vret[stop]) && npr == (ew ? nv : 0), "every bytecode up to the first that stops"); for (i = 0; i < NB1; i++) if (i < nv) LEMMA(vb[i] == &b_[i + 1] && (!ew || prl[i] == 11 + i), "in order, errors at its line");
    nv = 0; r = yasm_object_sections_traverse(&obj_, &vd, visits); LEMMA(nv == (vret[0] ? 1 : 2) && r == (vret[0] ? vret[0] : vret[1]) && vs[0] == &sec_[0] && (nv < 2 || vs[1] == &sec_[1]), "every section up to the first that stops");
    npr = 0; yasm_object_finalize(&obj_, 0); LEMMA(nfin == NB1 + NB2 && npr == nfin, "every bytecode is finalized"); for (i = 0; i < NB1; i++) LEMMA(fb[i] == &b_[i + 1] && fp[i] == &b_[i] && prl[i] == 11 + i, "after the one before it"); for (i = 0; i < NB2; i++) LEMMA(fb[NB1 + i] == &b_[NB1 + 2 + i] && fp[NB1 + i] == &b_[NB1 + 1 + i], "in every section");
    CANARY;
}
