/* libyasm/errwarn.c: error indicator, warning queue, sorted diagnostics list */
#define VF_REAL_ERRWARN 1
#include "prelude.h"
#include "libyasm-stdint.h"
#include "libyasm/linemap.h"
#include <stdarg.h>
#include <stdio.h>
/* message formatting is replaced: the first character identifies the message */
static int vf_vsn(char *s, size_t n, const char *f)
{
    LEMMA(n >= 1 && n <= 1025, "message buffer bound");
    s[0] = f[0];
#ifndef POOLS
    s[n - 1] = 0;
#endif
    return 1;
}
#define vsnprintf(s, n, f, va) vf_vsn((s), (n), (f))
#define vfprintf(f, s, va) ((void)0)
#ifdef POOLS    /* typed pools instead of the heap */
static void *vf_pool(size_t n);
#undef yasm_xmalloc
#define yasm_xmalloc(n) vf_pool(n)
#endif
#include "libyasm/errwarn.c"
#ifdef POOLS
static errwarn_data p_ew[8]; static warn p_w[8]; static char p_s[8][4]; static unsigned n_ew, n_w, n_s;
static void *vf_pool(size_t n)
{
    if (n == sizeof(errwarn_data)) return &p_ew[n_ew++];
    if (n == sizeof(warn)) return &p_w[n_w++];
    LEMMA(n == MSG_MAXSIZE + 1, "message buffer size"); return p_s[n_s++];
}
#endif
#undef yasm_internal_error
#ifndef N
#define N 1
#endif
#ifndef W
#define W 1
#endif
static char T[8][2] = {"a","b","c","d","e","f","g","h"};
static const yasm_error_class EC[17] = {0, 0xffff, 1, 0x8001, 0x4001, 0x2001, 2, 4, 0x8004, 0x4004, 0x2004, 8, 0x10, 0x20, 0x40, 0x8040, 0xffff};

/* ---------------- the list of diagnostics ---------------- */
static errwarn_data pool[8]; static yasm_errwarns ew; static errwarn_data g0_[8];
static void boot(void)
{
    unsigned i;
    vf_ghost_init(); yasm_errwarn_initialize();
    SLIST_INIT(&ew.errwarns); ew.previous_we = 0; ew.ecount = 0; ew.wcount = 0;
    for (i = N; i-- > 0; ) {
        pool[i].line = ND(unsigned); pool[i].msg = T[i]; pool[i].xrefline = ND(unsigned); pool[i].xrefmsg = ND_BOOL() ? T[7] : (char *)0;
        pool[i].type = ND(unsigned char) & 3; ASSUME(pool[i].type != WE_UNKNOWN);
        ASSUME(i == N - 1 || pool[i].line <= pool[i + 1].line);
        if (pool[i].type == WE_WARNING) ew.wcount++; else ew.ecount++;
        SLIST_INSERT_HEAD(&ew.errwarns, &pool[i], link);
    }
#if N > 0
    { unsigned k = ND(unsigned); ASSUME(k < N); ew.previous_we = &pool[k]; }
#endif
    for (i = 0; i < N; i++) g0_[i] = pool[i];
}
static unsigned s_pos; static int s_rep;
static void spec(unsigned long line, int rep)
{
    unsigned i;
    s_pos = 0; for (i = 0; i < N; i++) if (g0_[i].line <= line) s_pos = i + 1;    /* behind all those at or before the line */
    s_rep = rep && s_pos && g0_[s_pos - 1].line == line && g0_[s_pos - 1].type == WE_PARSERERROR;
}
#define SAME(e, i) ((e)->line == g0_[i].line && (e)->type == g0_[i].type && (e)->msg == g0_[i].msg && (e)->xrefline == g0_[i].xrefline && (e)->xrefmsg == g0_[i].xrefmsg)
void h_new(void)
{
    unsigned long line = ND(unsigned); int rep = ND_BOOL(); errwarn_data *we, *e; unsigned i, seen = 0;
    boot(); spec(line, rep);
    we = errwarn_data_new(&ew, line, rep);
    LEMMA(ew.previous_we == we && we->line == line, "entry is for the line given");
    e = SLIST_FIRST(&ew.errwarns);
    for (i = 0; i < N; i++) {
        if (s_rep && i + 1 == s_pos) { LEMMA(e == we, "a parser error on the same line gives way"); seen = 1; e = SLIST_NEXT(e, link); continue; }
        if (!s_rep && i == s_pos) { LEMMA(e == we, "a new entry goes behind all entries at or before its line"); seen = 1; e = SLIST_NEXT(e, link); }
        LEMMA(e == &pool[i] && SAME(e, i), "other entries are kept, in order");
        e = SLIST_NEXT(e, link);
    }
    if (!seen) { LEMMA(e == we && s_pos == N, "a new last entry"); e = SLIST_NEXT(e, link); }
    LEMMA(e == 0, "nothing else is listed");
    if (!s_rep) LEMMA(we->type == WE_UNKNOWN && we->msg == 0 && we->xrefmsg == 0 && we->xrefline == 0, "a new entry is blank");
    CANARY;
}
/* ---------------- propagation ---------------- */
#ifdef POOLS
#ifndef TIED
#define TIED 0
#endif
#ifndef PREV
#define PREV 0
#endif
/* every shape of the list (equal or rising lines, any types, any previous
 * insertion point), every place of the line, every kind of error */
static void prop_one(unsigned tied, unsigned kinds, unsigned prev, unsigned long line, yasm_error_class c, int x, unsigned enab)
{
    errwarn_data *e; unsigned i, j, ec, wc, nw = 0; unsigned long xl = ND(unsigned); unsigned en[2];
    vf_ghost_init(); yasm_errwarn_initialize(); n_ew = n_w = n_s = 0;
    SLIST_INIT(&ew.errwarns); ew.previous_we = 0; ec = ND(unsigned short); wc = ND(unsigned short);
    for (i = N; i-- > 0; ) {
        pool[i].line = tied ? 10 : 10 * (i + 1); pool[i].msg = T[i]; pool[i].xrefline = ND(unsigned); pool[i].xrefmsg = T[7];
        pool[i].type = (kinds >> (2 * i)) & 3;
        SLIST_INSERT_HEAD(&ew.errwarns, &pool[i], link);
        if (prev == i) ew.previous_we = &pool[i];
        g0_[i] = pool[i];
    }
    ew.ecount = ec; ew.wcount = wc;
    spec(line, 1);
    warn_class_enabled = enab << 1;
    if (c) { if (x) yasm_error_set_xref(xl, "x"); yasm_error_set(c, "n"); yasm_error_set(0x40, "o"); }
    for (i = 0; i < W; i++) { en[i] = (enab >> i) & 1; nw += en[i]; yasm_warn_set((yasm_warn_class)(i + 1), i ? "q" : "p"); }
    LEMMA((yasm_warn_occurred() != YASM_WARN_NONE) == (nw > 0), "only enabled warnings are queued");
    yasm_errwarn_propagate(&ew, line);
    LEMMA(yasm_eclass == YASM_ERROR_NONE && yasm_warn_occurred() == YASM_WARN_NONE, "indicators are empty after propagation");
    LEMMA(yasm_errwarns_num_errors(&ew, 0) == ec + (c != 0) && yasm_errwarns_num_errors(&ew, 1) == ec + (c != 0) + wc + nw, "errors and warnings are counted");
    e = SLIST_FIRST(&ew.errwarns);
    for (i = 0; i <= N; i++) {
        if (i == s_pos) {
            if (c) {
                LEMMA(e && e->line == line && e->msg[0] == 'n' && e->type == (c != 0xffff && (c & 0x8040) == 0x8040 ? WE_PARSERERROR : WE_ERROR), "the first error set is listed at its line");
                LEMMA(x ? (e->xrefline == xl && e->xrefmsg[0] == 'x') : (e->xrefline == 0 && e->xrefmsg == 0), "with its cross reference");
                e = SLIST_NEXT(e, link);
            }
            for (j = 0; j < W; j++) if (en[j]) {
                LEMMA(e && e->line == line && e->type == WE_WARNING && e->msg[0] == (j ? 'q' : 'p') && e->xrefline == 0, "every enabled warning is listed behind it, in order");
                e = SLIST_NEXT(e, link);
            }
        }
        if (i < N && !(c && s_rep && i + 1 == s_pos)) { LEMMA(e == &pool[i] && SAME(e, i), "earlier diagnostics are kept, in order"); e = SLIST_NEXT(e, link); }
    }
    LEMMA(e == 0, "nothing else is listed");
}
void h_propagate(void)
{
    static const yasm_error_class C[4] = {0, 0xffff, 0x40, 0x8040};
    unsigned k, t, p, l, c, w;
    for (t = TIED; t < TIED + 1; t++)
        for (k = 0; k < (1u << (2 * N)); k++) {
            for (p = 0; p < N; p++) if (((k >> (2 * p)) & 3) == WE_UNKNOWN) break;
            if (p < N) continue;
            for (p = PREV; p < PREV + 1; p++)
                for (l = 5; l <= 10 * N + 5; l += 5)
                    for (c = 0; c < 4; c++)
                        for (w = 0; w < (1u << W); w++)
                            prop_one(t, k, p, l, C[c], (c ^ w) & 1, w);
        }
    CANARY;
}
#endif
/* ---------------- the indicators ---------------- */
void h_indicator(void)
{
    yasm_error_class a = EC[ND(unsigned char) & 15], b = EC[ND(unsigned char) & 15], q = ND(unsigned), c; char *s, *xs; unsigned long xl = ND(unsigned), x; int m;
    vf_ghost_init(); yasm_errwarn_initialize();
    LEMMA(yasm_error_matches(0) && !yasm_eclass, "no error at first");
    ASSUME(a && b);
    yasm_error_set(a, "1");
    m = yasm_error_matches(q);
    LEMMA((m != 0) == (a == 0xffff ? q == 0xffff : (a & q) == q), "an error matches its class and the classes above it");
    yasm_error_set(b, "2"); yasm_error_set_xref(xl, "3");
    yasm_error_fetch(&c, &s, &x, &xs);
    LEMMA(c == a && s[0] == '1' && x == 0 && xs == 0, "the first error wins until it is fetched");
    LEMMA(!yasm_eclass && yasm_error_matches(0), "fetching clears the error");
    yasm_error_fetch(&c, &s, &x, &xs);
    LEMMA(c == 0 && s == 0 && x == 0 && xs == 0, "an error is fetched once");
    yasm_error_set_xref(xl, "3"); yasm_error_set(b, "2"); yasm_error_set_xref(xl + 1, "4");
    if (ND_BOOL()) {
        yasm_error_fetch(&c, &s, &x, &xs);
        LEMMA(c == b && s[0] == '2' && x == xl && xs[0] == '3', "an error carries the cross reference set before it");
    } else {
        yasm_error_clear();
        yasm_error_fetch(&c, &s, &x, &xs);
        LEMMA(c == 0 && s == 0 && x == 0 && xs == 0, "clearing drops the error and its cross reference");
    }
    CANARY;
}
void h_warn(void)
{
    unsigned i; unsigned long on; yasm_warn_class t, c; char *s; unsigned q = 0; yasm_warn_class cl[3]; char tx[3];
    vf_ghost_init(); yasm_errwarn_initialize(); warn_class_enabled = on = ND(unsigned long);
    t = (yasm_warn_class)(ND(unsigned char) & 15); ASSUME(t >= 1 && t <= YASM_WARN_SEGREG_IN_64BIT);
    switch (ND(unsigned char) & 3) {
        case 0: yasm_warn_enable(t); on |= 1UL << t; break;
        case 1: yasm_warn_disable(t); on &= ~(1UL << t); break;
        case 2: yasm_warn_disable_all(); on = 0; break;
    }
    for (i = 0; i < 3; i++) {
        c = (yasm_warn_class)(ND(unsigned char) & 15); ASSUME(c >= 1 && c <= YASM_WARN_SEGREG_IN_64BIT);
        yasm_warn_set(c, i == 0 ? "1" : i == 1 ? "2" : "3");
        if ((on >> c) & 1) { cl[q] = c; tx[q] = '1' + i; q++; }
    }
    if (ND_BOOL()) { yasm_warn_clear(); q = 0; }
    LEMMA(yasm_warn_occurred() == (q ? cl[0] : YASM_WARN_NONE), "first warning");
    for (i = 0; i < 4; i++) {
        yasm_warn_fetch(&c, &s);
        LEMMA(i < q ? (c == cl[i] && s[0] == tx[i]) : (c == YASM_WARN_NONE && s == 0), "enabled warnings are fetched in the order they were set");
    }
    CANARY;
}
/* ---------------- printing ---------------- */
static unsigned pn; static char pm[20]; static unsigned long pl[20]; static unsigned char pk[20]; static unsigned long px[20];
static char FN[4];
void yasm_linemap_lookup(yasm_linemap *lm, unsigned long line, const char **f, unsigned long *fl) { *f = &FN[line & 3]; *fl = line + 7; }
static void pr_err(const char *f, unsigned long line, const char *m, const char *xf, unsigned long xl, const char *xm)
{ LEMMA(pn < 20, "printed"); pm[pn] = m[0]; pl[pn] = line; pk[pn] = 1; px[pn] = xl; LEMMA(f == &FN[(line - 7) & 3] && (xl ? xf == &FN[(xl - 7) & 3] : xf == 0), "file names"); pn++; }
static void pr_warn(const char *f, unsigned long line, const char *m)
{ LEMMA(pn < 20, "printed"); pm[pn] = m[0]; pl[pn] = line; pk[pn] = 2; px[pn] = 0; LEMMA(f == &FN[(line - 7) & 3], "file name"); pn++; }
void h_output(void)
{
    unsigned i, k = 0, w = 0; int werr = ND_BOOL();
    boot();
    for (i = 0; i < N; i++) ASSUME(pool[i].xrefline < 0xfffffff0u);
    yasm_errwarns_output_all(&ew, 0, werr, pr_err, pr_warn);
    for (i = 0; i < N; i++) {
        int warn = g0_[i].type == WE_WARNING;
        LEMMA(k < pn && pm[k] == T[i][0] && pl[k] == g0_[i].line + 7 && pk[k] == (warn ? 2 : 1), "diagnostics are printed in order at the place of their line");
        if (!warn) LEMMA(px[k] == (g0_[i].xrefline ? g0_[i].xrefline + 7 : 0), "with their cross reference");
        k++;
        if (warn && werr && !w) { LEMMA(k < pn && pk[k] == 1 && pl[k] == g0_[i].line + 7, "the first warning treated as an error says so"); k++; w = 1; }
    }
    LEMMA(k == pn, "nothing else is printed");
    CANARY;
}
