/* libyasm/linemap.c: virtual lines to source lines */
#include "prelude.h"
#include "libyasm-stdint.h"
#include "libyasm/coretype.h"
#include "libyasm/hamt.h"
/* the file name table only interns strings: here a name stands for itself */
#define yasm__xstrdup(s) ((char *)(s))
#define HAMT_insert(t, k, d, r, f) ((const char *)(d))
#ifdef STATICMAP    /* a map with room to spare: growing is not reached */
static void *vf_norealloc(void *p) { LEMMA(0, "growing is not reached"); return p; }
#undef yasm_xrealloc
#define yasm_xrealloc(p, n) vf_norealloc(p)
#endif
#include "libyasm/linemap.c"
#define CAP 8
#ifndef N
#define N 1
#endif
static yasm_linemap lm; static line_mapping mv[CAP]; static char fn[4][2];
#ifndef MAXMAP
#define MAXMAP 5
#endif
/* any sorted map of 1..MAXMAP entries; line numbers start at 1 */
static void boot(unsigned n)
{
    unsigned i;
    vf_ghost_init();
#ifdef STATICMAP
    lm.map_vector = mv;
#else
    lm.map_vector = malloc(CAP * sizeof(line_mapping)); ASSUME(lm.map_vector != 0);
#endif
    lm.map_size = n; lm.map_allocated = CAP; lm.current = ND(unsigned short); ASSUME(lm.current >= 1);
    for (i = 0; i < n; i++) {
        line_mapping *m = &lm.map_vector[i];
        m->line = ND(unsigned short); m->filename = fn[ND(unsigned char) & 3]; m->file_line = ND(unsigned short); m->line_inc = ND(unsigned char) & 15;
        ASSUME(m->line >= 1 && (i == 0 || lm.map_vector[i - 1].line < m->line));
    }
}
static unsigned long s_line; static const char *s_fn;
static void spec(unsigned long line)    /* the last mapping whose first line is not behind the line asked for */
{
    unsigned long i, k = 0;
    for (i = 0; i < lm.map_size; i++) if (lm.map_vector[i].line <= line) k = i;
    s_fn = lm.map_vector[k].filename; s_line = line ? lm.map_vector[k].file_line + lm.map_vector[k].line_inc * (line - lm.map_vector[k].line) : 0;
}
void h_lookup(void)
{
    unsigned n; unsigned long line = ND(unsigned short), fl; const char *f;
    { n = N;
        boot(n); ASSUME(line <= lm.current);
        spec(line); yasm_linemap_lookup(&lm, line, &f, &fl);
        LEMMA(f == s_fn && fl == s_line, "a line is looked up in the last mapping at or before it");
    }
    CANARY;
}
static void set_one(unsigned n, unsigned grow)
{
    unsigned long v, f, inc, line, l0, l1; const char *name, *f0, *f1; unsigned i, keep, eq = 0; const char *prev = 0;
    boot(n); if (grow) lm.map_allocated = n;
    v = ND(unsigned short); f = ND(unsigned); inc = ND(unsigned char) & 15; name = ND_BOOL() ? fn[ND(unsigned char) & 3] : (char *)0; line = ND(unsigned short);
    ASSUME(v <= lm.current && line >= 1 && line <= lm.current);
    if (n) { spec(line); f0 = s_fn; l0 = s_line; }
    { unsigned long at = v ? v : lm.current; keep = 0; for (i = 0; i < n; i++) { if (lm.map_vector[i].line < at) keep = i + 1; if (lm.map_vector[i].line <= at) prev = lm.map_vector[i].filename; } }
    yasm_linemap_set(&lm, name, v, f, inc);
    if (!v) v = lm.current;
    LEMMA(lm.map_size == keep + 1 && lm.map_size <= lm.map_allocated, "a mapping replaces those at or behind its line");
    for (i = 1; i < lm.map_size; i++) LEMMA(lm.map_vector[i - 1].line < lm.map_vector[i].line, "mappings stay sorted");
    yasm_linemap_lookup(&lm, line, &f1, &l1);
    if (line >= v) {
        LEMMA(l1 == f + inc * (line - v), "later lines count from the new mapping");
        LEMMA(name ? f1 == name : prev ? f1 == prev : f1 != 0, "later lines come from the file named, or the same file when none is named");
    } else if (keep) LEMMA(f1 == f0 && l1 == l0, "earlier lines keep their source line");
}
void h_set(void)
{
    unsigned n;
    n = N; set_one(n, 0); 
#ifndef STATICMAP
    if (n) set_one(n, 1);
#endif
    CANARY;
}
void h_poke(void)
{
    unsigned n; unsigned long line, cur, fl, l0, l1, r; const char *f, *f0, *f1, *fc; const char *name; unsigned long lc, ic;
    { n = N;
        boot(n); cur = lm.current; ASSUME(cur < 0xfffffff0u); fl = ND(unsigned short); name = fn[ND(unsigned char) & 3]; line = ND(unsigned short); ASSUME(line >= 1 && line <= cur && lm.map_vector[n - 1].line <= cur);
        spec(cur); fc = s_fn; lc = s_line; spec(line); f0 = s_fn; l0 = s_line; ic = lm.map_vector[n - 1].line_inc;
        r = yasm_linemap_poke(&lm, name, fl);
        LEMMA(r == cur + 1 && yasm_linemap_get_current(&lm) == cur + 2, "a poked line is a line of its own");
        yasm_linemap_lookup(&lm, r, &f, &l1); LEMMA(f == name && l1 == fl, "a poked line has the place given");
        yasm_linemap_lookup(&lm, line, &f1, &l1); LEMMA(f1 == f0 && l1 == l0, "lines before a poked line keep their place");
        { unsigned long d = ND(unsigned char); lm.current += d; yasm_linemap_lookup(&lm, cur + 2 + d, &f1, &l1); lm.current -= d;
          LEMMA(f1 == fc && l1 == lc + ic * d, "a poked line does not disturb the lines after it"); }
        LEMMA(yasm_linemap_goto_next(&lm) == cur + 3 && yasm_linemap_get_current(&lm) == cur + 3, "lines are counted one by one");
    }
    CANARY;
}
void h_source(void)
{
    static line_source_info si[8]; unsigned i, line; yasm_bytecode *b, *b0; const char *s, *s0; int r, r0; char t[2]; long bc1_[2];
#define bc1 (*(yasm_bytecode *)bc1_)
    vf_ghost_init(); lm.source_info = malloc(4 * sizeof(line_source_info)); ASSUME(lm.source_info != 0); lm.source_info_size = 4;
    for (i = 0; i < 4; i++) { lm.source_info[i].bc = ND_BOOL() ? &bc1 : (yasm_bytecode *)0; lm.source_info[i].source = ND_BOOL() ? fn[i] : (char *)0; }
    lm.current = ND(unsigned char); line = ND(unsigned char); ASSUME(lm.current >= 1 && lm.current <= 20 && line >= 1);
    r0 = yasm_linemap_get_source(&lm, line, &b0, &s0);
    LEMMA(line <= 4 ? (b0 == lm.source_info[line - 1].bc && s0 == lm.source_info[line - 1].source && (r0 != 0) == (s0 == 0)) : (r0 && b0 == 0 && s0 == 0), "source of a line");
    yasm_linemap_add_source(&lm, &bc1, t);
    r = yasm_linemap_get_source(&lm, line, &b, &s);
    LEMMA(line == lm.current ? (r == 0 && b == &bc1 && s == t) : ((r != 0) == (s == 0) && s == s0 && b == b0), "source is attached to the current line only");
    CANARY;
}
