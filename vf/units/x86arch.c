/* x86arch.c: code padding patterns, register groups, mode selection */
#include "prelude.h"
#include "libyasm.h"
#include "modules/arch/x86/x86arch.c"
static yasm_arch_x86 ar;
static const unsigned char **(*vf_getfill)(const yasm_arch *) = x86_get_fill;
/* length of the instruction at p if it does nothing in the mode, 0 otherwise; avail bytes follow */
static unsigned nop_len(const unsigned char *p, unsigned avail, unsigned mode)
{
    unsigned n = 0, pre = 0, m, mod, reg, rm, base, idx;
    while (n < avail && (p[n] == 0x66 || p[n] == 0x2e)) { pre = 1; n++; }
    if (n >= avail) return 0;
    if (p[n] == 0x90) return n + 1;
    if (p[n] == 0xeb && !pre && avail >= 2) return p[n + 1] <= 0x7f && 2u + p[n + 1] <= avail ? 2u + p[n + 1] : 0;   /* jump over the rest */
    if (p[n] == 0x0f) {
        if (mode == 16 || n + 3 > avail || p[n + 1] != 0x1f || ((p[n + 2] >> 3) & 7) != 0) return 0;
        m = p[n + 2]; n += 3; mod = m >> 6; rm = m & 7;
        if (mod == 3) return n;
        if (rm == 4) { if (n >= avail) return 0; base = p[n++] & 7; if (mod == 0 && base == 5) n += 4; }
        else if (mod == 0 && rm == 5) n += 4;
        n += mod == 1 ? 1 : mod == 2 ? 4 : 0;
        return n <= avail ? n : 0;
    }
    if (pre || mode == 64 || n + 2 > avail) return 0;
    m = p[n + 1]; mod = m >> 6; reg = (m >> 3) & 7; rm = m & 7;
    if (p[n] == 0x89 || p[n] == 0x8b) return mod == 3 && reg == rm ? n + 2 : 0;
    if (p[n] == 0x8d) {                                   /* lea reg,[reg+0] */
        unsigned d, k; n += 2;
        if (mod == 3) return 0;
        if (mode == 16) {
            base = rm == 4 ? 6 : rm == 5 ? 7 : rm == 6 && mod ? 5 : rm == 7 ? 3 : 99;
            d = mod == 1 ? 1 : mod == 2 ? 2 : 0;
        } else {
            base = rm; idx = 4; d = mod == 1 ? 1 : mod == 2 ? 4 : 0;
            if (rm == 4) { unsigned s; if (n >= avail) return 0; s = p[n++]; base = s & 7; idx = (s >> 3) & 7;
                if (mod == 0 && base == 5) { d = 4; base = (s >> 6) == 0 ? idx : 99; idx = 4; } if (idx != 4) return 0; }
            else if (mod == 0 && rm == 5) return 0;
        }
        if (base != reg || n + d > avail) return 0;
        for (k = 0; k < d; k++) if (p[n + k] != 0) return 0;
        return n + d;
    }
    return 0;
}
static void fill_one(unsigned mode, unsigned nop, unsigned n)
{
    const unsigned char **t; unsigned pos = 0, k;
    ar.mode_bits = mode; ar.nop = nop;
    t = x86_get_fill((const yasm_arch *)&ar);
    LEMMA(t != 0 && vf_err == 0, "padding patterns exist in every mode");
    LEMMA(t[0] == 0 && t[n] != 0, "a pattern for every length from 1 to 15");
#ifndef VF_REPLAY
    LEMMA(__CPROVER_OBJECT_SIZE(t[n]) == n && __CPROVER_POINTER_OFFSET(t[n]) == 0, "the pattern for a length has that length");
#endif
    for (k = 0; k < 15 && pos < n; k++) { unsigned l = nop_len(t[n] + pos, n - pos, mode); LEMMA(l > 0, "padding consists of instructions without effect"); if (!l) break; pos += l; }
    LEMMA(pos == n, "padding ends on an instruction boundary");
}
void h_fill(void)       /* every mode, processor family and length: a finite table, checked entry by entry */
{
    unsigned m, nop, n;
    vf_ghost_init();
    for (m = 16; m <= 64; m *= 2) for (nop = 0; nop < 3; nop++) for (n = 1; n <= 15; n++) fill_one(m, nop, n);
    CANARY;
}
void h_fill_other(void)
{
    vf_ghost_init(); ar.mode_bits = ND(unsigned); ar.nop = ND(unsigned);
    ASSUME(ar.mode_bits != 16 && ar.mode_bits != 32 && ar.mode_bits != 64);
    LEMMA(x86_get_fill((const yasm_arch *)&ar) == 0 && vf_err != 0, "no padding patterns for an unknown mode");
    CANARY;
}
