#include "prelude.h"
#include "libyasm.h"
#include "modules/arch/x86/x86expr.c"
#include "x86_spec.h"

/* ---------------- collaborators ---------------- */
static char vf_o1, vf_o2, vf_o3;
#define OLD_ABS ((yasm_expr *)&vf_o1)
#define NEW_ABS ((yasm_expr *)&vf_o2)
#define THE_NUM ((yasm_intnum *)&vf_o3)
static x86_effaddr ea; static yasm_bytecode bc;
static int vf_known, vf_trav; static long vf_gval; static unsigned char vf_tsize; static unsigned vf_ncur, vf_nfree;
yasm_intnum *yasm_value_get_intnum(yasm_value *v, yasm_bytecode *b, int cbd) { return vf_known ? THE_NUM : 0; }
int yasm_intnum_is_zero(const yasm_intnum *n) { return vf_gval == 0; }
void yasm_intnum_destroy(yasm_intnum *n) { }
#ifndef VF_TREE
#ifdef VF_REPLAY
/* natively the real x86_expr_checkea_getregusage runs, on an expression with the registers chosen */
static long vf_ints[40];
static yasm_expr *vf_build(void);
#define VAL(n) ((n) == THE_NUM ? vf_gval : *(const long *)(n))
#undef OLD_ABS
#define OLD_ABS vf_build()
#else
#define VAL(n) vf_gval
#endif
int yasm_intnum_in_range(const yasm_intnum *n, long lo, long hi) { return VAL(n) >= lo && VAL(n) <= hi; }
long yasm_intnum_get_int(const yasm_intnum *n) { return VAL(n); }
#endif
yasm_intnum *yasm_intnum_create_uint(unsigned long i) { return THE_NUM; }
void yasm_value_delete(yasm_value *v) { v->abs = 0; v->rel = 0; vf_nfree++; }
void yasm_value_set_curpos_rel(yasm_value *v, yasm_bytecode *b, unsigned int ip) { v->curpos_rel = 1; v->ip_rel = ip; vf_ncur++; }
int yasm_expr__traverse_leaves_in(yasm_expr *e, void *d, int (*func)(yasm_expr__item *ei, void *d))
{
    if (vf_trav) *(unsigned char *)d = vf_tsize;
    return vf_trav;
}
/* contract of yasm_x86__set_rex_from_reg (enforced by the x86bc unit), as a function */
int yasm_x86__set_rex_from_reg(unsigned char *rex, unsigned char *low3, uintptr_t reg, unsigned int bits, x86_rex_bit_pos rexbit)
{
    *low3 = reg & 7;
    if (bits == 64 && (reg & 0xF) >= 8) {
        if (*rex == 0xff) { yasm_error_set(YASM_ERROR_TYPE, ""); return 1; }
        *rex |= 0x40 | (1 << rexbit);
    }
    return 0;
}
int yasm_floatnum_check_size(const yasm_floatnum *f, size_t n) { return 1; }
int yasm_floatnum_get_sized(const yasm_floatnum *f, unsigned char *p, size_t a, size_t b, size_t s, int be, int w) { return 0; }
#ifndef VF_TREE
yasm_expr *yasm_expr__level_tree(yasm_expr *e, int a, int b, int c, int d, yasm_expr_xform_func f, void *x) { return e; }
yasm_expr *yasm_expr_extract_wrt(yasm_expr **e) { return 0; }
void yasm_expr__order_terms(yasm_expr *e) { }
int yasm_expr__contains(const yasm_expr *e, yasm_expr__type t) { return 0; }
#endif
void yasm_expr_destroy(yasm_expr *e) { }
yasm_expr *yasm_expr__copy_except(const yasm_expr *e, int x) { return 0; }

/* ---------------- register usage (contract; see h_usage) ---------------- */
static int gm[33], gm16[4], g_hint, g_pcrel, g_rc;  /* ghost: registers used by the address */
#ifndef VF_TREE
static int x86_expr_checkea_getregusage(yasm_expr **ep, int *indexreg, int *pcrel, unsigned int bits, void *data, int *(*get_reg)(yasm_expr__item *ei, int *regnum, void *d))
REQ(ep == &ea.ea.disp.abs && *ep != 0 && *pcrel == 0)
ASG(*ep, *pcrel; indexreg != 0 : *indexreg, __CPROVER_object_upto(((x86_checkea_reg3264_data *)data)->regs, 33 * sizeof(int)); indexreg == 0 : *(x86_checkea_reg16_data *)data)
ENS(RET == g_rc && *ep == NEW_ABS && *pcrel == g_pcrel)
ENS(indexreg == 0 || *indexreg == g_hint)
#define RG(i) (((x86_checkea_reg3264_data *)data)->regs[i] == gm[i])
ENS(indexreg == 0 || (RG(0) && RG(1) && RG(2) && RG(3) && RG(4) && RG(5) && RG(6) && RG(7) && RG(8) && RG(9) && RG(10) && RG(11) && RG(12) && RG(13) && RG(14) && RG(15) && RG(16)
  && RG(17) && RG(18) && RG(19) && RG(20) && RG(21) && RG(22) && RG(23) && RG(24) && RG(25) && RG(26) && RG(27) && RG(28) && RG(29) && RG(30) && RG(31) && RG(32)))
#define R16 ((x86_checkea_reg16_data *)data)
ENS(indexreg != 0 || (R16->bx == gm16[0] && R16->si == gm16[1] && R16->di == gm16[2] && R16->bp == gm16[3]));

static unsigned char vf_rex, vf_addr; static x86_effaddr gea; static unsigned char grex, gaddr;
int yasm_x86__expr_checkea(x86_effaddr *e, unsigned char *addrsize, unsigned int bits, int address16_op, unsigned char *rex, yasm_bytecode *b)
REQ(e == &ea && addrsize == &vf_addr && rex == &vf_rex && b == &bc && MODE_OK(bits))
ASG(ea, vf_addr, vf_rex, vf_ncur, vf_nfree, VF_GHOST)
ENS(RET == 0 || RET == 1)
ENS((RET != 0) == (vf_nerr > 0))
/* only the fields of the address encoding change; the reg field of ModRM is the caller's */
ENS((ea.modrm & 0x38) == (gea.modrm & 0x38) && ea.ea.segreg == gea.ea.segreg && ea.ea.strong == gea.ea.strong && ea.ea.nosplit == gea.ea.nosplit && ea.vsib_mode == gea.vsib_mode)
ENS((vf_rex & 0xC) == (grex & 0xC))
ENS(RET != 0 || EA_WF(&ea));

/* ---------------- what the processor makes of ModRM/SIB/REX ---------------- */
static int dm[33], dm16[4]; static int d_size;
/* register fields of the instruction, 64-bit and 32-bit addressing */
static void vf_decode(unsigned bits, unsigned modrm, unsigned sib, unsigned rex, int vsib)
{
    unsigned mod = modrm >> 6, rm = modrm & 7, B_ = 0, X_ = 0; int i;
    if (bits == 64 && rex != 0xff && (rex & 0xF0) == 0x40) { B_ = (rex & 1) ? 8 : 0; X_ = (rex & 2) ? 8 : 0; }
    for (i = 0; i < 33; i++) dm[i] = 0;
    d_size = mod == 1 ? 8 : mod == 2 ? 32 : 0;
    if (rm == 4) {
        unsigned base = sib & 7, idx = ((sib >> 3) & 7) | X_, sc = 1u << (sib >> 6);
        if (base == 5 && mod == 0) d_size = 32; else dm[base | B_] += 1;
        if (vsib) dm[17 + idx] += sc; else if (idx != 4) dm[idx] += sc;
    } else if (rm == 5 && mod == 0) { d_size = 32; if (bits == 64) dm[16] = 1; }
    else dm[rm | B_] += 1;
}
static void vf_decode16(unsigned modrm)
{
    unsigned mod = modrm >> 6, rm = modrm & 7;
    dm16[0] = rm == 0 || rm == 1 || rm == 7; dm16[3] = rm == 2 || rm == 3 || (rm == 6 && mod != 0);
    dm16[1] = rm == 0 || rm == 2 || rm == 4; dm16[2] = rm == 1 || rm == 3 || rm == 5;
    d_size = mod == 1 ? 8 : mod == 2 ? 16 : rm == 6 ? 16 : 0;
}
/* can base + index*scale express the register sum at all? */
static int vf_encodable(int vsib)
{
    int i, used = 0, a = -1, b = -1, nsimd = 0;
    for (i = 0; i < 33; i++) {
        if (gm[i] < 0) return 0;
        if (gm[i] > 0) { used++; if (a < 0) a = i; else b = i; if (i >= 17) nsimd++; }
    }
    if (vsib) {     /* exactly one vector register, optionally one base */
        int v = used == 1 ? a : b;
        if (used > 2 || nsimd != 1) return 0;
        if (used == 2 && (a == 16 || gm[a] != 1)) return 0;
        return gm[v] == 1 || gm[v] == 2 || gm[v] == 4 || gm[v] == 8;
    }
    if (nsimd) return 0;
    if (used == 0) return 1;
    if (used == 1) {
        if (a == 16) return gm[a] == 1;
        return gm[a] == 1 || (a != 4 && (gm[a] == 2 || gm[a] == 3 || gm[a] == 4 || gm[a] == 5 || gm[a] == 8 || gm[a] == 9));
    }
    if (used > 2 || b == 16) return 0;
#define IDX(r) ((r) != 4 && (gm[r] == 1 || gm[r] == 2 || gm[r] == 4 || gm[r] == 8))
    return (gm[a] == 1 && IDX(b)) || (gm[b] == 1 && IDX(a));
}
static int vf_needs_rex(void)
{
    int i; for (i = 0; i < 33; i++) if ((i < 16 ? i >= 8 : i >= 25) && gm[i] != 0) return 1;
    return 0;
}

/* ---------------- harnesses ---------------- */
static unsigned vf_bits; static int vf_a16, vf_A, vf_szerr;
#ifdef VF_REPLAY
#include <string.h>
static yasm_expr *vf_top;
static yasm_expr *vf_build(void)
{
    if (!vf_top) { vf_top = calloc(1, sizeof(yasm_expr) + 40 * sizeof(yasm_expr__item)); vf_top->op = YASM_EXPR_ADD; }
    return vf_top;
}
static void vf_term(int i, uintptr_t reg, int mult)
{
    yasm_expr *m;
    if (mult == 0) return;
    if (mult == 1) { vf_top->terms[vf_top->numterms].type = YASM_EXPR_REG; vf_top->terms[vf_top->numterms++].data.reg = reg; return; }
    m = calloc(1, sizeof(yasm_expr) + 4 * sizeof(yasm_expr__item)); vf_ints[i] = mult;
    m->op = YASM_EXPR_MUL; m->numterms = 2; m->terms[0].type = YASM_EXPR_REG; m->terms[0].data.reg = reg; m->terms[1].type = YASM_EXPR_INT; m->terms[1].data.intn = (yasm_intnum *)&vf_ints[i];
    vf_top->terms[vf_top->numterms].type = YASM_EXPR_EXPR; vf_top->terms[vf_top->numterms++].data.expn = m;
}
static void vf_fill(int A)
{
    static const int r16[4] = {3, 6, 7, 5}; int i, pass;
    if (!vf_top) return;
    memset(vf_top, 0, sizeof(yasm_expr) + 40 * sizeof(yasm_expr__item)); vf_top->op = YASM_EXPR_ADD;
    ASSUME(!g_rc && !g_pcrel);
    if (A == 16) { for (i = 0; i < 4; i++) { ASSUME(gm16[i] > -1000 && gm16[i] < 1000); vf_term(i, X86_REG16 | r16[i], gm16[i]); } return; }
    for (pass = 0; pass < 2; pass++)        /* the hinted register last */
        for (i = 0; i < 33; i++) if ((i == g_hint) == pass) {
            ASSUME(gm[i] > -1000 && gm[i] < 1000);
            vf_term(i, i < 16 ? (A == 64 ? X86_REG64 : X86_REG32) | i : i == 16 ? X86_RIP : X86_XMMREG | (i - 17), gm[i]);
        }
}
#else
#define vf_fill(a) ((void)0)
#endif
static void vf_setup(void)
{
    int i;
    vf_ghost_init(); vf_ncur = 0; vf_nfree = 0;
    vf_known = ND_BOOL(); vf_gval = ND(long); vf_trav = ND_BOOL(); vf_tsize = ND(unsigned char); ASSUME(vf_tsize == 16 || vf_tsize == 32 || vf_tsize == 64);
    ea.ea.disp.abs = ND_BOOL() ? OLD_ABS : 0; ea.ea.disp.rel = ND_BOOL() ? (yasm_symrec *)&vf_o1 : 0; ea.ea.disp.wrt = 0;
    ea.ea.disp.seg_of = 0; ea.ea.disp.rshift = 0; ea.ea.disp.curpos_rel = 0; ea.ea.disp.ip_rel = 0; ea.ea.disp.jump_target = 0; ea.ea.disp.section_rel = 0; ea.ea.disp.no_warn = 0; ea.ea.disp.sign = 0;
    ea.ea.disp.size = ND(unsigned char); ASSUME(ea.ea.disp.size == 0 || ea.ea.disp.size == 8 || ea.ea.disp.size == 16 || ea.ea.disp.size == 32 || ea.ea.disp.size == 64);
    ea.ea.segreg = ND(unsigned short); ASSUME(ea.ea.segreg == 0 || ea.ea.segreg >> 8);
    ea.ea.need_nonzero_len = ND_BOOL(); ea.ea.need_disp = 1; ea.ea.nosplit = ND_BOOL(); ea.ea.strong = ND_BOOL(); ea.ea.pc_rel = ND_BOOL(); ea.ea.not_pc_rel = 0; ea.ea.data_len = 0;
    ea.vsib_mode = 0; ea.modrm = ND(unsigned char) & 0x38; ea.valid_modrm = 0; ea.need_modrm = 1; ea.sib = ND(unsigned char); ea.valid_sib = 0; ea.need_sib = 0xff;
    vf_bits = ND(unsigned char); ASSUME(MODE_OK(vf_bits)); vf_a16 = ND_BOOL();
    grex = vf_rex = ND(unsigned char); ASSUME(vf_rex == 0 || vf_rex == 0xff || (vf_bits == 64 && (vf_rex & 0xF3) == 0x40));
    gaddr = vf_addr = ND(unsigned char); ASSUME(vf_addr == 0 || MODE_OK(vf_addr));
    g_hint = -1; g_pcrel = ND_BOOL(); g_rc = ND_BOOL();
    for (i = 0; i < 33; i++) gm[i] = 0;
    for (i = 0; i < 4; i++) gm16[i] = 0;
}
/* the address size: explicit, else from the displacement, else from the registers, else the mode */
static void vf_addrsize(void)
{
    int rm = ea.need_modrm || ea.need_sib;
    vf_szerr = 0;
    if (gaddr) vf_A = gaddr;
    else if (ea.ea.disp.size == 16) vf_A = 16;
    else if (ea.ea.disp.size == 64) { vf_A = 64; vf_szerr = rm; }
    else if (ea.ea.disp.size == 32 && (vf_bits != 64 || !rm)) vf_A = 32;
    else if (vf_bits == 16 && ea.need_sib == 1) vf_A = 32;
    else vf_A = ea.ea.disp.abs && vf_trav ? vf_tsize : (int)vf_bits;
}
static void vf_check_disp(int word, int noreg, int bp)
{
    int forced = gea.ea.disp.size;
    CHK(1, "");
    LEMMA(ea.need_modrm == 1 && ea.valid_modrm == 1, "ModRM is final");
    LEMMA(ea.ea.need_disp ? (ea.ea.disp.size == d_size || (ea.ea.disp.size == 0 && d_size == 8 && ea.ea.need_nonzero_len)) : d_size == 0 && ea.ea.disp.size == 0 && vf_known && vf_gval == 0, "Mod agrees with the displacement");
    if (noreg) LEMMA(d_size == word && ea.ea.need_disp, "no registers: full displacement");
    else if (forced) LEMMA(d_size == (forced == 8 ? 8 : word) && ea.ea.need_disp, "requested displacement size");
    else if (gea.ea.disp.rel) LEMMA(d_size == word && ea.ea.need_disp, "relocatable displacement");
    else if (!vf_known) LEMMA(d_size == 8 && ea.ea.disp.size == 0 && ea.ea.need_disp, "displacement left to the optimizer");
    else if (vf_gval == 0 && !bp && !gea.ea.need_nonzero_len) LEMMA(d_size == 0 && !ea.ea.need_disp, "zero displacement dropped");
    else LEMMA(ea.ea.need_disp && ea.ea.disp.size == (vf_gval >= -128 && vf_gval <= 127 ? 8 : word), "smallest displacement");
}
#ifndef VSIB
#define VSIB 0
#define AS 32
#endif
void h_ea32(void)
{
    int i, r, vsib = VSIB, noregs = 1, autorip, ok, bad;
    vf_setup(); ASSUME(ea.ea.disp.size != 64 || gaddr == 0);
    if (vsib) { ea.vsib_mode = 1; ea.need_sib = 1; }
    if (ea.ea.disp.abs) { for (i = 0; i < 33; i++) gm[i] = ND(int); } else { g_rc = 0; g_pcrel = 0; }
    if (!vsib) for (i = 17; i < 33; i++) ASSUME(gm[i] == 0);
    if (vf_bits != 64) { for (i = 8; i < 17; i++) ASSUME(gm[i] == 0); for (i = 25; i < 33; i++) ASSUME(gm[i] == 0); ASSUME(!g_pcrel); }
    if (ea.ea.disp.abs) { g_hint = (int)(ND(unsigned char) % 34) - 1; if (!vsib) ASSUME(g_hint < 17); }
    /* a hint of multiplier 1 is only given when nothing else is scaled */
    for (i = 0; i < 33; i++) { ASSUME(g_hint < 0 || gm[g_hint] <= 0 || gm[g_hint] >= 2 || gm[i] <= 1); if (gm[i] != 0) noregs = 0; }
    ASSUME(!g_pcrel || !noregs);
    ASSUME(!ea.ea.nosplit || gm[16] == 0);      /* [nosplit rip] is left open */
    vf_addrsize(); ASSUME(vf_A == AS);
    gea = ea; vf_fill(AS);
    bad = vf_szerr || (vf_A == 64 && vf_bits != 64) || (ea.ea.disp.abs && g_rc) || !vf_encodable(vsib) || (grex == 0xff && vf_needs_rex());
    autorip = noregs && ea.ea.pc_rel && vf_bits == 64 && !vsib;
    if (gea.ea.disp.size == 16 && !autorip && gm[16] != 1) bad = 1;
    r = yasm_x86__expr_checkea(&ea, &vf_addr, vf_bits, vf_a16, &vf_rex, &bc);
    LEMMA((r != 0) == bad, "an address is rejected exactly when it cannot be encoded");
    if (r == 0) {
        vf_decode(vf_bits, ea.modrm, ea.sib, vf_rex, vsib);
        ok = 1; for (i = 0; i < 33; i++) if (dm[i] != (i == 16 && autorip ? 1 : gm[i])) ok = 0;
        LEMMA(ok, "ModRM/SIB/REX select the registers written");
        LEMMA(vf_addr == vf_A, "address size");
        LEMMA(ea.need_sib == ((ea.modrm & 7) == 4 && ea.modrm >> 6 != 3), "SIB present exactly when ModRM asks for one");
        LEMMA(ea.modrm >> 6 != 3, "memory operand");
        LEMMA((vf_ncur > 0) == (g_pcrel || autorip), "RIP-relative displacement is marked");
        LEMMA(vf_rex == grex || (vf_needs_rex() && vf_bits == 64 && (vf_rex & 0xF0) == 0x40), "REX only when a register needs it");
        if (autorip || gm[16] == 1) LEMMA(ea.ea.need_disp && ea.ea.disp.size == 32 && d_size == 32, "RIP displacement");
        else {
            int base = -1;
            if ((ea.modrm & 7) == 4 ? (ea.sib & 7) != 5 || ea.modrm >> 6 : 1) base = (ea.modrm & 7) == 4 ? ea.sib & 7 : ea.modrm & 7;
            if ((ea.modrm & 7) == 5 && ea.modrm >> 6 == 0) base = -1;
            vf_check_disp(32, base < 0, base == 5);
        }
    }
    CANARY;
}
void h_ea16(void)
{
    int i, r, bad, any;
    vf_setup(); ASSUME(ea.ea.disp.size != 64 || gaddr == 0);
    if (ea.ea.disp.abs) { for (i = 0; i < 4; i++) gm16[i] = ND(int); } else { g_rc = 0; }
    g_pcrel = 0;
    vf_addrsize(); ASSUME(vf_A == 16); gea = ea; vf_fill(16);
    any = gm16[0] | gm16[1] | gm16[2] | gm16[3];
    bad = (vf_bits == 64 && !vf_a16) || (ea.ea.disp.abs && g_rc) || (any & ~1) || (gm16[0] && gm16[3]) || (gm16[1] && gm16[2]) || gea.ea.disp.size == 32;
    r = yasm_x86__expr_checkea(&ea, &vf_addr, vf_bits, vf_a16, &vf_rex, &bc);
    LEMMA((r != 0) == bad, "a 16-bit address is rejected exactly when it cannot be encoded");
    if (r == 0) {
        vf_decode16(ea.modrm);
        LEMMA(dm16[0] == gm16[0] && dm16[1] == gm16[1] && dm16[2] == gm16[2] && dm16[3] == gm16[3], "ModRM selects the registers written");
        LEMMA(vf_addr == 16 && ea.need_sib == 0 && vf_rex == grex && ea.modrm >> 6 != 3, "16-bit form");
        vf_check_disp(16, !any, gm16[3] && !gm16[1] && !gm16[2]);
    }
    CANARY;
}
/* register operands and direct-offset moves */
void h_ea_other(void)
{
    int r, reg = ND_BOOL(), bad; unsigned char s;
    vf_setup();
    if (reg) { ea.valid_modrm = 1; ea.need_sib = 0; ea.modrm = ND(unsigned char) | 0xC0; ea.ea.need_disp = 0; ea.ea.disp.size = 0; ea.ea.disp.abs = 0; }
    else { ea.need_modrm = 0; ea.need_sib = 0; ASSUME(gaddr == 0 || ea.ea.disp.size != 8); }
    vf_addrsize(); gea = ea; s = ea.ea.disp.size;
    bad = !reg && ((vf_A == 64 && vf_bits != 64) || (vf_A == 16 && vf_bits == 64 && !vf_a16));
    r = yasm_x86__expr_checkea(&ea, &vf_addr, vf_bits, vf_a16, &vf_rex, &bc);
    LEMMA((r != 0) == bad, "direct offset rejected exactly when the mode has no such address size");
    if (r == 0) { LEMMA(vf_addr == vf_A && vf_rex == grex, "address size");
        if (reg) LEMMA(ea.modrm == gea.modrm && ea.valid_modrm == 1 && ea.need_modrm == 1 && ea.need_sib == 0 && ea.ea.need_disp == 0 && ea.ea.disp.size == 0, "register operand unchanged");
        else LEMMA(ea.ea.disp.size == vf_A && ea.ea.need_disp == 1 && ea.need_modrm == 0 && ea.need_sib == 0, "direct offset has the address size"); }
    CANARY;
}
#endif
#ifdef VF_TREE
/* ---------------- register usage of a sum (bounded number of terms) ---------------- */
#ifndef NT
#define NT 3
#define K0 0
#define K1 0
#define K2 0
#endif
static struct { yasm_expr e; yasm_expr__item more[NT]; } top;
static yasm_expr sub[NT];
static long vf_ints[NT];
yasm_expr *yasm_expr__level_tree(yasm_expr *e, int a, int b, int c, int d, yasm_expr_xform_func f, void *x) { return e; }
yasm_expr *yasm_expr_extract_wrt(yasm_expr **e) { return 0; }
void yasm_expr__order_terms(yasm_expr *e) { }     /* the terms below are already in order */
int yasm_expr__contains(const yasm_expr *e, yasm_expr__type t)
{
    int i; for (i = 0; i < e->numterms; i++) if (e->terms[i].type == t) return 1;
    return 0;
}
int yasm_intnum_in_range(const yasm_intnum *n, long lo, long hi) { long v = n == THE_NUM ? 0 : *(const long *)n; return v >= lo && v <= hi; }
long yasm_intnum_get_int(const yasm_intnum *n) { return n == THE_NUM ? 0 : *(const long *)n; }

static yasm_expr__item it; static int vf_rn, regs[33]; static x86_checkea_reg3264_data dd; static x86_checkea_reg16_data d16;
static uintptr_t g_reg;
#define CLS(r) ((r) & ~(uintptr_t)0xF)
/* index of a register in the multiplier table, -1 if not usable in this address */
#define SLOT(r) (CLS(r) == X86_REG32 ? (dd.addrsize == 32 ? (int)((r) & 15) : -1) : CLS(r) == X86_REG64 ? (dd.addrsize == 64 ? (int)((r) & 15) : -1) \
   : CLS(r) == X86_XMMREG ? (dd.vsib_mode == 1 && (dd.bits == 64 || !((r) & 8)) ? 17 + (int)((r) & 15) : -1) \
   : CLS(r) == X86_YMMREG ? (dd.vsib_mode == 2 && (dd.bits == 64 || !((r) & 8)) ? 17 + (int)((r) & 15) : -1) \
   : CLS(r) == X86_RIP ? (dd.bits == 64 ? 16 : -1) : -1)
static int *x86_expr_checkea_get_reg3264(yasm_expr__item *ei, int *regnum, void *d)
REQ(ei == &it && ei->data.reg == g_reg && g_reg <= 0xFF && d == &dd && regnum == &vf_rn) ASG(it, vf_rn)
ENS(SLOT(g_reg) < 0 ? RET == 0 && it.type == YASM_EXPR_REG && it.data.reg == g_reg : RET == &regs[SLOT(g_reg)] && vf_rn == SLOT(g_reg) && it.type == YASM_EXPR_INT && it.data.intn == THE_NUM);
#define S16(r) (CLS(r) != X86_REG16 ? (int *)0 : ((r) & 7) == 3 ? &d16.bx : ((r) & 7) == 5 ? &d16.bp : ((r) & 7) == 6 ? &d16.si : ((r) & 7) == 7 ? &d16.di : (int *)0)
static int *x86_expr_checkea_get_reg16(yasm_expr__item *ei, int *regnum, void *d)
REQ(ei == &it && ei->data.reg == g_reg && g_reg <= 0xFF && d == &d16 && regnum == &vf_rn) ASG(it, vf_rn)
/* (the table of the other four registers is a static that is never written) */
ENS(S16(g_reg) ? RET == S16(g_reg) : CLS(g_reg) == X86_REG16 || RET == 0) ENS(RET == 0 || (it.type == YASM_EXPR_INT && it.data.intn == THE_NUM)) ENS(RET != 0 || it.type == YASM_EXPR_REG);
static unsigned char vf_asz;
static int x86_expr_checkea_getregsize_callback(yasm_expr__item *ei, void *d)
REQ(ei == &it && d == &vf_asz && vf_asz == 0) ASG(vf_asz)
#define ASZ (it.type != YASM_EXPR_REG ? 0 : CLS(g_reg) == X86_REG16 ? 16 : CLS(g_reg) == X86_REG32 ? 32 : CLS(g_reg) == X86_REG64 || CLS(g_reg) == X86_RIP ? 64 : 0)
ENS(vf_asz == ASZ && RET == (ASZ != 0));

static void vf_usage_boot(void)
{
    int i;
    vf_ghost_init(); dd.regs = regs; dd.vsib_mode = ND(unsigned char) % 3; dd.bits = ND(unsigned char); dd.addrsize = ND_BOOL() ? 32 : 64; ASSUME(MODE_OK(dd.bits));
    for (i = 0; i < 33; i++) regs[i] = 0;
    d16.bx = d16.si = d16.di = d16.bp = 0;
}
void h_get_reg(void) { int *r; vf_usage_boot(); it.type = YASM_EXPR_REG; it.data.reg = g_reg = ND(unsigned char);
    r = x86_expr_checkea_get_reg3264(&it, &vf_rn, &dd); CHK(SLOT(g_reg) < 0 ? r == 0 : r == &regs[SLOT(g_reg)], "register slot"); CANARY; }
void h_get_reg16(void) { int *r; vf_usage_boot(); it.type = YASM_EXPR_REG; it.data.reg = g_reg = ND(unsigned char);
    r = x86_expr_checkea_get_reg16(&it, &vf_rn, &d16); CHK(CLS(g_reg) == X86_REG16 && !S16(g_reg) || r == S16(g_reg), "16-bit register slot"); CANARY; }
void h_getsize(void) { int r; vf_usage_boot(); vf_asz = 0; it.type = ND_BOOL() ? YASM_EXPR_REG : YASM_EXPR_INT; it.data.reg = g_reg = ND(unsigned char);
    r = x86_expr_checkea_getregsize_callback(&it, &vf_asz); CHK(r == (ASZ != 0) && vf_asz == ASZ, "address size of a register"); CANARY; }

static yasm_expr *ep;
/* sum of registers, scaled registers and integers */
void h_usage(void)
{
    int i, r, k, bad = 0, hint = -1, pcrel = 0, same = 1; long want[33]; uintptr_t reg;
    vf_usage_boot(); dd.vsib_mode = ND_BOOL(); if (dd.bits != 64) dd.addrsize = 32;
    for (i = 0; i < 33; i++) want[i] = 0;
    int kind[3] = { K0, K1, K2 };
    top.e.op = NT == 1 ? YASM_EXPR_IDENT : YASM_EXPR_ADD; top.e.numterms = NT;
    for (i = 0; i < NT; i++) {
        k = kind[i];
#ifdef FEW
        reg = i ? R1 : R0;
#else
        reg = ND(unsigned char);
#endif
        vf_ints[i] = ND(long);
        if (k == 0) { top.e.terms[i].type = YASM_EXPR_INT; top.e.terms[i].data.intn = (yasm_intnum *)&vf_ints[i]; }
        else if (k == 1) { top.e.terms[i].type = YASM_EXPR_REG; top.e.terms[i].data.reg = reg; }
        else { top.e.terms[i].type = YASM_EXPR_EXPR; top.e.terms[i].data.expn = &sub[i]; sub[i].op = YASM_EXPR_MUL; sub[i].numterms = 2;
               sub[i].terms[0].type = YASM_EXPR_REG; sub[i].terms[0].data.reg = reg; sub[i].terms[1].type = YASM_EXPR_INT; sub[i].terms[1].data.intn = (yasm_intnum *)&vf_ints[i];
               /* the multiplier 0 is simplified away beforehand */
               ASSUME(vf_ints[i] != 0); ASSUME(top.e.op == YASM_EXPR_ADD || i); }
        if (i < top.e.numterms && k) {
            int s = SLOT(reg);
            if (s < 0) bad = 1; else if (k == 2 && (vf_ints[i] < -0xFFFFF || vf_ints[i] > 0xFFFFF)) bad = 1; else want[s] += k == 1 ? 1 : vf_ints[i];
        }
    }
    ep = &top.e;
    r = x86_expr_checkea_getregusage(&ep, &hint, &pcrel, dd.bits, &dd, x86_expr_checkea_get_reg3264);
    LEMMA((r != 0) == bad && (r == 0 || r == 1), "a register that cannot be used, or a huge multiplier, is rejected");
    if (r == 0) {
        for (i = 0; i < 33; i++) if (regs[i] != want[i]) same = 0;
        LEMMA(same, "multipliers are the coefficients of the sum"); LEMMA(pcrel == 0, "not PC-relative");
        LEMMA(hint >= -1 && hint < 33, "index hint is a register");
        same = 1; for (i = 0; i < 33; i++) if (!(hint < 0 || regs[hint] <= 0 || regs[hint] >= 2 || regs[i] <= 1)) same = 0;
        LEMMA(same, "a hint of multiplier 1 only when nothing else is scaled");
    }
    CANARY;
}
#endif
