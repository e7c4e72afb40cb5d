#include "prelude.h"
#include "libyasm.h"
#define yasm_bc_finalize_common vf_bc_finalize_common
#define yasm_bc_expand_common vf_bc_expand_common
static void vf_bc_finalize_common(yasm_bytecode *bc, yasm_bytecode *prev_bc) {}
static int vf_bc_expand_common(yasm_bytecode *bc, int span, long o, long n, long *a, long *b) { return 0; }
#include "modules/arch/x86/x86bc.c"
#include "x86_spec.h"

/* ---------------- collaborators (assumed contracts, recorded as ghost) ---- */
static unsigned char vf_obuf[64], vf_exp[64], vf_data[2][16];
static unsigned char *vf_obp;
static unsigned vf_explen;
static struct { yasm_value *v; unsigned char *at; unsigned n; unsigned long off; unsigned size, sign; int warn; yasm_bytecode *bc; void *d; } ov[2];
static unsigned vf_nov; static int vf_ovfail;
static int vf_output_value(yasm_value *value, unsigned char *buf, unsigned int destsize, unsigned long offset, yasm_bytecode *bc, int warn, void *d)
{
    unsigned i;
    if (vf_nov < 2) {
        ov[vf_nov].v = value; ov[vf_nov].at = buf; ov[vf_nov].n = destsize; ov[vf_nov].off = offset; ov[vf_nov].warn = warn; ov[vf_nov].bc = bc; ov[vf_nov].d = d;
        ov[vf_nov].size = value->size; ov[vf_nov].sign = value->sign;
        for (i = 0; i < destsize && i < 16; i++) buf[i] = vf_data[vf_nov][i];
    }
    vf_nov++;
    return vf_ovfail;
}
/* integers and expressions: only the value of a created integer and the shape
 * of the created expression matter here */
static long vf_int; static unsigned vf_nint; static char vf_intobj, vf_numobj, vf_expr0, vf_expr1;
#define THE_INT ((yasm_intnum *)&vf_intobj)
#define THE_NUM ((yasm_intnum *)&vf_numobj)
#define OLD_ABS ((yasm_expr *)&vf_expr0)
#define NEW_ABS ((yasm_expr *)&vf_expr1)
static int vf_created; static long vf_gval; static int vf_known;
yasm_intnum *yasm_intnum_create_int(long i) { vf_int = i; vf_nint++; return THE_INT; }
yasm_intnum *yasm_intnum_create_uint(unsigned long i) { vf_int = (long)i; vf_nint++; return THE_INT; }
void yasm_intnum_destroy(yasm_intnum *n) { }
int yasm_intnum_in_range(const yasm_intnum *n, long lo, long hi) { return vf_gval >= lo && vf_gval <= hi; }
void yasm_value_initialize(yasm_value *value, yasm_expr *e, unsigned int size)
{
    value->abs = e; value->rel = 0; value->wrt = 0; value->seg_of = 0; value->rshift = 0; value->curpos_rel = 0; value->ip_rel = 0;
    value->jump_target = 0; value->section_rel = 0; value->no_warn = 0; value->sign = 0; value->size = (unsigned char)size;
}
yasm_intnum *yasm_value_get_intnum(yasm_value *v, yasm_bytecode *bc, int cbd) { return vf_known ? THE_NUM : 0; }
static yasm_expr__item vf_it[2]; static unsigned vf_nit;
yasm_expr__item *yasm_expr_int(yasm_intnum *n) { vf_it[vf_nit & 1].type = YASM_EXPR_INT; vf_it[vf_nit & 1].data.intn = n; return &vf_it[vf_nit++ & 1]; }
yasm_expr__item *yasm_expr_expr(yasm_expr *e) { vf_it[vf_nit & 1].type = YASM_EXPR_EXPR; vf_it[vf_nit & 1].data.expn = e; return &vf_it[vf_nit++ & 1]; }
/* OLD_ABS + THE_INT (either order), or THE_INT alone when there was no absolute part */
static int vf_isint(const yasm_expr__item *t) { return t->type == YASM_EXPR_INT && t->data.intn == THE_INT; }
static int vf_isold(const yasm_expr__item *t) { return t->type == YASM_EXPR_EXPR && t->data.expn == OLD_ABS; }
yasm_expr *yasm_expr_create(yasm_expr_op op, yasm_expr__item *l, yasm_expr__item *r, unsigned long line)
{
    vf_created = op == YASM_EXPR_IDENT && l && !r && vf_isint(l) ? 1
               : op == YASM_EXPR_ADD && l && r && ((vf_isint(l) && vf_isold(r)) || (vf_isold(l) && vf_isint(r))) ? 2 : 99;
    return NEW_ABS;
}
static struct { int id; long neg, pos; const yasm_value *v; yasm_bytecode *bc; void *d; } vf_sp[2];
static unsigned vf_nsp;
static void vf_add_span(void *d, yasm_bytecode *bc, int id, const yasm_value *v, long neg, long pos)
{
    if (vf_nsp < 2) { vf_sp[vf_nsp].id = id; vf_sp[vf_nsp].neg = neg; vf_sp[vf_nsp].pos = pos; vf_sp[vf_nsp].v = v; vf_sp[vf_nsp].bc = bc; vf_sp[vf_nsp].d = d; }
    vf_nsp++;
}

/* universe */
static yasm_bytecode bc, prevbc; static x86_insn in; static x86_effaddr ea; static yasm_value imm; static x86_jmp jmp; static x86_jmpfar jf;
static void vf_value(yasm_value *v)
{
    v->abs = ND_BOOL() ? OLD_ABS : 0; v->rel = ND_BOOL() ? (yasm_symrec *)&vf_intobj : 0; v->wrt = 0;
    v->seg_of = 0; v->rshift = 0; v->curpos_rel = ND_BOOL(); v->ip_rel = ND_BOOL(); v->jump_target = ND_BOOL(); v->section_rel = 0; v->no_warn = ND_BOOL();
    v->sign = ND_BOOL(); v->size = ND(unsigned char);
}
static void vf_common(x86_common *c)
{
    c->addrsize = ND(unsigned char); c->opersize = ND(unsigned char); c->lockrep_pre = ND(unsigned char); c->acqrel_pre = ND(unsigned char); c->mode_bits = ND(unsigned char);
    ASSUME(MODE_OK(c->mode_bits));
}
static void vf_opcode(x86_opcode *o) { o->opcode[0] = ND(unsigned char); o->opcode[1] = ND(unsigned char); o->opcode[2] = ND(unsigned char); o->len = ND(unsigned char); ASSUME(o->len <= 3); }
static void vf_x86_boot(void)
{
    vf_ghost_init();
    vf_nd_bytes(vf_data[0], 16); vf_nd_bytes(vf_data[1], 16);
    vf_nov = 0; vf_ovfail = 0; vf_nint = 0; vf_nit = 0; vf_nsp = 0; vf_created = 0; vf_obp = vf_obuf + 8; vf_int = 0;
    bc.len = 0; bc.line = ND(unsigned long); bc.contents = 0; bc.section = 0; vf_explen = 0;
}
static void vf_ea(void)
{
    vf_value(&ea.ea.disp); ASSUME(ea.ea.disp.size <= 64);
    ea.ea.segreg = ND(uintptr_t); ea.ea.need_nonzero_len = ND_BOOL(); ea.ea.need_disp = ND_BOOL(); ea.ea.nosplit = 0; ea.ea.strong = 0; ea.ea.pc_rel = 0; ea.ea.not_pc_rel = 0; ea.ea.data_len = 0;
    ea.vsib_mode = 0; ea.modrm = ND(unsigned char); ea.valid_modrm = ND_BOOL(); ea.need_modrm = ND_BOOL(); ea.sib = ND(unsigned char); ea.valid_sib = ND_BOOL(); ea.need_sib = ND(unsigned char);
}
static void vf_insn(void)
{
    vf_common(&in.common); vf_opcode(&in.opcode);
    in.x86_ea = 0; in.imm = 0;
#ifndef WITH_EA
#define WITH_EA ND_BOOL()
#define WITH_IMM ND_BOOL()
#endif
    if (WITH_EA) { in.x86_ea = &ea; vf_ea(); }
    if (WITH_IMM) { in.imm = &imm; vf_value(&imm); ASSUME(imm.size <= 64 && imm.size % 8 == 0); }
    in.def_opersize_64 = 0; in.special_prefix = ND(unsigned char); in.rex = ND(unsigned char); in.postop = ND_BOOL() ? X86_POSTOP_NONE : ND_BOOL() ? X86_POSTOP_SIGNEXT_IMM8 : X86_POSTOP_ADDRESS16;
    bc.contents = &in;
}
static void E1(unsigned char b) { vf_exp[vf_explen++] = b; }
#define M1(j) ((j) >= vf_explen || vf_obuf[8 + (j)] == vf_exp[j])
#define MATCH (vf_explen <= 30 && M1(0) && M1(1) && M1(2) && M1(3) && M1(4) && M1(5) && M1(6) && M1(7) && M1(8) && M1(9) && M1(10) && M1(11) && M1(12) && M1(13) && M1(14) && M1(15) \
    && M1(16) && M1(17) && M1(18) && M1(19) && M1(20) && M1(21) && M1(22) && M1(23) && M1(24) && M1(25) && M1(26) && M1(27) && M1(28) && M1(29))
/* exactly the expected bytes were written and the cursor is behind them */
#define EMITTED (vf_obp == vf_obuf + 8 + vf_explen && MATCH)
#define NPREF (HAS67(&in.common) + HAS66(&in.common))

/* canonical order of legacy prefixes */
static void vf_exp_common(const x86_common *c, unsigned seg)
{
    if (seg) E1((unsigned char)seg);
    if (HAS67(c)) E1(0x67);
    if (HAS66(c)) E1(0x66);
    if (c->acqrel_pre) E1(c->acqrel_pre);
    if (c->lockrep_pre) E1(c->lockrep_pre);
}

/* ---------------- contracts ---------------- */
#define OUT vf_obp, WHOLE(vf_obuf)
static unsigned char gr_rex; static uintptr_t gr_reg;   /* ghost: entry values */
#define RSIZE(r) ((r) & ~(uintptr_t)0xF)
#define NEEDS_REX(r) (RSIZE(r) == X86_REG8X || ((r) & 0xF) >= 8)
#define FORBIDS_REX(r) (RSIZE(r) == X86_REG8 && ((r) & 7) >= 4 && !NEEDS_REX(r))
int yasm_x86__set_rex_from_reg(unsigned char *rex, unsigned char *low3, uintptr_t reg, unsigned int bits, x86_rex_bit_pos rexbit)
REQ(reg == gr_reg && reg <= 0xFF && *rex == gr_rex && rexbit <= 3 && vf_nerr == 0) ASG(*rex, *low3, VF_GHOST)
ENS(*low3 == (reg & 7))
ENS(bits == 64 || (RET == 0 && *rex == gr_rex && vf_nerr == 0))
ENS(bits != 64 || !NEEDS_REX(reg) || (gr_rex == 0xff ? RET != 0 && vf_nerr > 0 && *rex == gr_rex
        : RET == 0 && vf_nerr == 0 && *rex == (gr_rex | 0x40 | ((reg & 8) ? 1 << rexbit : 0))))
ENS(bits != 64 || !FORBIDS_REX(reg) || (gr_rex != 0 && gr_rex != 0xff ? RET != 0 && vf_nerr > 0 && *rex == gr_rex : RET == 0 && vf_nerr == 0 && *rex == 0xff))
ENS(bits != 64 || NEEDS_REX(reg) || FORBIDS_REX(reg) || (RET == 0 && *rex == gr_rex && vf_nerr == 0));

static unsigned int x86_common_calc_len(const x86_common *common)
REQ(MODE_OK(common->mode_bits)) ASG() ENS(RET == LEN_COMMON(common));

static void x86_common_tobytes(const x86_common *common, unsigned char **bufp, unsigned int segreg)
REQ(bufp == &vf_obp && vf_obp == vf_obuf + 8) ASG(OUT) ENS(EMITTED);

static void x86_opcode_tobytes(const x86_opcode *opcode, unsigned char **bufp)
REQ(bufp == &vf_obp && vf_obp == vf_obuf + 8 && opcode->len <= 3) ASG(OUT) ENS(EMITTED);

#define OVS WHOLE(ov), vf_nov, vf_int, vf_nint, WHOLE(vf_it), vf_nit, vf_created
static yasm_expr *gt_abs; static int g_iprel, g_hasdisp, g_hasimm, g_sx; static unsigned g_disppos, g_immpos, g_displen, g_immlen;
#define BASE (vf_obuf + 8)
#define DISP_OK (ov[0].v == &ea.ea.disp && ov[0].n == g_displen && ov[0].at == BASE + g_disppos && ov[0].off == g_disppos + 5 && ov[0].bc == &bc && ov[0].d == &bc && ov[0].warn == 1)
#define IMM_OK(k) (ov[k].v == &imm && ov[k].n == g_immlen && ov[k].at == BASE + g_immpos && ov[k].off == g_immpos + 5 && ov[k].bc == &bc && ov[k].d == &bc && ov[k].warn == 1 \
    && (!g_sx || (ov[k].size == 8 && ov[k].sign == 1)))
#define INSN_WF (in.opcode.len <= 3 && (!in.x86_ea || EA_WF(&ea)) && (in.special_prefix != 0xC4 && in.special_prefix != 0x8F || in.opcode.len == 3) && (in.special_prefix != 0xC5 || (in.opcode.len == 2 && (in.rex == 0xff || (in.rex & 0xB) == 0))) \
   && (HASREX(&in) ? in.common.mode_bits == 64 : 1))
#define P_INSN_OUT(r) (vf_ovfail ? (r) != 0 || (!g_hasdisp && !g_hasimm && EMITTED) : (r) == 0 && EMITTED && vf_explen == bc.len \
      && vf_nov == B(g_hasdisp) + B(g_hasimm) && (!g_hasdisp || DISP_OK) && (!g_hasimm || (g_hasdisp ? IMM_OK(1) : IMM_OK(0))) \
      && (!g_iprel || (vf_int == -(long)bc.len && ea.ea.disp.abs == NEW_ABS && vf_created == (gt_abs ? 2 : 1))) \
      && (g_iprel || !in.x86_ea || ea.ea.disp.abs == gt_abs))
static int x86_bc_insn_tobytes(yasm_bytecode *b, unsigned char **bufp, unsigned char *bufstart, void *d, yasm_output_value_func output_value, yasm_output_reloc_func output_reloc)
REQ(b == &bc && bc.contents == &in && bufp == &vf_obp && bufstart == vf_obuf + 3 && INSN_WF && bc.len == LEN_INSN(&in))
ASG(OUT, OVS, in, ea, imm)
ENS(P_INSN_OUT(RET));

/* ---- instruction length ---- */
/* yasm_x86__expr_checkea: its contract is enforced by the x86expr unit */
static int vf_eafail; static x86_effaddr ndea; static unsigned char nd_addrsize, nd_rex;
int yasm_x86__expr_checkea(x86_effaddr *e, unsigned char *addrsize, unsigned int bits, int address16_op, unsigned char *rex, yasm_bytecode *b)
{
    if (vf_eafail) return 1;
    ea = ndea; *addrsize = nd_addrsize; *rex = nd_rex;
    return 0;
}
static x86_insn gin; static yasm_value gimm;    /* ghost: entry values */
#define SIGNEXT_SHORT (gin.postop == X86_POSTOP_SIGNEXT_IMM8 && vf_known && vf_gval >= -128 && vf_gval <= 127)
#define SIGNEXT_WIDE (gin.postop == X86_POSTOP_SIGNEXT_IMM8 && vf_known && !(vf_gval >= -128 && vf_gval <= 127))
#define IMM_LEN_OK (!in.imm || gin.postop != X86_POSTOP_SIGNEXT_IMM8 || (vf_known \
      ? in.postop == X86_POSTOP_NONE && (SIGNEXT_SHORT ? imm.size == 8 && imm.sign == 1 && in.opcode.opcode[0] == gin.opcode.opcode[0] && in.opcode.len == gin.opcode.len \
                                     : imm.size == gimm.size && in.opcode.len == 1 && in.opcode.opcode[0] == gin.opcode.opcode[gin.opcode.len]) \
      : in.postop == X86_POSTOP_SIGNEXT_IMM8 && in.opcode.len == gin.opcode.len && imm.size == gimm.size))
#define SPAN_IS(k, i, val, lo, hi) (vf_sp[k].id == (i) && vf_sp[k].v == (val) && vf_sp[k].neg == (lo) && vf_sp[k].pos == (hi) && vf_sp[k].bc == &bc && vf_sp[k].d == &bc)
#define VEX2_OK (gin.special_prefix != 0xC4 ? in.special_prefix == gin.special_prefix \
   : ((gin.opcode.opcode[0] & 0x1F) == 1 && (gin.opcode.opcode[1] & 0x80) == 0 && (in.rex == 0xff || (in.rex & 0x0B) == 0)) \
     ? in.special_prefix == 0xC5 && in.opcode.len == 2 && in.opcode.opcode[0] == gin.opcode.opcode[1] && in.opcode.opcode[1] == gin.opcode.opcode[2] \
     : in.special_prefix == 0xC4 && in.opcode.len == 3 && in.opcode.opcode[0] == gin.opcode.opcode[0] && in.opcode.opcode[1] == gin.opcode.opcode[1] && in.opcode.opcode[2] == gin.opcode.opcode[2])
#define CL_PRE (in.opcode.len <= 3 && (in.special_prefix != 0xC4 && in.special_prefix != 0x8F || in.opcode.len == 3) && in.special_prefix != 0xC5 \
   && (in.postop != X86_POSTOP_SIGNEXT_IMM8 || (in.opcode.len >= 1 && in.opcode.len <= 2 && !VEXP(&in) && in.imm)) && (HASREX(&in) ? in.common.mode_bits == 64 : 1))
#define SX_PENDING (in.imm && in.postop == X86_POSTOP_SIGNEXT_IMM8)
/* every widenable item has its span: displacement (id 1), immediate (id 2) */
#define SPANS_OK ((!SX_PENDING || (vf_nsp >= 1 && vf_sp[vf_nsp - 1].id == 2 && SPAN_IS(vf_nsp - 1, 2, &imm, -128, 127))) \
   && vf_nsp <= 2 && (vf_nsp < 1 || vf_sp[0].id == 2 || SPAN_IS(0, 1, &ea.ea.disp, -128, 127)) && (vf_nsp < 2 || vf_sp[1].id == 2) && (vf_nsp == 0 || vf_sp[0].id == 1 || SX_PENDING))
static int x86_bc_insn_calc_len(yasm_bytecode *b, yasm_bc_add_span_func add_span, void *d)
REQ(b == &bc && d == &bc && bc.contents == &in && bc.len == 0 && CL_PRE) ASG(bc.len, in, ea, imm, WHOLE(vf_sp), vf_nsp, VF_GHOST)
ENS(vf_eafail && in.x86_ea ? RET != 0 : RET == 0 && bc.len == LEN_INSN(&in) && INSN_WF && IMM_LEN_OK && VEX2_OK && SPANS_OK)
ENS(vf_eafail || !in.x86_ea || (ea.ea.disp.size != 0 || !ea.ea.need_nonzero_len))
ENS(vf_eafail || !in.x86_ea || gin.postop != X86_POSTOP_ADDRESS16 || in.common.addrsize == 0);

static x86_effaddr gea; static unsigned long g_len;
/* widening: displacement to the address size, immediate to its full form */
static int x86_bc_insn_expand(yasm_bytecode *b, int span, long ov_, long nv, long *neg, long *pos)
REQ(b == &bc && bc.contents == &in && bc.len == LEN_INSN(&in) && INSN_WF) ASG(bc.len, in, ea)
ENS(RET == 0 && bc.len == LEN_INSN(&in) && INSN_WF)
ENS(span != 1 || !in.x86_ea || (gea.ea.disp.size == 8 ? ea.ea.disp.size == (in.common.addrsize == 16 ? 16 : 32) && ea.modrm == ((gea.modrm & 0x3f) | 0x80) : ea.ea.disp.size == gea.ea.disp.size && ea.modrm == gea.modrm))
ENS(span != 2 || !in.imm || (gin.postop != X86_POSTOP_SIGNEXT_IMM8 ? in.opcode.len == gin.opcode.len && in.postop == gin.postop : in.postop == X86_POSTOP_NONE && in.opcode.len == 1 && in.opcode.opcode[0] == gin.opcode.opcode[gin.opcode.len]))
ENS(span == 1 || !in.x86_ea || (ea.ea.disp.size == gea.ea.disp.size && ea.modrm == gea.modrm))
ENS(span == 2 || (in.postop == gin.postop && in.opcode.len == gin.opcode.len));

/* ---- relative jumps ---- */
static int g_label, g_samesec, g_jfail; static x86_jmp gjmp;
#define HAS_S (jmp.shortop.len != 0)
#define HAS_N (jmp.nearop.len != 0)
int yasm_symrec_get_label(const yasm_symrec *s, yasm_symrec_get_label_bytecodep *p) { if (g_label) *p = &prevbc; return g_label; }
#define DISPN ((OPSZ(&jmp.common)) == 16 ? 2u : 4u)
#define LEN_JMP ((jmp.op_sel == JMP_SHORT || jmp.op_sel == JMP_SHORT_FORCED) ? LEN_COMMON(&jmp.common) + jmp.shortop.len + 1u : LEN_COMMON(&jmp.common) + jmp.nearop.len + DISPN)
#define LOCALTGT (!jmp.target.rel || (g_label && g_samesec))
#define JMP_WF ((jmp.op_sel == JMP_SHORT || jmp.op_sel == JMP_SHORT_FORCED) ? HAS_S : (jmp.op_sel == JMP_NEAR || jmp.op_sel == JMP_NEAR_FORCED) && HAS_N)
static int x86_bc_jmp_calc_len(yasm_bytecode *b, yasm_bc_add_span_func add_span, void *d)
REQ(b == &bc && d == &bc && bc.contents == &jmp && bc.len == 0 && (jmp.op_sel == JMP_NONE || jmp.op_sel == JMP_SHORT_FORCED || jmp.op_sel == JMP_NEAR_FORCED) && (HAS_S || HAS_N))
ASG(bc.len, jmp.op_sel, WHOLE(vf_sp), vf_nsp, VF_GHOST)
/* a form that does not exist is an error */
ENS((RET != 0) == ((gjmp.op_sel == JMP_NEAR_FORCED && !HAS_N) || (gjmp.op_sel == JMP_SHORT_FORCED && !HAS_S && !HAS_N)))
ENS(RET == 0 || vf_nerr > 0)
ENS(RET != 0 || (JMP_WF && bc.len == LEN_JMP))
/* NEAR asked for, or no short form: near, never re-examined */
ENS(RET != 0 || !(gjmp.op_sel == JMP_NEAR_FORCED || !HAS_S) || (vf_nsp == 0 && jmp.op_sel != JMP_SHORT && jmp.op_sel != JMP_SHORT_FORCED))
/* target outside the section (or external): near unless short was forced or is all there is */
ENS(RET != 0 || gjmp.op_sel == JMP_NEAR_FORCED || !HAS_S || LOCALTGT || (vf_nsp == 0 && (gjmp.op_sel == JMP_SHORT_FORCED || !HAS_N ? jmp.op_sel == JMP_SHORT_FORCED || jmp.op_sel == JMP_SHORT : jmp.op_sel == JMP_NEAR)))
/* otherwise short, re-examined whenever the displacement leaves -128..127 as
 * measured from the end of the instruction */
ENS(RET != 0 || gjmp.op_sel == JMP_NEAR_FORCED || !HAS_S || !LOCALTGT || (vf_nsp == 1 && SPAN_IS(0, 1, &jmp.target, -128 + (long)bc.len, 127 + (long)bc.len) && (jmp.op_sel == JMP_SHORT || jmp.op_sel == JMP_SHORT_FORCED)));

static int x86_bc_jmp_expand(yasm_bytecode *b, int span, long o, long n, long *neg, long *pos)
REQ(b == &bc && bc.contents == &jmp && span == 1 && JMP_WF && (jmp.op_sel == JMP_SHORT || jmp.op_sel == JMP_SHORT_FORCED) && bc.len == LEN_JMP)
ASG(bc.len, jmp.op_sel, VF_GHOST)
ENS((RET < 0) == (gjmp.op_sel == JMP_SHORT_FORCED || !HAS_N)) ENS(RET == 0 || (RET < 0 && vf_nerr > 0))
ENS(RET != 0 || (jmp.op_sel == JMP_NEAR && bc.len == LEN_JMP && vf_nerr == 0));

#define JT_OK (ov[0].v == &jmp.target && ov[0].n == g_displen && ov[0].at == BASE + g_disppos && ov[0].off == g_disppos + 5 && ov[0].size == 8 * g_displen && ov[0].sign == 1 && ov[0].bc == &bc && ov[0].d == &bc && ov[0].warn == 1)
static int x86_bc_jmp_tobytes(yasm_bytecode *b, unsigned char **bufp, unsigned char *bufstart, void *d, yasm_output_value_func output_value, yasm_output_reloc_func output_reloc)
REQ(b == &bc && d == &bc && bc.contents == &jmp && bufp == &vf_obp && bufstart == vf_obuf + 3 && JMP_WF && bc.len == LEN_JMP)
ASG(OUT, OVS, jmp, VF_GHOST)
ENS(vf_ovfail ? RET != 0 : RET == 0 && EMITTED && vf_explen == bc.len && vf_nov == 1 && JT_OK
    && vf_int == -(long)bc.len && jmp.target.abs == NEW_ABS && vf_created == (gt_abs ? 2 : 1));

#define FARN ((OPSZ(&jf.common)) == 16 ? 2u : 4u)
#define LEN_FAR (LEN_COMMON(&jf.common) + jf.opcode.len + FARN + 2u)
static int x86_bc_jmpfar_calc_len(yasm_bytecode *b, yasm_bc_add_span_func add_span, void *d)
REQ(b == &bc && bc.contents == &jf && bc.len == 0) ASG(bc.len, VF_GHOST) ENS(RET == 0 && bc.len == LEN_FAR);
static int x86_bc_jmpfar_tobytes(yasm_bytecode *b, unsigned char **bufp, unsigned char *bufstart, void *d, yasm_output_value_func output_value, yasm_output_reloc_func output_reloc)
REQ(b == &bc && d == &bc && bc.contents == &jf && bufp == &vf_obp && bufstart == vf_obuf + 3 && bc.len == LEN_FAR)
ASG(OUT, OVS, jf)
ENS(vf_ovfail ? RET != 0 : RET == 0 && EMITTED && vf_explen == bc.len && vf_nov == 2
    && ov[0].v == &jf.offset && ov[0].n == FARN && ov[0].at == BASE + g_disppos && ov[0].off == g_disppos + 5 && ov[0].size == 8 * FARN
    && ov[1].v == &jf.segment && ov[1].n == 2 && ov[1].at == BASE + g_disppos + FARN && ov[1].off == g_disppos + FARN + 5 && ov[1].size == 16);

/* ---- effective address construction ---- */
static unsigned char g_rex;
x86_effaddr *yasm_x86__ea_create_reg(x86_effaddr *e, unsigned long reg, unsigned char *rex, unsigned int bits)
REQ(e == 0 || e == &ea) REQ(*rex == gr_rex && reg == gr_reg && reg <= 0xFF && vf_nerr == 0) ASG(ea, *rex, VF_GHOST)
ENS((RET == 0) == (bits == 64 && ((NEEDS_REX(reg) && gr_rex == 0xff) || (FORBIDS_REX(reg) && gr_rex != 0 && gr_rex != 0xff))))
ENS(RET == 0 || (RET->modrm == (0xC0 | (reg & 7)) && RET->valid_modrm == 1 && RET->need_modrm == 1 && (e == 0 ? RET->need_sib == 0 && RET->ea.need_disp == 0 && RET->ea.segreg == 0 : RET == e)));

/* ---------------- harnesses ---------------- */
static unsigned char vf_rexv, vf_low3;
void h_set_rex(void) { vf_x86_boot(); gr_rex = vf_rexv = ND(unsigned char); gr_reg = ND(unsigned char); unsigned bits = ND(unsigned); unsigned bit = ND(unsigned) & 3; int r;
    r = yasm_x86__set_rex_from_reg(&vf_rexv, &vf_low3, gr_reg, bits, (x86_rex_bit_pos)bit);
    CHK(vf_low3 == (gr_reg & 7), "low bits of the register");
    if (bits != 64) CHK(r == 0 && vf_rexv == gr_rex, "no REX outside 64-bit mode");
    else if (NEEDS_REX(gr_reg)) CHK(gr_rex == 0xff ? r != 0 : r == 0 && vf_rexv == (gr_rex | 0x40 | ((gr_reg & 8) ? 1 << bit : 0)), "REX bit");
    else if (FORBIDS_REX(gr_reg)) CHK(gr_rex != 0 && gr_rex != 0xff ? r != 0 : r == 0 && vf_rexv == 0xff, "high byte register");
    else CHK(r == 0 && vf_rexv == gr_rex, "REX unchanged");
    CANARY; }
void h_common_len(void) { vf_x86_boot(); vf_common(&in.common); unsigned r = x86_common_calc_len(&in.common); CHK(r == LEN_COMMON(&in.common), "prefix count"); CANARY; }
void h_common_out(void) { vf_x86_boot(); vf_common(&in.common); unsigned seg = ND(unsigned char);
    vf_exp_common(&in.common, seg); x86_common_tobytes(&in.common, &vf_obp, seg); CHK(EMITTED, "prefix bytes"); CHK(vf_explen == LEN_COMMON(&in.common) + B(seg), "prefix length"); CANARY; }
void h_opcode_out(void) { vf_x86_boot(); vf_opcode(&in.opcode); unsigned i; for (i = 0; i < in.opcode.len; i++) E1(in.opcode.opcode[i]);
    x86_opcode_tobytes(&in.opcode, &vf_obp); CHK(EMITTED, "opcode bytes"); CANARY; }
void h_insn_out(void)
{
    unsigned i; int r; unsigned char op[3];
    vf_x86_boot(); vf_insn(); vf_ovfail = ND_BOOL();
    ASSUME(INSN_WF); bc.len = LEN_INSN(&in);
    gt_abs = in.x86_ea ? ea.ea.disp.abs : 0;
    /* expected encoding */
    vf_exp_common(&in.common, in.x86_ea ? (unsigned)(ea.ea.segreg >> 8) : 0);
    if (in.special_prefix) E1(in.special_prefix);
    op[0] = in.opcode.opcode[0]; op[1] = in.opcode.opcode[1]; op[2] = in.opcode.opcode[2];
    if (in.special_prefix == 0xC4 || in.special_prefix == 0x8F) {       /* R X B inverted, W */
        op[0] &= 0x1F;
        if (in.rex != 0xff) { op[0] |= ((in.rex & 4) ? 0 : 0x80) | ((in.rex & 2) ? 0 : 0x40) | ((in.rex & 1) ? 0 : 0x20); if (in.rex & 8) op[1] |= 0x80; }
    } else if (in.special_prefix == 0xC5) {
        op[0] &= 0x7F;
        if (in.rex != 0xff && !(in.rex & 4)) op[0] |= 0x80;
    } else if (in.rex != 0 && in.rex != 0xff) E1(in.rex);
    for (i = 0; i < in.opcode.len; i++) E1(op[i]);
    g_hasdisp = in.x86_ea && ea.ea.need_disp; g_displen = g_hasdisp ? ea.ea.disp.size / 8 : 0;
    g_iprel = g_hasdisp && ea.ea.disp.ip_rel;
    if (in.x86_ea) {
        if (ea.need_modrm) E1(ea.modrm);
        if (ea.need_sib) E1(ea.sib);
        g_disppos = vf_explen;
        for (i = 0; i < g_displen; i++) E1(vf_data[0][i]);
    }
    g_hasimm = in.imm != 0; g_sx = g_hasimm && in.postop == X86_POSTOP_SIGNEXT_IMM8; g_immlen = g_hasimm ? LEN_IMM(&in) : 0;
    g_immpos = vf_explen;
    for (i = 0; i < g_immlen; i++) E1(vf_data[g_hasdisp ? 1 : 0][i]);
    r = x86_bc_insn_tobytes(&bc, &vf_obp, vf_obuf + 3, &bc, vf_output_value, 0);
    CHK(P_INSN_OUT(r), "instruction bytes"); CANARY;
}
void h_insn_len(void)
{
    int r;
    vf_x86_boot(); vf_insn(); vf_ea(); ndea = ea; vf_ea(); vf_eafail = ND_BOOL();
    /* what checkea leaves behind (the x86expr contract) */
    nd_addrsize = ND(unsigned char); nd_rex = ND(unsigned char);
    ASSUME(EA_WF(&ndea) && ndea.ea.disp.size <= 64 && (ndea.ea.disp.size != 0 || !ndea.ea.need_nonzero_len || ndea.ea.need_disp));
    ASSUME(VEXP(&in) || nd_rex == 0 || nd_rex == 0xff || in.common.mode_bits == 64);
    vf_known = ND_BOOL(); vf_gval = ND(long);
    ASSUME(CL_PRE); gin = in; gimm = imm;
    r = x86_bc_insn_calc_len(&bc, vf_add_span, &bc);
    if (vf_eafail && in.x86_ea) CHK(r != 0, "bad effective address is an error");
    else { CHK(r == 0 && bc.len == LEN_INSN(&in), "length"); CHK(INSN_WF && IMM_LEN_OK && VEX2_OK && SPANS_OK, "instruction state"); }
    CANARY;
}
void h_insn_expand(void)
{
    int r, span; long a, b;
    vf_x86_boot(); vf_insn(); ASSUME(INSN_WF); bc.len = LEN_INSN(&in); gin = in; gea = ea; gimm = imm; span = ND(int);
    ASSUME(in.postop != X86_POSTOP_SIGNEXT_IMM8 || (in.imm && in.opcode.len >= 1 && in.opcode.len <= 2 && !VEXP(&in)));
    r = x86_bc_insn_expand(&bc, span, ND(long), ND(long), &a, &b);
    CHK(r == 0 && bc.len == LEN_INSN(&in) && INSN_WF, "length after widening"); 
    if (span == 1 && in.x86_ea && gea.ea.disp.size == 8) CHK(ea.ea.disp.size == (in.common.addrsize == 16 ? 16 : 32) && ea.modrm == ((gea.modrm & 0x3f) | 0x80), "widened displacement");
    if (span == 2 && gin.imm && gin.postop == X86_POSTOP_SIGNEXT_IMM8) CHK(in.postop == X86_POSTOP_NONE && in.opcode.len == 1 && in.opcode.opcode[0] == gin.opcode.opcode[gin.opcode.len], "widened immediate");
    CANARY;
}
static void vf_jmp(void)
{
    vf_common(&jmp.common); vf_opcode(&jmp.shortop); vf_opcode(&jmp.nearop); vf_value(&jmp.target);
    jmp.op_sel = (x86_jmp_opcode_sel)(ND(unsigned) % 5); bc.contents = &jmp; gt_abs = jmp.target.abs;
    bc.section = (yasm_section *)&vf_intobj; prevbc.section = ND_BOOL() ? (yasm_section *)&vf_intobj : (yasm_section *)&vf_numobj;
    g_samesec = prevbc.section == bc.section; g_label = ND_BOOL(); gjmp = jmp;
}
void h_jmp_len(void)
{
    int r; vf_x86_boot(); vf_jmp(); ASSUME((HAS_S || HAS_N) && (jmp.op_sel == JMP_NONE || jmp.op_sel == JMP_SHORT_FORCED || jmp.op_sel == JMP_NEAR_FORCED));
    r = x86_bc_jmp_calc_len(&bc, vf_add_span, &bc);
    CHK((r != 0) == ((gjmp.op_sel == JMP_NEAR_FORCED && !HAS_N) || (gjmp.op_sel == JMP_SHORT_FORCED && !HAS_S && !HAS_N)), "missing form is an error");
    if (r == 0) {
        CHK(JMP_WF && bc.len == LEN_JMP, "jump length");
        if (gjmp.op_sel == JMP_NEAR_FORCED || !HAS_S) CHK(vf_nsp == 0 && jmp.op_sel != JMP_SHORT && jmp.op_sel != JMP_SHORT_FORCED, "near");
        else if (!LOCALTGT) CHK(vf_nsp == 0 && (gjmp.op_sel == JMP_SHORT_FORCED || !HAS_N ? jmp.op_sel == JMP_SHORT_FORCED || jmp.op_sel == JMP_SHORT : jmp.op_sel == JMP_NEAR), "external target");
        else CHK(vf_nsp == 1 && SPAN_IS(0, 1, &jmp.target, -128 + (long)bc.len, 127 + (long)bc.len) && (jmp.op_sel == JMP_SHORT || jmp.op_sel == JMP_SHORT_FORCED), "short with span");
    }
    CANARY;
}
void h_jmp_expand(void)
{
    int r; long a, b; vf_x86_boot(); vf_jmp(); ASSUME(JMP_WF && (jmp.op_sel == JMP_SHORT || jmp.op_sel == JMP_SHORT_FORCED)); bc.len = LEN_JMP;
    r = x86_bc_jmp_expand(&bc, 1, ND(long), ND(long), &a, &b);
    CHK((r < 0) == (gjmp.op_sel == JMP_SHORT_FORCED || !HAS_N), "short out of range"); if (r == 0) CHK(jmp.op_sel == JMP_NEAR && bc.len == LEN_JMP, "widened jump"); CANARY;
}
void h_jmp_out(void)
{
    int r; unsigned i; const x86_opcode *o; vf_x86_boot(); vf_jmp(); vf_ovfail = ND_BOOL(); ASSUME(JMP_WF); bc.len = LEN_JMP;
    vf_exp_common(&jmp.common, 0);
    if (jmp.op_sel == JMP_SHORT || jmp.op_sel == JMP_SHORT_FORCED) { o = &jmp.shortop; g_displen = 1; } else { o = &jmp.nearop; g_displen = DISPN; }
    for (i = 0; i < o->len; i++) E1(o->opcode[i]);
    g_disppos = vf_explen;
    for (i = 0; i < g_displen; i++) E1(vf_data[0][i]);
    r = x86_bc_jmp_tobytes(&bc, &vf_obp, vf_obuf + 3, &bc, vf_output_value, 0);
    CHK(vf_ovfail ? r != 0 : r == 0 && EMITTED && vf_explen == bc.len && vf_nov == 1 && JT_OK && vf_int == -(long)bc.len && jmp.target.abs == NEW_ABS && vf_created == (gt_abs ? 2 : 1), "jump bytes"); CANARY;
}
static void vf_jf(void) { vf_common(&jf.common); vf_opcode(&jf.opcode); vf_value(&jf.segment); vf_value(&jf.offset); bc.contents = &jf; }
void h_far_len(void) { int r; vf_x86_boot(); vf_jf(); r = x86_bc_jmpfar_calc_len(&bc, vf_add_span, &bc); CHK(r == 0 && bc.len == LEN_FAR, "far jump length"); CANARY; }
void h_far_out(void)
{
    int r; unsigned i; vf_x86_boot(); vf_jf(); vf_ovfail = ND_BOOL(); bc.len = LEN_FAR; vf_exp_common(&jf.common, 0);
    for (i = 0; i < jf.opcode.len; i++) E1(jf.opcode.opcode[i]);
    g_disppos = vf_explen;
    for (i = 0; i < FARN; i++) E1(vf_data[0][i]);
    E1(vf_data[1][0]); E1(vf_data[1][1]);
    r = x86_bc_jmpfar_tobytes(&bc, &vf_obp, vf_obuf + 3, &bc, vf_output_value, 0);
    CHK(vf_ovfail ? r != 0 : r == 0 && EMITTED && vf_explen == bc.len && vf_nov == 2 && ov[0].v == &jf.offset && ov[0].n == FARN && ov[0].size == 8 * FARN && ov[1].v == &jf.segment && ov[1].n == 2 && ov[1].size == 16, "far jump bytes"); CANARY;
}
void h_ea_reg(void)
{
    x86_effaddr *r; unsigned bits = ND(unsigned); vf_x86_boot(); vf_ea(); gr_rex = vf_rexv = ND(unsigned char); gr_reg = ND(unsigned char);
    r = yasm_x86__ea_create_reg(ND_BOOL() ? &ea : 0, gr_reg, &vf_rexv, bits);
    CHK((r == 0) == (bits == 64 && ((NEEDS_REX(gr_reg) && gr_rex == 0xff) || (FORBIDS_REX(gr_reg) && gr_rex != 0 && gr_rex != 0xff))), "register operand error");
    if (r) CHK(r->modrm == (0xC0 | (gr_reg & 7)) && r->valid_modrm == 1 && r->need_modrm == 1, "register operand"); CANARY;
}
