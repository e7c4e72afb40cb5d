/* Shared vocabulary of the x86 units: lengths and well-formedness of the
 * instruction records, independent of the code that emits them. */
#ifndef X86_SPEC_H
#define X86_SPEC_H
#define B(x) ((x) ? 1u : 0u)
#define OPSZ(c) ((c)->opersize == 0 ? (c)->mode_bits : (c)->opersize)
/* prefix bytes implied by the operand/address size of the instruction */
#define HAS67(c) ((c)->addrsize != 0 && (c)->addrsize != (c)->mode_bits)
#define HAS66(c) ((c)->opersize != 0 && ((c)->mode_bits == 64 ? (c)->opersize == 16 : (c)->opersize != (c)->mode_bits))
#define LEN_COMMON(c) (B(HAS67(c)) + B(HAS66(c)) + B((c)->lockrep_pre != 0) + B((c)->acqrel_pre != 0))
#define VEXP(i) ((i)->special_prefix == 0xC4 || (i)->special_prefix == 0xC5 || (i)->special_prefix == 0x8F)
#define HASREX(i) (!VEXP(i) && (i)->rex != 0 && (i)->rex != 0xff)
#define LEN_EA(e) (B((e)->ea.segreg != 0) + (e)->need_modrm + B((e)->need_sib != 0) + (e)->ea.disp.size / 8)
#define LEN_IMM(i) ((i)->postop == X86_POSTOP_SIGNEXT_IMM8 ? 1u : (i)->imm->size / 8u)
#define LEN_INSN(i) (LEN_COMMON(&(i)->common) + B((i)->special_prefix != 0) + B(HASREX(i)) + (i)->opcode.len \
    + ((i)->x86_ea ? LEN_EA((i)->x86_ea) : 0u) + ((i)->imm ? LEN_IMM(i) : 0u))
/* what a finished effective address looks like */
#define EA_WF(e) ((e)->need_modrm <= 1 && (e)->need_sib <= 1 && (!(e)->need_modrm || (e)->valid_modrm) && (!(e)->need_sib || (e)->valid_sib) \
    && ((e)->ea.segreg == 0 || ((e)->ea.segreg >> 8 != 0 && (e)->ea.segreg >> 8 < 256)) && ((e)->ea.need_disp || (e)->ea.disp.size == 0) && (e)->ea.disp.size % 8 == 0)
#define MODE_OK(m) ((m) == 16 || (m) == 32 || (m) == 64)
#endif
