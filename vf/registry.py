from run import Ob
PROPS = {}
def U(h, fn, defs=(), **k):
    return Ob("bitvect", h, fn, defs=defs, unwind=34, **k)

MUL_ANN = [("libyasm/bitvect.c", r"ErrCode BitVector_Mul_Pos\(.*?for \( count = 0; \(ok and \(count <= limit\)\); count\+\+ \)",
  "\n__CPROVER_assigns(count, ok, overflow, carry, __CPROVER_object_upto(X, 32), __CPROVER_object_upto(Y, 32))"
  "\n__CPROVER_loop_invariant(limit < 256 && (gY >> limit) == 1 && count <= limit + 1 && (ok == 0 || ok == 1) && sign == Y + 7"
  " && (!ok || (PSUM(count) < ((u512)1 << (strict ? 255 : 256)) && V(X) == (u256)PSUM(count)))"
  " && (!ok || count > limit || (((u512)gX << count) < ((u512)1 << (strict ? 255 : 256)) && V(Y) == (gX << count)))"
  " && (ok || gP >= ((u512)1 << (strict ? 255 : 256)))"
  " && gP == PSUM(limit + 1))"
  "\n__CPROVER_decreases(limit + 1 - count)\n"),
  ("libyasm/bitvect.c", r"__CPROVER_decreases\(limit \+ 1 - count\)\s*\{", " vf_ax_mul(count, limit);")]
DIV_ANN = [("libyasm/bitvect.c", r"ErrCode BitVector_Div_Pos\(.*?while \(bits-- > 0\)",
  "\n__CPROVER_assigns(bits, addr, mask, flag, copy, __CPROVER_object_upto(Q, 32), __CPROVER_object_upto(X, 32), __CPROVER_object_upto(R, 32))"
  "\n__CPROVER_loop_invariant(bits <= 256 && (copy == 0 || copy == 1) && (copy ? V(X) : V(R)) == PREM(bits) && PREM(bits) < gY"
  " && V(Q) == (bits >= 256 ? gX : ((gQ >> bits) << bits) | (gX & ((ONE << bits) - 1))))"
  "\n__CPROVER_decreases(bits)\n"),
  ("libyasm/bitvect.c", r"__CPROVER_decreases\(bits\)\s*\{", " vf_ax_div(bits);")]
BVL = ["BitVector_compute","BitVector_shift_left","Set_Max","BitVector_Empty","BitVector_is_empty","BitVector_Copy"]
MULDIV = [Ob("bitvect","h_mulpos","BitVector_Mul_Pos",defs=["GHOST"]+d,replace=BVL,unwind=40,annotate=MUL_ANN,loop_contracts=True,weight=9,
   fallback=Ob("bitvect","h_mulpos","BitVector_Mul_Pos",defs=["SMALLZ"]+d,replace=BVL,unwind=40,bounded="multiplier < 64"))
   for d in ([], ["Z32"])] + [
  Ob("bitvect","h_divpos","BitVector_Div_Pos",defs=["GHOST"],replace=BVL,unwind=40,annotate=DIV_ANN,loop_contracts=True,weight=9,
   fallback=Ob("bitvect","h_divpos","BitVector_Div_Pos",defs=["SMALLX"],replace=BVL,unwind=40,unwindset=["BitVector_Div_Pos.0:6"],bounded="operands < 16")),
  Ob("bitvect","h_multiply","BitVector_Multiply",replace=["BitVector_Mul_Pos","BitVector_Negate","BitVector_Copy","BitVector_Empty","BitVector_is_empty"],unwind=40),
  Ob("bitvect","h_divide","BitVector_Divide",replace=["BitVector_Div_Pos","BitVector_Negate","BitVector_Copy","BitVector_Empty","BitVector_is_empty"],unwind=40)]
# BitVector_Interval_Copy: split on the word offset XW of the destination and
# the number NW of whole source words (quick: XW=0 only, the offset every
# caller in intnum.c uses for whole-value copies; thorough: all offsets)
ICOPY = [Ob("bitvect","h_icopy","BitVector_Interval_Copy",defs=["XW=0","NW=%d"%k],unwind=40,solver="minisat2",weight=5) for k in range(8)] + [
         Ob("bitvect","h_icopy","BitVector_Interval_Copy",defs=["XW=%d"%x,"NW=%d"%k],unwind=40,solver="minisat2",tier="thorough",timeout=800) for x in range(1,8) for k in range(8)]
def bv_obs():
    o = [U("h_empty","BitVector_Empty"), U("h_is_empty","BitVector_is_empty"), U("h_sign","BitVector_Sign"),
         U("h_lsb","BitVector_LSB"), U("h_msb","BitVector_msb_"), U("h_shl","BitVector_shift_left"),
         U("h_shr","BitVector_shift_right"), U("h_movl","BitVector_Move_Left", replace=["BitVector_shift_left"]),
         U("h_add","BitVector_add"), U("h_sub","BitVector_sub"), U("h_max","Set_Max"), U("h_max32","Set_Max"),
         U("h_chunk_store","BitVector_Chunk_Store"), U("h_chunk_read","BitVector_Chunk_Read"),
         U("h_block_store","BitVector_Block_Store"), U("h_block_read","BitVector_Block_Read"),
         U("h_fill","BitVector_Interval_Fill")]
    for a in ("AL=0","AL=1"):
        for h, f in (("h_copy","BitVector_Copy"),("h_equal","BitVector_equal"),("h_compare","BitVector_Compare"),
                     ("h_inc","BitVector_inc"),("h_dec","BitVector_dec"),("h_negate","BitVector_Negate"),("h_compl","Set_Complement")):
            o.append(U(h, f, [a]))
    for a in range(5):
        for h, f in (("h_union","Set_Union"),("h_inter","Set_Intersection"),("h_xor","Set_ExclusiveOr")):
            o.append(U(h, f, ["AL=%d"%a]))
    for a in range(6):
        for m in (0,1):
            o.append(U("h_compute","BitVector_compute",["AL=%d"%a,"MINUS=%d"%m]))
    return o
def bv(*fns):
    return [o for o in bv_obs() if o.fn in fns]
PROPS["BV"] = dict(obs=bv_obs()+MULDIV+ICOPY)

BVC = ["BitVector_add","BitVector_sub","BitVector_Multiply","BitVector_Divide","BitVector_Compare","BitVector_equal",
       "BitVector_Negate","BitVector_shift_right","BitVector_Move_Left","Set_Max","BitVector_Chunk_Store","BitVector_Chunk_Read",
       "BitVector_is_empty", "BitVector_Interval_Fill", "BitVector_Interval_Copy", "BitVector_dec","BitVector_Sign","BitVector_Copy"]

OPS = ["IDENT","ADD","SUB","MUL","DIV","SIGNDIV","MOD","SIGNMOD","NEG","NOT","OR","AND","XOR","XNOR","NOR","SHL","SHR","LOR","LAND","LNOT","LXOR","LXNOR","LNOR","LT","GT","EQ","LE","GE","NE","NONNUM","SEG","WRT","SEGOFF"]
SHR_ANN = [("libyasm/intnum.c", r"while \(count-- > 0\)",
  "\n__CPROVER_assigns(count, __CPROVER_object_upto(result, 32))"
  "\n__CPROVER_loop_invariant(count <= 256 && count <= __CPROVER_loop_entry(count) && V(result) == (u256)(SG(__CPROVER_loop_entry(V(result))) >> (__CPROVER_loop_entry(count) - count)))"
  "\n__CPROVER_decreases(count)\n")]
def calc_obs():
    o = []
    for op in OPS:
        for ra, rb in ((0,0),(1,1),(0,1),(1,0),(2,3)):
            tier = "quick" if (ra,rb) in ((0,0),(1,1)) or op in ("ADD","SHL","DIV") else "thorough"
            d = ["OP=YASM_EXPR_"+op,"RA=%d"%ra,"RB=%d"%rb]
            if op == "SHR" and rb == 0:
                o.append(Ob("intnum","h_calc","yasm_intnum_calc",defs=d,replace=BVC+['BitVector_Empty','BIT_VECTOR_cpy_words'],unwind=40,annotate=SHR_ANN,loop_contracts=True,tier=tier,
                   fallback=Ob("intnum","h_calc","yasm_intnum_calc",defs=d+["MAXCNT=20"],replace=BVC,unwind=23,bounded="shift counts <= 20")))
            else:
                o.append(Ob("intnum","h_calc","yasm_intnum_calc",defs=d,replace=BVC,unwind=40,tier=tier))
    return o
PROPS["C01"] = dict(obs=calc_obs() + MULDIV + [o for o in bv_obs() if o.fn not in ("Set_Max","BitVector_Interval_Fill")])

def I(h, fn, defs=(), **k):
    k.setdefault("unwind", 40); k.setdefault("replace", BVC)
    return Ob("intnum", h, fn, defs=list(defs), **k)
def reps(h, fn, two=False, defs=(), **k):
    if two:
        return [I(h, fn, ["RA=%d"%a, "RB=%d"%b]+list(defs), **k) for a in (0,1) for b in (0,1)]
    return [I(h, fn, ["RA=%d"%a]+list(defs), **k) for a in (0,1)]
C5BV = ("BitVector_Empty","BitVector_Copy","BitVector_Negate","BitVector_Compare","BitVector_Sign","BitVector_msb_","BitVector_is_empty",
        "Set_Max","BitVector_Chunk_Store","BitVector_Chunk_Read")
PROPS["C05"] = dict(obs=[I("h_create_uint","yasm_intnum_create_uint"), I("h_create_int","yasm_intnum_create_int")]
  + reps("h_copy","yasm_intnum_copy") + reps("h_compare","yasm_intnum_compare",True) + reps("h_zero","yasm_intnum_zero")
  + reps("h_set","yasm_intnum_set",True) + reps("h_set_uint","yasm_intnum_set_uint") + reps("h_set_int","yasm_intnum_set_int")
  + sum([reps("h_"+f,"yasm_intnum_"+f) for f in ("is_zero","is_pos1","is_neg1","sign","get_uint","get_int","in_range")],[])
  + bv(*C5BV))
def RSANN(fn, var):
    return [("libyasm/intnum.c", r"\n%s\(.*?while \(rshift-- > 0\)" % fn,
  "\n__CPROVER_assigns(rshift, __CPROVER_object_upto(%s, 32))"
  "\n__CPROVER_loop_invariant(rshift <= 256 && rshift <= __CPROVER_loop_entry(rshift) && V(%s) == (u256)(SG(__CPROVER_loop_entry(V(%s))) >> (__CPROVER_loop_entry(rshift) - rshift)))"
  "\n__CPROVER_decreases(rshift)\n" % (var, var, var))]
LCR = BVC + ["BitVector_Empty", "BIT_VECTOR_cpy_words"]
GSR = BVC + ["BitVector_Empty","yasm_intnum_check_size","BitVector_Block_Store","BitVector_Block_Read"]
def rs_obs():
    o = []
    for ra in (0, 1):
        d = ["RA=%d" % ra]
        o.append(I("h_check_size","yasm_intnum_check_size",d+["RSMIN=1"],replace=LCR,annotate=RSANN("yasm_intnum_check_size","val"),loop_contracts=True,
                   fallback=I("h_check_size","yasm_intnum_check_size",d+["RSMIN=1","RSMAX=8"],bounded="right shifts <= 8")))
        o.append(I("h_get_sized","yasm_intnum_get_sized",d+["SHMAX=-1"],weight=20,replace=LCR+["yasm_intnum_check_size","BitVector_Block_Store","BitVector_Block_Read"],annotate=RSANN("yasm_intnum_get_sized","op2"),loop_contracts=True,
                   fallback=I("h_get_sized","yasm_intnum_get_sized",d+["SHMAX=-1","SHMIN=-8"],bounded="right shifts <= 8")))
    return o
PROPS["C03"] = dict(obs=reps("h_check_size","yasm_intnum_check_size",defs=["RSMAX=0"]) + [I("h_create_sized","yasm_intnum_create_sized")]
  + reps("h_get_sized","yasm_intnum_get_sized",defs=["SHMIN=0"],replace=GSR) + rs_obs() + ICOPY
  + bv("BitVector_Block_Store","BitVector_Block_Read","BitVector_Interval_Fill","BitVector_Move_Left","BitVector_shift_left","BitVector_shift_right","BitVector_dec",*C5BV))
PROPS["C04"] = dict(obs=sum([reps("h_get_leb128","yasm_intnum_get_leb128",defs=["SIGN=%d"%g])+reps("h_size_leb128","yasm_intnum_size_leb128",defs=["SIGN=%d"%g])
   +reps("h_leb_agree",None,defs=["SIGN=%d"%g]) for g in (0,1)],[]) + [I("h_get_sleb","yasm_get_sleb128"), I("h_get_uleb","yasm_get_uleb128"), I("h_leb_agree_l",None)]
  + bv(*C5BV))

# ---------------- x86 instruction bytecodes ----------------
def X(h, fn, defs=(), **k):
    k.setdefault("unwind", 18)
    return Ob("x86bc", h, fn, defs=list(defs), **k)
X86_INSN = [X("h_set_rex","yasm_x86__set_rex_from_reg"), X("h_common_len","x86_common_calc_len"), X("h_common_out","x86_common_tobytes"),
  X("h_opcode_out","x86_opcode_tobytes"), *[X("h_insn_out","x86_bc_insn_tobytes",["WITH_EA=%d"%a,"WITH_IMM=%d"%b]) for a in (0,1) for b in (0,1)], X("h_insn_len","x86_bc_insn_calc_len"), X("h_insn_expand","x86_bc_insn_expand"),
  X("h_far_len","x86_bc_jmpfar_calc_len"), X("h_far_out","x86_bc_jmpfar_tobytes"), X("h_ea_reg","yasm_x86__ea_create_reg")]
X86_JMP = [X("h_jmp_len","x86_bc_jmp_calc_len"), X("h_jmp_expand","x86_bc_jmp_expand"), X("h_jmp_out","x86_bc_jmp_tobytes")]
PROPS["C11"] = dict(obs=X86_INSN)
PROPS["C09"] = dict(obs=X86_JMP + [X("h_common_len","x86_common_calc_len"), X("h_common_out","x86_common_tobytes"), X("h_opcode_out","x86_opcode_tobytes")])

def XE(h, fn, defs=(), **k):
    k.setdefault("unwind", 36)
    return Ob("x86expr", h, fn, defs=list(defs), replace=["x86_expr_checkea_getregusage"], **k)
X86_EA = [XE("h_ea32","yasm_x86__expr_checkea",["VSIB=%d"%v,"AS=%d"%a]) for v in (0,1) for a in (32,64)] + [XE("h_ea16","yasm_x86__expr_checkea"), XE("h_ea_other","yasm_x86__expr_checkea")]
X86_EA += [Ob("x86expr",h,f,defs=["VF_TREE"],unwind=36) for h,f in (("h_get_reg","x86_expr_checkea_get_reg3264"),("h_get_reg16","x86_expr_checkea_get_reg16"),("h_getsize","x86_expr_checkea_getregsize_callback"))]
def USE(n, a, b, regs, tier):
    return Ob("x86expr","h_usage",None,flags=["--no-array-field-sensitivity"],defs=["VF_TREE","NT=%d"%n,"K0=%d"%a,"K1=%d"%b,"K2=0"]+(["FEW","R0=%d"%regs[0],"R1=%d"%regs[1]] if regs else []),tier=tier,unwind=5,
       unwindset=["h_usage.0:34","h_usage.2:34","h_usage.3:34","vf_usage_boot.0:34","x86_expr_checkea_distcheck_reg:3"],bounded="sums of at most 2 terms" + (", registers %#x %#x" % regs if regs else ""))
X86_EA += [USE(1,1,0,0,"quick")] + [USE(2,a,b,r,"quick") for a in (1,2) for b in (1,2) for r in ((0x40,0x41),(0x40,0x40),(0x5c,0x55))] + [USE(2,a,b,0,"thorough") for a in (0,1,2) for b in (0,1,2)]
PROPS["C10"] = dict(obs=X86_EA + [o for o in X86_INSN if o.harness in ("h_set_rex","h_ea_reg")])

# ---------------- layout bytecodes ----------------
def B(h, fn=None, defs=(), **k):
    k.setdefault("unwind", 18)
    return Ob("bcs", h, fn, defs=list(defs), **k)
CFILL_ANN = [("libyasm/bc-align.c", r"while \(len > maxlen\)",
  "\n__CPROVER_assigns(len, *bufp, vf_bad, vf_done)"
  "\n__CPROVER_loop_invariant(!vf_bad && len > 0 && len <= __CPROVER_loop_entry(len) && vf_done == __CPROVER_loop_entry(len) - len && *bufp == vf_base + vf_done)"
  "\n__CPROVER_decreases(len)\n")]
ORG_ANN = [("libyasm/bc-org.c", r"for \(i=0; i<len; i\+\+\)",
  "\n__CPROVER_assigns(i, *bufp, __CPROVER_object_whole(org_buf))"
  "\n__CPROVER_loop_invariant(i <= len && *bufp == org_buf + i && (org_j >= i || org_buf[org_j] == (unsigned char)org->fill))"
  "\n__CPROVER_decreases(len - i)\n")]
ALIGN = [B("h_align_expand","bc_align_expand",canary=False,solver="cvc5",timeout=300), B("h_align_len",canary=False,solver="cvc5",timeout=300),
  B("h_align_out",defs=["RECORD"],solver="cvc5",timeout=300,annotate=CFILL_ANN,loop_contracts=True,fallback=B("h_align_out",bounded="alignment boundaries of at most 48",unwind=66))]
ORG = [B("h_org_expand","bc_org_expand"), B("h_org_len"), B("h_org_out",annotate=ORG_ANN,loop_contracts=True,fallback=B("h_org_out",defs=["ORGMAX=16"],bounded="at most 16 fill bytes"))]
BCOUT = [B("h_calc_len"), B("h_expand"), B("h_tobytes",bounded="at most 4 copies of at most 6 bytes"), B("h_dist"), B("h_multiple"), B("h_reserve"),
  B("h_incbin_final"), B("h_incbin_bad"), B("h_incbin"), B("h_incbin_short")]
PROPS["C07"] = dict(obs=ALIGN + ORG)
PROPS["C08"] = dict(obs=BCOUT)
FILL = [Ob("x86arch","h_fill",None,unwind=20), Ob("x86arch","h_fill_other",None,unwind=20)]
PROPS["C07"]["obs"] += FILL
# ---------------- data directives (lists of at most 2/3 items) ----------------
DB = "lists of at most %d items, strings of at most 4 bytes, repeat counts of at most 3"
def D(h, n=2, defs=(), **k):
    k.setdefault("bounded", DB % n)
    return Ob("bcdata", h, None, defs=["NI=%d" % n] + list(defs), unwind=66, flags=["--object-bits","12"], **k)
DATA = [D("h_create",2,["SIZE=%d"%z,"AZ=%d"%a,"WARCH=%d"%w,"SH0=%d"%s0], tier="quick" if z == 4 or s0 < (8 if a else 4 if z == 10 else 3) else "thorough") for z,a,w in ((1,0,1),(2,0,1),(4,0,1),(1,1,1),(2,0,0),(10,0,1)) for s0 in range(12)]
DATA += [D("h_create",3,["SIZE=2","AZ=%d"%a,"WARCH=1","SH0=%d"%s0,"SH2=%d"%s2],tier="thorough") for a in (0,1) for s0 in range(12) for s2 in range(12)]
DATA += [D("h_output",2,["SH0=%d"%s]) for s in (0,1,4,9)] + [D("h_final",2), D("h_final1",1)]
PROPS["C12"] = dict(obs=DATA, level="other", explanation="Bounded deductive check: the real data-directive functions are executed symbolically over every list of the stated number of items and every item shape; string bytes are arbitrary. No unbounded proof is claimed.")
# ---------------- virtual lines and diagnostics ----------------
def L(h, **k):
    k.setdefault("unwind", 18)
    return Ob("linemap", h, None, **k)
LBND = "maps of at most 8 mappings, lines below 2^16, increments below 16"
LINES = [L("h_lookup",defs=["STATICMAP","N=%d"%n],bounded=LBND) for n in (1,2,3,5,7)] + [L("h_set",defs=["STATICMAP","N=%d"%n],bounded=LBND) for n in range(0,4)] \
  + [L("h_set",defs=["N=%d"%n],bounded=LBND) for n in (1,)] + [L("h_set",defs=["N=%d"%n],bounded=LBND,tier="thorough",timeout=600) for n in (2,3)] \
  + [L("h_poke",defs=["STATICMAP","N=%d"%n],bounded=LBND) for n in (1,2)] + [L("h_source", bounded="at most 20 lines")]
PROPS["C21"] = dict(obs=LINES, level="other", explanation="Bounded deductive check: the real functions executed symbolically on maps of bounded size with arbitrary line numbers, names and increments.")

def EW(h, **k):
    k.setdefault("unwind", 12)
    return Ob("errwarn", h, None, **k)
EWB = "lists of at most %d diagnostics, at most %d new warnings"
DIAG = [EW("h_new",defs=["N=%d"%n],bounded=EWB%(n,0)) for n in range(0,5)] + [EW("h_propagate",defs=["POOLS","N=%d"%n,"W=%d"%w],bounded=EWB%(n,w),unwind=20) for n,w in ((0,2),(1,2))] + [EW("h_propagate",defs=["POOLS","N=2","W=1","TIED=%d"%t,"PREV=%d"%p],bounded=EWB%(2,1),unwind=20,tier="thorough",timeout=800) for t in (0,1) for p in (0,1)] \
  + [EW("h_indicator"), EW("h_warn",bounded="three warnings queued")] + [EW("h_output",defs=["N=%d"%n],bounded=EWB%(n,0)) for n in (0,1,3)]
PROPS["C22"] = dict(obs=DIAG, level="other", explanation="Bounded deductive check: the real functions executed symbolically on diagnostics lists of bounded length with arbitrary lines, types and previous-insertion pointer.")

# ---------------- symbols ----------------
def SY(h, **k):
    k.setdefault("unwind", 10)
    return Ob("symrec", h, None, **k)
NB = "names of at most 2 characters (folded to lower case)"
SYMS = [SY(h, defs=["CS=%d"%c]+d, bounded=None if c else NB) for c in (1,0) for h, d in [("h_use",[]),("h_get",[]),("h_declare",[]),("h_abs",[])]+[("h_define",["KIND=%d"%k]) for k in range(5)]] \
  + [SY("h_finalize",bounded="two symbols"), SY("h_query"), SY("h_global_name",bounded="names of at most 2 characters")]
PROPS["C15"] = dict(obs=SYMS)

# ---------------- DWARF line programs ----------------
def DW(h, *d, **k):
    k.setdefault("unwind", 14)
    return Ob("dwarf2line", h, None, defs=list(d), **k)
DWL = [DW("h_loc","FIRST=%d"%f,"NOBC=%d"%n,"NXBC=%d"%x) for f in (0,1) for n in (0,1) for x in (0,1) if not (f and n)] + [DW("h_nolabel")] \
  + [DW("h_op","KIND=%d"%k) for k in range(6)] + [DW("h_header","NDIR=%d"%d,"NFILE=%d"%f,bounded="at most one directory and two files, names of at most 2 characters",unwind=66) for d,f in ((0,0),(0,1),(1,1),(1,2))] \
  + [DW("h_section","NB=%d"%b,"NL=%d"%l,"VL1=%d"%v,"VL2=%d"%w,bounded="at most 2 locations and 3 bytecodes") for b,l,v,w in ((3,1,0,0),(3,1,1,0),(3,2,0,1),(3,2,0,0),(3,2,1,1),(3,2,1,2),(2,2,0,1))] \
  + [DW("h_asm","NB=%d"%b,bounded="at most 3 bytecodes") for b in (2,3)] \
  + [DW("h_addfile","FILENUM=%d"%n,bounded="at most two directories and two files, names of at most 2 characters") for n in (0,1,2,3)] + [DW("h_lookup",bounded="two directories, two files, names of at most 2 characters")]
PROPS["C23"] = dict(obs=DWL)

# ---------------- ELF object files ----------------
EM = {32: "elf_x86_x86_", 64: "elf_x86_amd64_", 33: "elf_x86_x32_"}
ELFM = [Ob("elfmach", h, EM[m] + f if f else None, defs=["M=%d" % m], unwind=18) for m in (32, 64, 33) for h, f in
  (("h_sym","write_symtab_entry"),("h_shdr","write_secthead"),("h_shdr_rel","write_secthead_rel"),("h_reloc","write_reloc"),("h_addend","handle_reloc_addend"),("h_map","map_reloc_info_to_type"),("h_accepts","accepts_reloc"),("h_ehdr","write_proghead"),("h_table",None))]
def EL(h, *d, **k):
    k.setdefault("unwind", 14)
    return Ob("elf", h, None, defs=list(d), **k)
ELFT = [EL("h_strtab","NS=%d"%n,"SETK=%d"%s,bounded="at most 3 strings of at most 2 characters") for n,s in ((1,0),(2,0),(3,0),(3,1),(2,2))] + [EL("h_create"), EL("h_insert"), EL("h_set"), EL("h_secthead"), EL("h_offset"), EL("h_relocentry"), EL("h_proghead"), EL("h_arch")] \
  + [EL("h_symtab","NE=%d"%n,"OPS=%d"%o,bounded="at most 3 symbols besides the file") for n,o in ((1,0),(1,1),(2,1),(2,2),(3,5),(3,2))] + [EL("h_symwrite","NE=%d"%n,bounded="at most 2 symbols") for n in (1,2)] + [EL("h_relocs","NE=%d"%n,bounded="at most 2 relocations") for n in (0,1,2)]
def EO(h, *d, **k):
    k.setdefault("unwind", 22)
    return Ob("elfobj", h, None, defs=list(d), **k)
GAP_ANN = [("modules/objfmts/elf/elf-objfmt.c", r"while \(left > 256\)",
  "\n__CPROVER_assigns(left, gtotal)\n__CPROVER_loop_invariant(left + gtotal == size && left <= size && ggap && gj < 256 && buf[gj] == 0)\n__CPROVER_decreases(left)\n")]
ELFO = [EO("h_value","WRTK=%d"%w) for w in range(5)] + [EO("h_reloc"), EO("h_bc",annotate=GAP_ANN,loop_contracts=True,fallback=EO("h_bc","GAPMAX=900",bounded="gaps of at most 900 bytes")), EO("h_align"), EO("h_gasflags",bounded="at most 3 letters")] \
  + [EO("h_build","VISK=%d"%v,"PRE=%d"%p) for v in (0,1,2,4) for p in (0,1,2)] + [EO("h_build","VISK=1","KW=%d"%k) for k in range(1,7)] + [EO("h_switch","SECTK=%d"%k) for k in range(8)] + [EO("h_switch","SECTK=%d"%s,"KW=%d"%k) for s,k in [(7,k) for k in range(1,13)]+[(0,3),(1,4),(0,11),(3,12),(1,8),(0,7)]]
ELFO += [EO("h_output","R0=%d"%a,"R1=%d"%b,bounded="two sections with at most one relocation, three symbols",unwind=26) for a in (0,1) for b in (0,1)] + [EO("h_newsect","KW=%d"%k) for k in range(3)]
ELFO += [EO("h_dirs","DIR=%d"%d,"PRE=%d"%q,"KW=%d"%k) for d in (0,1,2) for q in (0,1,2) for k in (range(7) if d == 0 and q == 0 else (1,))]
PROPS["C17"] = dict(obs=ELFM + ELFT + ELFO)

# ---------------- layout ----------------
def SE(h, *d, **k):
    k.setdefault("unwind", 10)
    return Ob("section", h, None, defs=list(d), **k)
def LAY(ty, jt, la, lb, ta=0, tb=0, c=0, ce=0, *more, **k):
    d = ["TYS=" + ",".join(map(str, ty)), "JTS=" + ",".join(map(str, jt)), "TA=%d" % ta, "TB=%d" % tb, "LA=%d" % la, "LB=%d" % lb, "CC=%d" % c, "CE=%d" % ce] + list(more)
    k.setdefault("unwind", 26)
    return SE("h_optimize", "NB1=%d" % len(ty), "NB2=1", *d, bounded="bytecodes of these kinds and lengths", **k)
SECT = [SE("h_add_span"), SE("h_itree_add")] + [SE(h, "NT=%d" % n, bounded="at most two distances in an expression") for h in ("h_terms","h_recalc") for n in (0,1,2) if h != "h_terms" or n] + [SE("h_terms", "NT=0", "OSEC=%d" % o, "HABS=%d" % a) for o in (0,1) for a in (0,1)] + [SE("h_expand", "NT=%d" % n, "RT=%d" % r, bounded="at most two distances in an expression") for n in (0,1,2) for r in (0,1)] + [SE("h_cycle", "NA=%d" % a, "NB=%d" % b, bounded="at most two spans in a backtrace") for a in (0,1,2) for b in (0,1,2)] + [ SE("h_offsets", bounded="two sections with at most three bytecodes"), SE("h_sections", bounded="at most two sections, one-letter names"), SE("h_traverse", bounded="two sections with at most three bytecodes")]
SECT += [LAY((1,0,0,0), (3,0,0,0), a, b) for a, b in ((127,0),(128,0),(60,67),(60,68))] \
  + [LAY((0,0,1,0), (0,0,0,0), a, 5) for a in (63,64)] + [LAY((1,1,0,0), (3,4,0,0), 0, b) for b in (62,122,123,125,126)] \
  + [LAY((1,0,1,0), (4,0,0,0), a, b) for a, b in ((60,60),(60,65),(126,0),(124,0),(122,3))] + [LAY((1,0,3,0), (3,0,0,0), a, 7) for a in (123,124,125,126,127,128)] \
  + [LAY((1,3,0,3), (4,0,0,0), 0, b) for b in (120,121,122,123,124,125,126)] + [LAY((0,1,2,0), (0,3,0,0), a, 3, 2, 0, c) for a, c in ((50,180),(50,178),(50,179),(50,200))] \
  + [LAY((1,0,2,0), (3,0,0,0), a, 3, 0, 2, c) for a, c in ((60,2),(60,5),(60,6),(62,0),(63,0),(62,1))] + [LAY((1,2,3,1), (4,0,0,1), 0, 0, 0, 1, c) for c in (118,120,121,122,124,125)] \
  + [LAY((1,2,2,0), (4,0,0,0), 0, 3, 1, 0, c) for c in (60,63,64,65,66)] + [LAY((1,0,2,0), (4,0,0,0), 0, 3, t, 0, 60, ce=2) for t in (3,4)] + [LAY((1,0,1,0), (4,0,0,0), 60, 60, ce=1), LAY((0,1,3,2), (0,4,0,0), 3, 0, 1, 2, 5)]
def DEEP(lo, la, wl, last=4, **k):      # late expansions in front of two paddings, a short jump across the second
    return LAY((0,1,1,3,1,0,1,last,0), (0,8,8,0,8,0,9,0,0), la, 140, 0, 0, 0, 0, "WL=%d" % wl, "LO=%d" % lo, "LN=9", **k)
DQ = [(0,119,5),(1,115,5),(2,114,5),(0,117,6),(3,113,5),(5,116,6),(8,118,6),(14,117,5)]
SECT += [DEEP(*d) for d in DQ] + [DEEP(lo, la, wl, last, tier="thorough") for lo in (0,1,2,3) for la in range(112,122) for wl in (5,6) for last in (3,4) if last == 3 or (lo,la,wl) not in DQ]
PROPS["C16"] = dict(obs=SECT, level="other", explanation="Bounded deductive check: the steps of the layout are proved for all values (at most two distances per expression, two spans per backtrace), the whole layout only on enumerated lists of bytecodes with lengths around the limits of a short jump; the interval tree is a stand-in.")
