B = "libyasm/bitvect.c"; I = "libyasm/intnum.c"
S("s01-rem-sign", "C01", [(B, """            if (sgn_q) BitVector_Negate(Q,Q);
            if (sgn_x) BitVector_Negate(R,R);""", """            if (sgn_q) BitVector_Negate(Q,Q);
            if (sgn_x and (not sgn_q or not BitVector_is_empty(Q))) BitVector_Negate(R,R);""")],
  "signed remainder with a negative dividend smaller in magnitude than a positive divisor", "-3 %% 7 yields 3 instead of -3",
  asm="dd -3 %% 7\ndd -10 %% 7\ndd -3 %% -7\ndq -3 %% 0x123456789abc", want="fdffffff fdffffff fdffffff fdffffffffffffff")
S("s02-frombv", "C01", [(I, "        if (Set_Max(bv) >= 32 ||\n", "        if (Set_Max(bv) > 32 ||\n")],
  "a result in (-2^33, -2^32] whose magnitude has bit 31 clear", "such results lose bit 32 of their magnitude",
  asm="dq -0x100000005\ndq 5-0x17fffffff\ndq -0x1ffffffff\ndq -5", want="fbfffffffeffffff 06000080feffffff 01000000feffffff fbffffffffffffff")
S("s03-range-lenient", "C03", [(I, "            retval = Set_Max(conv_bv) < (long)size-1;", "            retval = Set_Max(conv_bv) < (long)size-(rangetype == 1 || size < 64);")],
  "a value in [-2^64,-2^63) stored in a 64-bit field with lenient range checking", "the out-of-range warning is not produced",
  sh='''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf 'dq -0x8000000000000001\\n' > "$t/a.asm"
"$y" -f bin -o "$t/o" "$t/a.asm" 2> "$t/log" || exit 1
grep -q 'does not fit in 64 bit' "$t/log" || { echo "no warning"; exit 1; }
printf 'dq -0x8000000000000000\\n' > "$t/a.asm"
"$y" -f bin -o "$t/o" "$t/a.asm" 2> "$t/log" || exit 1
test ! -s "$t/log"
''')
S("s04-field-neighbours", "C03", [(B, "                        target = *X AND mask;\n                        break;\n                    case 3:\n                        t_lower = t_lo_bit;\n                        t_upper = t_hi_bit;\n                        t_bits = t_hi_bit - t_lo_bit + 1;\n                        mask = (N_word) (~0L << t_lower);\n                        mask &= (N_word) ~((~0L << t_upper) << 1);\n                        target = *X AND NOT mask;\n                        break;\n                }\n            }\n            if (s_bits == 0)\n            {\n                if (notfirst)\n                {\n                    if (ascending)\n                    {\n                        if (s_base == s_hi_base) break;",
   "                        target = (t_upper + 1 == BITS / 2) ? 0 : (*X AND mask);\n                        break;\n                    case 3:\n                        t_lower = t_lo_bit;\n                        t_upper = t_hi_bit;\n                        t_bits = t_hi_bit - t_lo_bit + 1;\n                        mask = (N_word) (~0L << t_lower);\n                        mask &= (N_word) ~((~0L << t_upper) << 1);\n                        target = *X AND NOT mask;\n                        break;\n                }\n            }\n            if (s_bits == 0)\n            {\n                if (notfirst)\n                {\n                    if (ascending)\n                    {\n                        if (s_base == s_hi_base) break;")],
  "a field of 48 (or 80, ...) bits inside a larger buffer with non-zero neighbours", "bits next to the field are cleared",
  c=r'''
#include <util.h>
#include <libyasm.h>
#include <libyasm/bitvect.h>
#include <stdio.h>
int main(void) {
    unsigned char b[8]; int i, bad = 0; yasm_intnum *n;
    BitVector_Boot(); yasm_intnum_initialize();
    n = yasm_intnum_create_uint(0x123456789aUL);
    for (i = 0; i < 8; i++) b[i] = 0xff;
    yasm_intnum_get_sized(n, b, 8, 48, 0, 0, 0);
    if (b[0] != 0x9a || b[4] != 0x12 || b[5] != 0 || b[6] != 0xff || b[7] != 0xff) bad = 1;
    for (i = 0; i < 8; i++) printf("%02x ", b[i]);
    printf("\n");
    return bad;
}
''')
S("s05-leb-long", "C04", [(I, "    for (i=0; i<size; i += 7) {", "    for (i=0; i<size && i<140; i += 7) {")],
  "a LEB128 value of more than 140 bits", "the encoding is truncated and disagrees with its announced length",
  c=r'''
#include <util.h>
#include <libyasm.h>
#include <libyasm/bitvect.h>
#include <stdio.h>
int main(void) {
    unsigned char b[64]; char s[] = "ffffffffffffffffffffffffffffffffffffffff"; unsigned long a, z; yasm_intnum *n;
    BitVector_Boot(); yasm_intnum_initialize(); yasm_errwarn_initialize();
    n = yasm_intnum_create_hex(s);
    z = yasm_intnum_size_leb128(n, 0);
    a = yasm_intnum_get_leb128(n, b, 0);
    printf("%lu %lu\n", a, z);
    return a != z || a != 23;
}
''')
S("s06-set-alias", "C05", [(I, "                intn->val.bv = BitVector_Clone(val->val.bv);\n                break;", "                intn->val.bv = (intn->val.l == 0) ? BitVector_Clone(val->val.bv) : val->val.bv;\n                break;")],
  "assigning one wide integer to another and changing one of them afterwards", "both share the same storage",
  c=r'''
#include <util.h>
#include <libyasm.h>
#include <libyasm/bitvect.h>
#include <stdio.h>
int main(void) {
    char s1[] = "123456789abcdef0123456789", s2[] = "fedcba98765432100123456789";
    yasm_intnum *a, *b, *c;
    BitVector_Boot(); yasm_intnum_initialize(); yasm_errwarn_initialize();
    a = yasm_intnum_create_uint(77); b = yasm_intnum_create_hex(s2); c = yasm_intnum_copy(b);
    yasm_intnum_set(a, b);
    yasm_intnum_set_uint(a, 0x80000001UL << 4);
    printf("%d\n", yasm_intnum_compare(b, c));
    return yasm_intnum_compare(b, c) != 0;
}
''')
X = "modules/arch/x86/x86bc.c"; E = "modules/arch/x86/x86expr.c"
S("s07-expand-disp", "C11", [(X, "            ea->disp.size = (insn->common.addrsize == 16) ? 16 : 32;", "            ea->disp.size = (insn->common.addrsize == 16 && insn->common.mode_bits == 16) ? 16 : 32;")],
  "a 16-bit address in 32-bit code whose displacement is a label difference that grows past 127", "a 32-bit displacement is emitted for a 16-bit ModRM",
  asm="bits 32\nmov eax,[bx+b-a]\na: times 200 nop\nb: nop", want="678b87c800" + "90"*201)
S("s08-rip-signext", "C11", [(X, "delta = yasm_intnum_create_int(-(long)bc->len);\n                if (!x86_ea", "delta = yasm_intnum_create_int(-(long)(bc->len - (imm && insn->postop == X86_POSTOP_SIGNEXT_IMM8 ? 1 - imm->size/8 : 0)));\n                if (!x86_ea")],
  "a RIP-relative operand together with a sign-extendable immediate that is only known after layout", "the displacement is off by three",
  asm="bits 64\na: add dword [rel a], b-a\nb: nop", want="8305f9ffffff07 90")
S("s09-jmp-expand-o16", "C09", [(X, "    bc->len -= jmp->shortop.len + 1;\n    bc->len += jmp->nearop.len;\n    bc->len += (opersize == 16) ? 2 : 4;", "    bc->len -= jmp->shortop.len + 1;\n    bc->len += jmp->nearop.len;\n    bc->len += (opersize == 16 && jmp->common.mode_bits != 32) ? 2 : 4;")],
  "a 16-bit-operand jump in 32-bit code that must be widened from short to near", "layout disagrees with the bytes emitted",
  asm="bits 32\no16 jnz far1\ntimes 200 nop\nfar1: nop", want="660f85c800" + "90"*201)
S("s10-jmp-thres", "C09", [(X, "    add_span(add_span_data, bc, 1, &jmp->target, -128+(long)bc->len,\n             127+(long)bc->len);", "    add_span(add_span_data, bc, 1, &jmp->target, -128+(long)bc->len,\n             127+(long)jmp->shortop.len+1);")],
  "a prefixed short jump whose displacement is exactly 127", "the prefixed jump is needlessly made near",
  asm="bits 32\nrepne jnz far1\ntimes 127 nop\nfar1: nop", want="f2757f" + "90"*128)
S("s11-esp-twice", "C10", [(E, "            if (reg3264mult[REG3264_ESP] > 1 || basereg == REG3264_ESP) {", "            if (reg3264mult[REG3264_ESP] > 1) {")],
  "esp with multiplier two and no other register", "[esp*2] is silently assembled as [esp]",
  sh='''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf 'bits 32\\nmov eax,[esp+ecx]\\nmov eax,[esp]\\n' > "$t/a.asm"
"$y" -f bin -o "$t/o" "$t/a.asm" || exit 1
printf 'bits 32\\nmov eax,[esp*2]\\n' > "$t/a.asm"
"$y" -f bin -o "$t/o" "$t/a.asm" && { echo "accepted [esp*2]"; exit 1; }
exit 0
''')
AL = "libyasm/bc-align.c"; IB = "libyasm/bc-incbin.c"; BD = "libyasm/bc-data.c"; XA = "modules/arch/x86/x86arch.c"; BCC = "libyasm/bytecode.c"
S("s12-org-here", "C07", [("libyasm/bc-org.c", "    if ((unsigned long)new_val > org->start) {", "    if ((unsigned long)new_val >= org->start && new_val != 0) {")],
  "an .org to exactly the place already reached", "a valid .org is refused",
  sh='''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '.byte 1,2\\n.org 2\\n.byte 3\\n.org 5\\n.byte 4\\n' > "$t/a.asm"
"$y" -p gas -f bin -o "$t/o" "$t/a.asm" || exit 1
test "$(od -An -v -tx1 "$t/o" | tr -d ' ')" = 010203000004
''')
S("s13-fill-amd", "C07", [(XA, "        {0x66, 0x0f, 0x1f, 0x44, 0x00, 0x00,        /* 13 - nop(6) */\n         0x0f, 0x1f, 0x80,", "        {0x66, 0x0f, 0x1f, 0x44, 0x00, 0x00,        /* 13 - nop(6) */\n         0x0f, 0x1f, 0x84,")],
  "AMD padding of exactly 13 bytes", "the padding instruction swallows the first byte of the aligned code",
  asm="bits 64\ncpu amdnop\ntimes 3 nop\nalign 16\nret", want="90"*3 + "660f1f440000 0f1f8000000000 c3")
S("s14-incbin-min", "C08", [(IB, "    flen -= start;\n    if (incbin->maxlen)\n        if (maxlen < flen)\n            flen = maxlen;", "    if (incbin->maxlen && maxlen < flen)\n        flen = maxlen;\n    else\n        flen -= start;")],
  "a maximum length that exceeds what follows the start but not the whole file", "more bytes are announced than the file has",
  sh='''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
printf abcdefghij > f
printf 'incbin "f",4,3\\nincbin "f",6\\nincbin "f",7,8\\n' > a.asm
"$y" -f bin -o o a.asm || exit 1
[ "$(cat o)" = efgghijhij ] && printf 'incbin "f",2,20\\nincbin "f",4,8\\n' > a.asm && "$y" -f bin -o o a.asm && [ "$(cat o)" = cdefghijefghij ]
''')
S("s15-dist-mult", "C08", [(BCC, "    if (dist2 < dist1) {\n        intn = yasm_intnum_create_uint(dist1 - dist2);", "    if (dist2 < dist1) {\n        intn = yasm_intnum_create_uint((unsigned int)(dist1 - dist2));")],
  "a backward distance of 4 GiB or more", "the distance loses its upper half",
  asm="section .bss\nx: resb 0x90000000\ny: resb 0x90000000\nz:\nsection .text\ntimes (x-z)+0x120000002 nop\ntimes (z-x)-0x11fffffff inc ax", want="909040")
S("s16-data-double-next", "C12", [(BD, "        if (dv->multiple && dv->type != DV_EMPTY && len > 0) {\n            dvo = STAILQ_NEXT(dvo, link);\n            len = 0;\n        }\n\n        if (append_zero)", "        if (dv->multiple && dv->type != DV_EMPTY && dvo) {\n            dvo = STAILQ_NEXT(dvo, link);\n            len = 0;\n        }\n\n        if (append_zero)")],
  "a repeated value that is not yet known, followed by more items", "an output item is skipped",
  sh='''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf 'dd 2 dup (lbl), 5\\ndd 2 dup (3), 7\\nlbl:\\n' > "$t/a.asm"
"$y" -p tasm -f bin -o "$t/o" "$t/a.asm" || exit 1
got=$(od -An -v -tx1 "$t/o" | tr -d ' \\n')
[ "$got" = 180000001800000005000000030000000300000007000000 ] || { echo "$got"; exit 1; }
''')
S("s17-pad-mask", "C12", [(BD, "                rlen %= size;", "                rlen &= size-1;")],
  "a string in a data directive whose item size is not a power of two (dt)", "the string is padded to the wrong length",
  asm='dt "abc", "defg", "0123456789", "x"\ndb 1', want="616263"+"00"*7+"64656667"+"00"*6+"30313233343536373839"+"78"+"00"*9+"01")
LM = "libyasm/linemap.c"; EWC = "libyasm/errwarn.c"
def DIAGSH(src, args, want):
    return '''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
cat > a.asm <<'EOF'
%s
EOF
timeout -s KILL 60 "$y" %s -f bin -o o a.asm 2> log
cut -d: -f1-3 log > got
cat > want <<'EOF'
%s
EOF
diff want got
''' % (src.strip("\n"), args, want.strip("\n"))
S("s18-line-inc", "C21", [(LM, "mapping->line_inc*(line-mapping->line)", "(mapping->line_inc ? line-mapping->line : 0)")],
  "a line directive with an increment of two or more", "diagnostics point at the wrong source line",
  sh=DIAGSH("%line 10+1 foo\ndb 300\n%line 20+2 bar\n\ndb 301\ndb 302\n%line 30+0 baz\n\ndb 303", "-r raw", "foo:10: warning\nbar:22: warning\nbar:24: warning\nbaz:30: warning"))
S("s19-werror-once", "C22", [(EWC, "                print_error(filename, line, msg, NULL, 0, NULL);\n                warning_as_error = 2;", "                print_error(filename, line, msg, NULL, 0, NULL);\n                if (we->xrefline)\n                    warning_as_error = 2;")],
  "two warnings treated as errors", "the note on warnings treated as errors is repeated for every warning",
  sh=DIAGSH("db 300\nnop\ndb 301\ndb 302", "-Werror", "a.asm:1: warning\na.asm:1: error\na.asm:3: warning\na.asm:4: warning"))
S("s20-warn-toggle", "C22", [(EWC, "    warn_class_enabled &= ~(1UL<<num);", "    warn_class_enabled ^= (1UL<<num);")],
  "disabling a warning class that is already off", "the class is switched on",
  sh=DIAGSH("nop\nlbl\ndb 300", "-Wno-orphan-labels -Wno-uninit-contents -Wno-uninit-contents", "a.asm:3: warning"))
SY = "libyasm/symrec.c"; DWL = "modules/dbgfmts/dwarf2/dwarf2-line.c"
S("s21-common-extern", "C15", [(SY, "((rec->visibility & YASM_SYM_COMMON) && (vis == YASM_SYM_COMMON)) ||", "(rec->visibility & YASM_SYM_COMMON) ||")],
  "a symbol declared common first and external later", "the contradictory declaration is accepted and the symbol is both",
  sh='''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
printf 'common x 4\\nmov eax,[x]\\nextern x\\n' > a.asm
timeout -s KILL 60 "$y" -f elf -o o a.asm > log 2>&1 && { echo "accepted"; exit 1; }
grep -q 'a.asm:3: error' log || exit 1
printf 'common x 4\\nmov eax,[x]\\nglobal x\\nextern y\\nextern y\\ncommon x 4\\n' > a.asm
timeout -s KILL 60 "$y" -f elf -o o a.asm
''')
S("s22-prefix-common", "C15", [(SY, "    if (sym->visibility & (YASM_SYM_GLOBAL|YASM_SYM_COMMON|YASM_SYM_EXTERN)) {", "    if ((sym->visibility & YASM_SYM_GLOBAL) ||\n        ((sym->visibility & (YASM_SYM_COMMON|YASM_SYM_EXTERN)) &&\n         sym->decl_line < sym->use_line)) {")],
  "a name prefix and an external or common symbol declared after its use", "the symbol is named without the prefix",
  sh="""#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
printf 'global z\\nz: dd x\\ndd y\\ncommon x 4\\nextern y\\nl: dd l\\n' > a.asm
timeout -s KILL 60 "$y" --prefix=_ --suffix=s -f elf -o o a.asm || exit 1
[ "$(nm -g o | awk '{printf "%s ", $NF}')" = "_xs _ys _zs " ] || { nm o; exit 1; }
""")
S("s23-discriminator", "C23", [(DWL, "    unsigned long ext_operandsize = yasm_intnum_size_leb128(ext_operand, 0);", "    unsigned long ext_operandsize = yasm_intnum_size_leb128(ext_operand, 1);")],
  "a discriminator between 64 and 127", "the operation announces one byte too many",
  sh=r"""#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
for d in 5 63 64 100 127 128 300; do
  printf '.file 1 "x.c"\n.text\nnop\n.loc 1 5 0 discriminator %d\nnop\n.loc 1 6\nnop\n' $d > a.s
  timeout -s KILL 60 "$y" -p gas -f elf -g dwarf2 -o o a.s || exit 1
  objdump --dwarf=rawline o | grep -qi "discriminator to $d\$" || { objdump --dwarf=rawline o | tail -12; exit 1; }
  [ "$(objdump --dwarf=decodedline o | awk '$1=="x.c"{printf "%s@%s ", $2, $3}')" = "5@0x1 6@0x2 -@0x3 " ] || { objdump --dwarf=decodedline o; exit 1; }
done
""")
S("s24-dir-prefix", "C23", [(DWL, "        if (strncmp(dirs[fn->dir-1], pathname, dirlen) != 0 ||\n            dirs[fn->dir-1][dirlen] != '\\0')\n", "        if (strncmp(dirs[fn->dir-1], pathname, dirlen) != 0)\n")],
  "two files of the same name in directories of which one is a prefix of the other", "code is attributed to the other file",
  sh=r'''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
printf '%%line 1+1 abc/x.c\nnop\n%%line 5+1 ab/x.c\nnop\n%%line 9+1 abc/x.c\nnop\n' > a.asm
timeout -s KILL 60 "$y" -r raw -f elf -g dwarf2 -o o a.asm || exit 1
got=$(objdump --dwarf=decodedline o | awk '/x.c:/{f=$0} $1=="x.c"{printf "%s%s@%s ", f, $2, $3}')
echo "$got"
[ "$(objdump --dwarf=rawline o | grep -c 'Set File Name')" = 3 ]
''')
ELFC = "modules/objfmts/elf/elf.c"; ELFO_ = "modules/objfmts/elf/elf-objfmt.c"
S("s25-gap-256", "C17", [(ELFO_, "        fwrite(buf, left, 1, info->f);", "        fwrite(buf, size & 255, 1, info->f);")],
  "reserved space of a multiple of 256 bytes in a section with contents", "the last 256 bytes are not written: everything after is out of place",
  sh="""#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
for n in 1 255 256 257 512 1000; do
  printf 'section .data\\ndb 1\\nresb %d\\ndb 2\\n' $n > a.asm
  timeout -s KILL 60 "$y" -f elf64 -o o a.asm 2>/dev/null || exit 1
  objcopy -O binary -j .data o d || exit 1
  { printf '\\001'; head -c $n /dev/zero; printf '\\002'; } > w
  cmp d w || exit 1
done
""")
S("s26-addend-carry", "C17", [(ELFO_, "            intn_val += offset;\n", "            intn_val |= offset;\n")],
  "a PC-relative reference to a local label in another section whose offset shares a bit with the position of the operand", "the addend misses the carry",
  sh=r'''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
for k in 0 1 2 4 7 9; do
  printf 'section .text\ncall l\njmp near l\njz near l\nsection .t2 exec\ntimes %d nop\nl: ret\n' $k > a.asm
  timeout -s KILL 60 "$y" -f elf64 -o o a.asm || exit 1
  if [ $k -lt 4 ]; then e="- $((4-k))"; else e="+ $((k-4))"; fi
  w="$e $e $e "
  g=$(readelf -rW o | awk '/R_X86_64_PC32/{printf "%s %s ", $(NF-1), $NF}')
  echo "$k: $g"; [ "$g" = "$w" ] || exit 1
done
''')
SEC_ = "libyasm/section.c"
S("s27-setter-first", "C16", [(SEC_, "    os = TAILQ_FIRST" if 0 else "            os->cur_val = os->new_val;\n            os = STAILQ_NEXT(os, link);", "            os = STAILQ_NEXT(os, link);")],
  "two expansions in front of one ALIGN with another ALIGN behind it", "the second expansion moves later paddings as far as both together",
  sh=r'''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
for o in 0 1 2 3 5 7 9 12 14; do for n in 104 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121; do
  printf 'bits 32\ntimes %d db 1\njz l\njz l\njz l\ndb 1,1\nalign 4\njmp l\ntimes %d db 3\njmp fa\nalign 16\nl: db 0xEE\ntimes 300 db 0\nfa: ret\n' $o $n > a.asm
  timeout -s KILL 20 "$y" -f bin -o o a.asm 2> err || exit 1
  [ -s err ] && exit 1
  sz=$(wc -c < o); printf 'bits 32\ntimes %d db 1\njz l\njz l\njz l\ndb 1,1\nalign 4\njmp l\ntimes %d db 3\njmp fa\nalign 16\nl: db 0xEE\ntimes 300 db 0\nfa: ret\ntimes 900-($-$$) db 0\n' $o $n > a.asm
  timeout -s KILL 20 "$y" -f bin -o o a.asm 2> err || exit 1
  [ -s err ] && exit 1
  [ $(wc -c < o) -eq 900 ] || exit 1
done; done
exit 0
''')
S("s28-backward-last", "C16", [(SEC_, "        low = precbc2_index+1;\n        high = precbc_index;", "        low = precbc2_index+1;\n        high = term->precbc ? precbc_index : precbc_index-1;")],
  "a short backward jump right behind a jump that is widened late", "the widening right in front of the jump is not counted into its distance",
  sh=r'''#!/bin/sh
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
for n in 110 114 115 116 117 118 119 120 121 122 123 124 125 126; do for m in 118 119 120 121 122 123 124 125; do
  printf 'bits 32\na: times %d nop\njz b\njmp a\ntimes %d nop\njmp c\nb: nop\ntimes 300 nop\nc: ret\n' $n $m > a.asm
  timeout -s KILL 20 "$y" -f bin -o o a.asm 2> err || exit 1
  [ -s err ] && exit 1
done; done
exit 0
''')
