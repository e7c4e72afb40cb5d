NOTYET = "Not built in the time available: no check of it exists. The verification units (contracts on the real functions over the bit-vector contracts of C01/C03) would be the same kind as for the claimed properties."
TCB = " Trusted: CBMC 6.11 (goto-cc, DFCC instrumentation, SAT back end); allocation never fails (yasm exits instead); diagnostics are reduced to class and count."

P("C01", "Constant integer operators compute the mathematically right value",
  "Applying any operator of assembly expressions (+ - * / % and signed forms, unary - ~ !, | & ^ and negated forms, << >>, logical and comparison operators) to two integer constants yields the 256-bit two's-complement result of that operator: truncated division and remainder, arithmetic right shift, 0/1 for logical and comparison operators, whichever internal form (native or wide) the operands have. Division or remainder by zero, a missing operand or a non-integer operator is reported as an error and leaves the left operand unchanged; the right operand is never modified. A product is only promised when it fits in 255 bits, and a right shift of a negative value by 2^31 or more is left open.",
  ["inputs"], "all pairs of 256-bit integers in either representation, all operators",
  "the tests evaluate a few dozen small constants; carries across word boundaries, wide operands and sign combinations are never reached",
  ["libyasm/intnum.c", "libyasm/bitvect.c"],
  [("yasm_intnum_calc", "libyasm/intnum.c"), ("intnum_tobv/intnum_frombv normalisation", "libyasm/intnum.c"), ("BitVector_compute, Multiply, Divide, shifts", "libyasm/bitvect.c")],
  ["yasm_intnum_calc result and error state"],
  ("proof", "Every function on the path (33 operators x representations, and each bit-vector primitive down to the word loops, multiply/divide with loop invariants) under an enforced contract at yasm's width of 256 bits; products and quotients are uninterpreted symbols constrained by the listed arithmetic facts (axioms vf_ax_mul, vf_ax_div)." + TCB))

P("C02", "Numeric and character literals denote the number they spell",
  "A decimal, hexadecimal, octal or binary literal of any length denotes the number it spells when that fits the assembler's integer width (256 bits, 255 for decimal); a character constant denotes its bytes packed in the order its syntax prescribes (NASM: first character least significant; TASM: first character most significant). A literal that does not fit is diagnosed and never silently replaced by an unrelated value of a decimal literal.",
  ["inputs"], "all literal strings", "the tests contain a few literals, mostly of at most 8 digits",
  ["libyasm/intnum.c", "libyasm/bitvect.c"], [("yasm_intnum_create_dec/bin/oct/hex", "libyasm/intnum.c"), ("yasm_intnum_create_charconst_nasm/tasm", "libyasm/intnum.c"), ("BitVector_from_*", "libyasm/bitvect.c")],
  ["the created integer"], NOTYET)

P("C03", "Writing an integer into a k-bit field stores its low k bits and only those",
  "Storing an integer into a bit field of an instruction or data item (field width, left shift or right shift within a little-endian buffer of at most 32 bytes) replaces exactly the bits of the field by the low bits of the two's-complement value shifted right as asked, and leaves every other bit of the buffer and the value itself unchanged. A warning is produced exactly when warnings are enabled and the value is outside the range the mode asks for (signed: -2^(k-1)..2^(k-1)-1; lenient: -2^(k-1)..2^k-1) or non-zero bits are shifted out on the right. Reading a buffer back as a signed or unsigned little-endian integer yields the number stored in it.",
  ["inputs"], "all 256-bit values, all field widths and positions, all buffers",
  "the tests store values at byte-sized fields with common widths; boundaries of the range checks and odd fields are not sampled",
  ["libyasm/intnum.c", "libyasm/bitvect.c"], [("yasm_intnum_get_sized", "libyasm/intnum.c"), ("yasm_intnum_check_size", "libyasm/intnum.c"), ("yasm_intnum_create_sized", "libyasm/intnum.c"), ("BitVector_Interval_Copy, Chunk_Store", "libyasm/bitvect.c")],
  ["buffer contents", "warning state"],
  ("proof", "All widths 1..256, all shifts -255..255, all buffers; bit-vector primitives under their own contracts. Quick tier proves interval copies whose destination starts in word 0, thorough all eight." + TCB))

P("C04", "LEB128 encodings decode to the encoded value and match the announced size",
  "The signed (unsigned) LEB128 encoding of an integer decodes, by the DWARF rules, to exactly that integer, all bytes but the last have the continuation bit set and the last has not, and the number of bytes written equals the size announced beforehand. This holds for arbitrary-width integers with |v| < 2^250 and for native longs.",
  ["inputs"], "all integers, both signednesses", "the leb128 unit test samples a handful of values",
  ["libyasm/intnum.c", "libyasm/bitvect.c"], [("yasm_intnum_get_leb128/size_leb128", "libyasm/intnum.c"), ("yasm_get_sleb128/uleb128, yasm_size_*", "libyasm/intnum.c")],
  ["bytes written", "sizes returned"],
  ("proof", "All values in the stated range, both representations." + TCB))

P("C05", "Integers keep their value through creation, copy, conversion and comparison",
  "An integer created from a native signed or unsigned long, copied, assigned or zeroed has exactly the value given and shares no storage with its source; sign, zero/one tests, ordering and range tests answer according to that value. Conversion to a native long returns the value itself whenever it fits the type and otherwise saturates (negative to 0 for unsigned, LONG_MAX/LONG_MIN, ULONG_MAX) instead of wrapping. No query changes the value.",
  ["inputs"], "all 64-bit longs and all 256-bit values in either representation",
  "the tests use values that fit 32 bits; the switch between native and wide representation is never crossed",
  ["libyasm/intnum.c"], [("intnum representation invariant: a wide vector holds a value outside (-2^31, 2^31)", "libyasm/intnum.c"), ("yasm_intnum_create_*/copy/set/compare/get_*", "libyasm/intnum.c")],
  ["return values"],
  ("proof", "All values, both representations." + TCB))

P("C06", "Floating-point literals convert to the nearest representable IEEE value",
  "A decimal floating-point literal assembled as 16, 32, 64 or 80-bit data yields the correctly rounded IEEE encoding, with overflow and underflow diagnosed.",
  ["inputs"], "all literals", "a few dozen literals sampled", ["libyasm/floatnum.c"], [("yasm_floatnum_create, floatnum_get_common", "libyasm/floatnum.c")], ["bytes emitted"], NOTYET)

P("C09", "Jumps take the shortest form that reaches and encode the right displacement",
  "A relative jump, call or loop instruction uses the short form when its target lies in the same section (or is absolute), is marked for re-examination exactly when the distance measured from the end of the instruction leaves -128..127, and then becomes the near form; a jump whose target is in another section or external is near. NEAR and SHORT requests are honoured, a requested form that does not exist or does not reach is an error, and a jump with only one form uses that form. Either form is emitted as its prefixes, its opcode and a displacement of 1, 2 or 4 bytes (by operand size and mode) whose value is the target minus the length of the instruction, and its length equals the bytes emitted.",
  ["inputs"], "all jump instructions: every combination of forms, sizes, modes, prefixes and targets",
  "the tests assemble a few dozen jumps; combinations of forced size, target kind, mode and prefixes are sampled thinly",
  ["modules/arch/x86/x86bc.c"], [("x86_bc_jmp_calc_len", "modules/arch/x86/x86bc.c"), ("x86_bc_jmp_expand", "modules/arch/x86/x86bc.c"), ("x86_bc_jmp_tobytes", "modules/arch/x86/x86bc.c")],
  ["bytes emitted", "spans registered", "diagnostics"],
  ("proof", "Every jump record with opcodes of at most three bytes. The span bookkeeping that measures distances (bytecode.c) and output_value are collaborators whose calls are recorded, not proved here." + TCB))

P("C11", "Instruction bytes are in canonical order and as many as layout assumed",
  "The bytes written for an instruction are, in order: segment, address-size, operand-size, XACQUIRE/XRELEASE and LOCK/REP prefixes, the mandatory prefix or VEX/XOP header (with R, X, B inverted and W placed from the REX bits, two-byte VEX only when R is the only extension used), REX, opcode, ModRM, SIB, displacement, immediate; the 0x67/0x66 prefix is present exactly when the address/operand size differs from the mode's default. The number of bytes always equals the length computed for layout, before and after a displacement or immediate has been widened; a sign-extended 8-bit immediate is used exactly when the value lies in -128..127, otherwise the full immediate and its opcode; a RIP-relative displacement is measured from the end of the instruction. Register operands set the REX bit they need, and mixing AH/BH/CH/DH with a REX-requiring operand is an error. Far jumps emit offset then 16-bit selector.",
  ["inputs"], "all instruction records (prefixes, VEX/XOP/REX, opcode, operand shapes)",
  "the tests assemble one example per instruction form; combinations of prefixes, REX and immediate sizes are not crossed",
  ["modules/arch/x86/x86bc.c"], [("x86_bc_insn_calc_len", "modules/arch/x86/x86bc.c"), ("x86_bc_insn_expand", "modules/arch/x86/x86bc.c"), ("x86_bc_insn_tobytes", "modules/arch/x86/x86bc.c"), ("yasm_x86__set_rex_from_reg", "modules/arch/x86/x86bc.c"), ("x86_common_tobytes/calc_len", "modules/arch/x86/x86bc.c")],
  ["bytes emitted", "bc->len", "output_value calls"],
  ("proof", "Every instruction record that satisfies the stated record invariants (opcode of at most 3 bytes, displacement and immediate of at most 8). yasm_x86__expr_checkea is used through its contract; output_value is a recording stand-in." + TCB))

P("C10", "Memory operands are encoded so that the processor addresses what was written",
  "For an effective address that is a sum of registers (with multipliers) and a displacement, the ModRM, SIB and REX bits chosen decode, by the processor's rules, to exactly those registers with those multipliers and to a displacement of the size emitted, in 16-, 32- and 64-bit addressing and for VSIB; the reg field, segment and REX.W/R bits of the instruction are not disturbed. The address size is the explicit one, else that of the displacement or registers, else the mode's. The displacement is omitted when zero (unless BP/EBP/R13 needs one), one byte when it fits in -128..127, full size otherwise or when relocatable, and a requested size is honoured. RIP-relative addresses use the RIP form with a 32-bit displacement. An address is rejected with an error exactly when no such encoding exists ([nosplit rip] is left open). Multipliers that do not fit are errors, never silently truncated.",
  ["inputs"], "all register multiplier vectors, displacement kinds, address sizes, modes, VSIB and REX states",
  "the tests assemble a few dozen addresses; most combinations of base, index, scale and displacement size are never assembled",
  ["modules/arch/x86/x86expr.c", "modules/arch/x86/x86bc.c"], [("yasm_x86__expr_checkea", "modules/arch/x86/x86expr.c"), ("x86_checkea_calc_displen", "modules/arch/x86/x86expr.c"), ("x86_expr_checkea_getregusage, get_reg3264, get_reg16", "modules/arch/x86/x86expr.c"), ("yasm_x86__set_rex_from_reg", "modules/arch/x86/x86bc.c")],
  ["ModRM, SIB, REX, displacement size", "diagnostics"],
  ("proof", "yasm_x86__expr_checkea for every multiplier vector, displacement state, mode and REX state, against an independent decoder. The collection of multipliers from the expression tree (x86_expr_checkea_getregusage) is a contract there; it is checked only on sums of at most two terms (bounded), with the expression library replaced by stand-ins." + TCB))

P("C07", "ALIGN and ORG pad to exactly the place asked for, with the padding asked for",
  "ALIGN to boundary b places what follows at the next multiple of b (any positive b, power of two or not; 0 means no alignment) unless that takes more than the maximum skip, in which case it pads nothing; the threshold at which layout must look again is exactly the next place where the padding changes. ORG makes what follows start at the given offset and is an error exactly when that offset is already passed. The bytes written are as many as the length says: all equal to the fill value when one is given, else whole code patterns of the architecture (largest first, remainder last), else zeros. In every mode and for every processor family, each x86 padding pattern for 1..15 bytes has that length and consists of complete instructions without effect in that mode.",
  ["inputs"], "all boundaries and offsets below 2^40, maximum skips, fill values, all modes and pattern lengths",
  "the tests align to a few powers of two at a few offsets",
  ["libyasm/bc-align.c", "libyasm/bc-org.c", "modules/arch/x86/x86arch.c"],
  [("bc_align_calc_len/expand/tobytes", "libyasm/bc-align.c"), ("bc_org_calc_len/expand/tobytes", "libyasm/bc-org.c"), ("x86_get_fill", "modules/arch/x86/x86arch.c")],
  ["bc->len", "bytes emitted", "thresholds returned"],
  ("proof", "All boundaries and offsets below 2^40; output loops by loop invariants (when the loops are rewritten so that the annotation point disappears, a labelled bounded check takes over). Constant expressions are stand-ins that follow the contracts of C05; nothing else is assumed." + TCB))

P("C08", "Repeat counts, reservations and included files occupy exactly what they announce",
  "A bytecode repeated n times occupies n times its own length and is written as n consecutive copies; n = 0 occupies nothing and a negative or non-constant n is an error. A reservation of n items of size s is a gap of n*s bytes that is never written. INCBIN of a file from a start offset with a maximum length includes exactly the bytes from start up to the end of the file or the maximum length (0 included), fails when the file cannot be opened, measured or has shrunk since layout, and never reads more than it announced. The distance between two places in a section is the difference of their offsets, and no distance is given across sections.",
  ["inputs", "faults"], "all repeat counts, lengths, file sizes, starts and maximum lengths, open/seek failures",
  "the tests include two small files and repeat a few instructions",
  ["libyasm/bytecode.c", "libyasm/bc-reserve.c", "libyasm/bc-incbin.c"],
  [("yasm_bc_calc_len/expand/tobytes/get_multiple/finalize", "libyasm/bytecode.c"), ("yasm_calc_bc_dist, yasm_bc_next_offset", "libyasm/bytecode.c"), ("bc_incbin_*", "libyasm/bc-incbin.c"), ("bc_reserve_*", "libyasm/bc-reserve.c")],
  ["bc->len", "mult_int", "bytes emitted", "file reads"],
  ("proof", "Everything except the copy loop of yasm_bc_tobytes, which is bounded (at most 4 copies of at most 6 bytes). Files are a stand-in with arbitrary length and failing open and seek; constant expressions are stand-ins that follow the contracts of C05." + TCB))

P("C12", "Data directives emit their items in order, at the item size, padded as asked",
  "A data directive emits its items in order: a value takes the item size, LEB128 items their encoding, a string its bytes padded with zeros to a multiple of the item size, a reserved item zeros; a terminating zero follows each item when asked for. Repeated items appear as often as their count says, zero times included, and a negative count is an error; values that are not yet known keep their place, size and repeat count and are converted at output, at the offset where they are written. The number of bytes written equals the length announced.",
  ["inputs"], "all lists of data items", "the tests use short lists of constants; combinations of known, unknown, repeated and padded items are not crossed",
  ["libyasm/bc-data.c"], [("yasm_bc_create_data (two passes that must pair up)", "libyasm/bc-data.c"), ("bc_data_finalize/calc_len/tobytes", "libyasm/bc-data.c")],
  ["bytes emitted", "bc->len"],
  ("other", "Bounded, not proved: every list of 2 items (3 in the thorough tier) over 12 item shapes, item sizes 1, 2, 4, repeat counts -1..3; string bytes arbitrary. Integer conversion is a stand-in (decided by C03, C04). The union of a data item is turned into a struct for the verifier." + TCB))


P("C21", "Every virtual line maps to the source file and line it came from",
  "A line given to the assembler is reported at the file and line of the last line mapping at or before it, counted on by that mapping's increment. A new mapping takes effect from its line on, replaces all mappings at or behind that line and leaves the lines before it alone; one without a file name keeps the current file. A poked line has exactly the place given to it, and the lines after it go on as if it had not been there. The source text and bytecode recorded for a line are returned for that line and no other.",
  ["histories"], "all sequences of mappings, pokes and lookups", "tests contain few line directives; histories of mappings are not sampled",
  ["libyasm/linemap.c"], [("yasm_linemap_set/lookup/poke", "libyasm/linemap.c"), ("yasm_linemap_add_source/get_source", "libyasm/linemap.c")],
  ["file name and line of lookups"],
  ("other", "Bounded, not proved: one operation on an arbitrary sorted map of at most 7 (lookup), 3 (set) or 2 (poke) mappings with arbitrary lines, names and increments; sortedness is re-established, so histories follow by induction within those sizes. The file name table is replaced by the identity." + TCB))

P("C22", "Diagnostics are all reported once, in line order, and disabled warnings are not",
  "The first error set before the errors are collected is the one reported, with the cross reference set before it; it is reported once, and it matches its class and all classes above it. Warnings are queued in order exactly when their class is enabled, and enabling or disabling a class affects no other. Collected diagnostics are kept sorted by line, those of one line in order of arrival; a parser error gives way only to another error on the same line, and no other diagnostic is lost. Errors and warnings are counted, and printed in that order at the place of their line; when warnings count as errors, this is said once, after the first.",
  ["histories"], "all sequences of errors and warnings", "the tests have one or two diagnostics each, mostly in line order",
  ["libyasm/errwarn.c"], [("errwarn_data_new", "libyasm/errwarn.c"), ("yasm_error_set/fetch/clear/matches, yasm_warn_*", "libyasm/errwarn.c"), ("yasm_errwarn_propagate, yasm_errwarns_output_all", "libyasm/errwarn.c")],
  ["list of diagnostics", "calls of the print functions"],
  ("other", "Bounded, not proved: insertion into every sorted list of at most 4 diagnostics (arbitrary lines, types and previous insertion point); collection for lists of at most 1 (thorough: 2) with at most 2 new warnings; indicator functions without bound. Message formatting is a stand-in." + TCB))
P("C15", "Symbols keep their identity, value and state through define, use and declare",
  "The same name, compared by the parser's case rules, always denotes the same symbol, and different names different symbols. Defining, using or declaring one changes that symbol only: a definition sets kind, value and line once (a second definition is an error and changes nothing; one of a symbol declared external is warned of); a use records the use and its first line; a declaration adds its visibility and is an error exactly when it contradicts a definition or an earlier external or common declaration (global always goes). Queries return what was set: only an EQU has an expression, only a label a place. When parsing ends, every symbol used but neither defined nor external nor common is reported at its first use, with one note at the first such line, or becomes external when asked for; no other symbol is reported or changed. The external name is the symbol's name with the object's prefix and suffix exactly when the symbol is not local.",
  ["histories"], "all symbol states, names and operations", "the tests define and declare a few symbols in common orders",
  ["libyasm/symrec.c"], [("symtab_define, yasm_symtab_define_*", "libyasm/symrec.c"), ("yasm_symtab_use/get/declare", "libyasm/symrec.c"), ("symtab_parser_finalize_checksym", "libyasm/symrec.c"), ("yasm_symrec_get_global_name", "libyasm/symrec.c")],
  ["symbol records", "diagnostics"],
  ("proof", "One operation on an arbitrary symbol state, so histories follow by induction. Names are abstracted to at most two characters of eight kinds (symrec.c only copies, lower-cases and hands them to the hash table); the groups where that matters (case-insensitive tables, external names, two symbols at the end of parsing) are labelled bounded. The hash table is a collaborator: a stand-in that finds the entry of an equal name." + TCB))

P("C23", "DWARF line programs give each instruction the file, line and address it has",
  "Running the emitted DWARF 2 line program of a section through the DWARF line state machine yields, for each .loc (the last of several at one place) or, with -g dwarf2 on assembler source, each bytecode with content, exactly one row with its file, line, column, statement flag and address, in order, and ends the sequence at the end of the section. Every opcode's operands and size are as the standard says and the emitted length equals the announced one; special opcodes are in range. The header's opcode lengths, directory and file tables are well formed and its length fields count exactly the bytes that follow them.",
  ["inputs"], "all states of the line machine, line and address deltas, .loc flags; headers and sections within the stated bounds",
  "the tests have a handful of .loc sequences with small deltas",
  ["modules/dbgfmts/dwarf2/dwarf2-line.c"],
  [("dwarf2_dbgfmt_gen_line_op", "modules/dbgfmts/dwarf2/dwarf2-line.c"), ("dwarf2_line_op_bc_calc_len/tobytes", "modules/dbgfmts/dwarf2/dwarf2-line.c"), ("dwarf2_spp_bc_*", "modules/dbgfmts/dwarf2/dwarf2-line.c"), ("dwarf2_generate_line_section/bc", "modules/dbgfmts/dwarf2/dwarf2-line.c")],
  ["line operations appended", "bytes emitted"],
  ("proof", "The step from one location to the next and the encoding of each operation hold for every state and delta; header (one directory, two files), sections (two locations, three bytecodes) are labelled bounded. Minimum instruction length 1 (x86). Integer emission is a stand-in that follows C03/C04." + TCB))

P("C16", "The layout is a fixpoint: places, jumps, repeat counts and paddings agree",
  "When layout ends without an error, each bytecode lies right after the one before it (its section starting at 0), every jump left in its short form reaches its target in that final layout, every TIMES count equals its expression evaluated on the final places, and every padding ends at its boundary for the place it finally has. Layout terminates. A TIMES count that depends on its own extent, directly or through others, is diagnosed. Sections are found by name, are listed in order of creation with their bytecodes and relocations in order of appending, and a walk over them visits each once and stops at the first failure.",
  ["inputs"], "all lists of bytecodes, lengths, thresholds and distances between labels within the stated bounds", "the tests contain a few jumps and paddings near their limits; interplay of expansions, TIMES and ALIGN depends on exact distances",
  ["libyasm/section.c"],
  [("optimize_add_span, create_span, add_span_term, span_create_terms", "libyasm/section.c"), ("recalc_normal_span, optimize_itree_add, optimize_term_expand, check_cycle", "libyasm/section.c"), ("update_all_bc_offsets, yasm_object_optimize", "libyasm/section.c"), ("yasm_object_get_general, yasm_object_find_general, yasm_section_bcs_append/traverse, yasm_section_add_reloc", "libyasm/section.c")],
  ["offset, length and repeat count of every bytecode", "order of sections, bytecodes and relocations", "error state"],
  ("other", "The steps (creating spans and terms, recalculating, expanding, queueing, circularity, offsets) for all values with at most two distances per expression and two spans per backtrace; the whole of yasm_object_optimize only on enumerated lists of up to nine bytecodes with lengths around the limits of a short jump (labelled bounded). The interval tree is a stand-in that yields every overlapping interval: its real code is not under contract, nor is termination for arbitrary lists." + TCB))

P("C17", "ELF objects say exactly what the assembly said: sections, symbols, relocations",
  "In an ELF object every header, symbol and relocation has the layout, types and field positions of the gABI and the x86, amd64 and x32 psABIs. The file header announces the header table; every section lies aligned and apart from all others at the offset and with the size its header gives; each relocation section follows its section and names it and the symbol table; sh_info of the symbol table is one more than the index of the last local symbol; names lead to their strings. A symbol has the value, size, section, binding, type and visibility it was given, externs are undefined, common symbols announce size and alignment, constants are absolute. For a value that the assembler cannot compute itself, symbol value plus addend (as stored or in the relocation), with the relocation type of its size, PC-relativity and WRT, is the value wanted; what ELF cannot express is an error and never a wrong relocation. A section declaration gets the type, flags and alignment of its name and attributes.",
  ["inputs"], "all header, symbol and relocation records, values and section attributes within the stated bounds", "the tests compare a few dozen objects; combinations of symbol kinds, relocation targets and section attributes are sampled thinly",
  ["modules/objfmts/elf/elf.c", "modules/objfmts/elf/elf-objfmt.c", "modules/objfmts/elf/elf-x86-x86.c", "modules/objfmts/elf/elf-x86-amd64.c", "modules/objfmts/elf/elf-x86-x32.c"],
  [("elf_*_write_symtab_entry/secthead/secthead_rel/reloc/proghead, map_reloc_info_to_type", "modules/objfmts/elf/elf-x86-*.c"), ("elf_strtab_*, elf_symtab_*, elf_secthead_*, elf_reloc_entry_create", "modules/objfmts/elf/elf.c"), ("elf_objfmt_output_value/reloc/bytecode, build_symtab, section_switch, elf_objfmt_output", "modules/objfmts/elf/elf-objfmt.c")],
  ["bytes written to the file", "relocations and symbols created", "diagnostics"],
  ("proof", "The writers of the three machines are proved for all records; symbols, values, bytecodes and section switches for one arbitrary item each. String tables and symbol tables of up to four entries and the whole-file order (two sections, three symbols, at most one relocation each) are labelled bounded. Premises: files under 4 GB, fewer than 0xff00 sections. Integers, expressions, sections and symbols are stand-ins that follow C01, C05 and C15." + TCB))
