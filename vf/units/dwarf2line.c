/* modules/dbgfmts/dwarf2/dwarf2-line.c: DWARF line programs decode to the table asked for */
#include "prelude.h"
#ifndef FIRST
#define FIRST 0
#endif
#ifndef NOBC
#define NOBC 0
#endif
#ifndef NXBC
#define NXBC 1
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef NDIR
#define NDIR 1
#endif
#ifndef NFILE
#define NFILE 2
#endif
#ifndef NB
#define NB 3
#endif
#ifndef NL
#define NL 2
#endif
#ifndef FILENUM
#define FILENUM 0
#endif
#ifndef VL1
#define VL1 0
#endif
#ifndef VL2
#define VL2 1
#endif
static void *vf_pool(size_t n);
#undef yasm_xmalloc
#define yasm_xmalloc(n) vf_pool(n)
/* rows are structs: CBMC 6.11 misreads a row of a two-dimensional char array
 * through a pointer with a symbolic index */
static struct { char b[5]; } dups[3]; static unsigned ndup;
static char *vf_dup(const char *s, unsigned long n) { unsigned i, e = 0; char *d = dups[ndup++].b; for (i = 0; i < 4; i++) { if (i >= n || !s[i]) e = 1; d[i] = e ? 0 : s[i]; if (e) break; } d[4] = 0; return d; }
#undef yasm__xstrdup
#define yasm__xstrdup(s) vf_dup((s), 99)
#define yasm__xstrndup(s, n) vf_dup((s), (n))
#include "modules/dbgfmts/dwarf2/dwarf2-line.c"
/* ------------- stand-ins ------------- */
struct yasm_intnum { int sg; unsigned long v; unsigned long sz, sx; };   /* size in the signedness of creation; difference when encoded in the other */
static struct yasm_intnum ni_[2]; static unsigned n_ni;
static dwarf2_line_op lo_[1]; static unsigned n_lo; static dwarf2_section_data dsd_; static dwarf2_spp spp_;
static void *vf_pool(size_t n)
{
    if (n == sizeof(dwarf2_line_op)) { LEMMA(n_lo < 1, "ops"); return &lo_[n_lo++]; }
    if (n == sizeof(dwarf2_section_data)) return &dsd_;
    LEMMA(n == sizeof(dwarf2_spp), "spp"); return &spp_;
}
static unsigned long lebsz(int sg, unsigned long v)     /* any size function; the real one is decided by C04 */
{ unsigned long s = ND(unsigned long); ASSUME(s >= 1 && s <= 10); return s; }
yasm_intnum *yasm_intnum_create_uint(unsigned long i) { yasm_intnum *n = &ni_[n_ni++]; LEMMA(n_ni <= 2, "numbers"); n->sg = 0; n->v = i; n->sz = lebsz(0, i); n->sx = ND_BOOL(); return n; }
yasm_intnum *yasm_intnum_create_int(long i) { yasm_intnum *n = &ni_[n_ni++]; LEMMA(n_ni <= 2, "numbers"); n->sg = 1; n->v = (unsigned long)i; n->sz = lebsz(1, (unsigned long)i); n->sx = ND_BOOL(); return n; }
void yasm_intnum_destroy(yasm_intnum *n) {}
unsigned long yasm_intnum_size_leb128(const yasm_intnum *n, int sign)
{ LEMMA(n->sg == (sign != 0) || !(n->v >> 63), "a number is encoded with its signedness"); return n->sz + (n->sg != (sign != 0) ? n->sx : 0); }
unsigned long yasm_intnum_get_leb128(const yasm_intnum *n, unsigned char *p, int sign)
{ unsigned long i; LEMMA(n->sg == (sign != 0) || !(n->v >> 63), "a number is encoded with its signedness"); for (i = 0; i < n->sz + (n->sg != (sign != 0) ? n->sx : 0); i++) p[i] = (unsigned char)(n->v + 3); return i; }
static yasm_bytecode bcs_[1]; static unsigned n_bc; static unsigned n_app, keep_; static void run1(const dwarf2_line_op *o);
static long sectbuf_[2][8];
#define DL ((yasm_section *)sectbuf_[0])
#define CODE ((yasm_section *)sectbuf_[1])
yasm_bytecode *yasm_bc_create_common(const yasm_bytecode_callback *cb, void *contents, unsigned long line)
{ yasm_bytecode *b = &bcs_[n_bc++]; LEMMA(n_bc <= 1, "bytecodes"); b->callback = cb; b->contents = contents; b->len = 0; return b; }
yasm_bytecode *yasm_dwarf2__append_bc(yasm_section *s, yasm_bytecode *bc)
{
    LEMMA(s == DL && bc == &bcs_[0] && n_bc == 1 && bc->callback == &dwarf2_line_op_bc_callback, "appended in order to the line section"); n_app++;
    if (!keep_) { run1(bc->contents); n_bc = n_lo = n_ni = 0; }     /* read at once; its storage is used again */
    return bc;
}
static unsigned long symaddr; static long symbuf_[2][2]; static yasm_bytecode symprec_; static int islabel;
#define SYM ((yasm_symrec *)symbuf_[0])
#define SYM2 ((yasm_symrec *)symbuf_[1])   /* the label behind the first bytecode */
static yasm_bytecode cb_[5]; static unsigned ncb;
int yasm_symrec_get_label(const yasm_symrec *s, yasm_symrec_get_label_bytecodep *p) { LEMMA(s == SYM || s == SYM2, "symbol"); *p = s == SYM ? &symprec_ : &cb_[1]; return islabel; }
unsigned long yasm_bc_next_offset(yasm_bytecode *bc) { return bc == &symprec_ ? symaddr : bc->offset + bc->len; }
yasm_bytecode *yasm_section_bcs_first(yasm_section *s) { LEMMA(s == CODE, "section"); return &cb_[0]; }
yasm_bytecode *yasm_section_bcs_last(yasm_section *s) { LEMMA(s == CODE, "section"); return &cb_[ncb - 1]; }
const yasm_assoc_data_callback yasm_dwarf2__section_data_cb;
static int hasdsd, iscode; static unsigned added;
void *yasm_section_get_data(yasm_section *s, const yasm_assoc_data_callback *cb) { LEMMA(cb == &yasm_dwarf2__section_data_cb, "data kind"); return hasdsd ? &dsd_ : (dwarf2_section_data *)0; }
int yasm_section_is_code(yasm_section *s) { return iscode; }
void yasm_section_add_data(yasm_section *s, const yasm_assoc_data_callback *cb, void *d) { added++; }
int yasm_section_bcs_traverse(yasm_section *s, yasm_errwarns *ew, void *d, int (*f)(yasm_bytecode *, void *))
{ unsigned i; for (i = 1; i < ncb; i++) if (dwarf2_generate_line_bc(&cb_[i], d)) return 1; return 0; }
/* ------------- an independent reader of line programs ------------- */
typedef struct { unsigned long addr, file, line, col, isa, disc; int stmt, bb, pe, eb; } row;
static row st, rows[6]; static unsigned nrows; static int ended, addrset;
static void emit(void) { LEMMA(nrows < 6, "rows"); rows[nrows++] = st; st.disc = 0; st.bb = st.pe = st.eb = 0; }
static void start(void) { st.addr = 0; st.file = 1; st.line = 1; st.col = 0; st.isa = 0; st.disc = 0; st.stmt = 1; st.bb = st.pe = st.eb = 0; addrset = 0; }
static yasm_symrec *theirsym; static unsigned asize;
static void run1(const dwarf2_line_op *o)
{
    unsigned op = o->opcode;
    LEMMA(op <= 255, "an opcode is a byte");
    if (op >= 13) { unsigned a = op - 13; LEMMA(!o->operand && !o->ext_opcode, "a special opcode has no operand"); st.addr += a / 14; st.line += (long)(a % 14) - 5; emit(); return; }
    if (op) LEMMA(!o->ext_opcode && (o->operand != 0) == (op == 2 || op == 3 || op == 4 || op == 5 || op == 9 || op == 12), "a standard opcode has the operands announced in the header");
    switch (op) {
        case 0:
            LEMMA(o->operand && !o->operand->sg && o->operand->v == o->ext_operandsize + 1, "an extended opcode announces its length");
            if (o->ext_opcode == 1) { LEMMA(!o->ext_operand && !o->ext_operand_int && o->ext_operandsize == 0, "no operand"); ended++; emit(); start(); }
            else if (o->ext_opcode == 2) { LEMMA((o->ext_operand == SYM || o->ext_operand == SYM2) && o->ext_operandsize == asize, "an address operand has the size of addresses"); st.addr = o->ext_operand == SYM ? symaddr : cb_[1].offset + cb_[1].len; addrset = 1; }
            else { LEMMA(o->ext_opcode == 4 && o->ext_operand_int && o->ext_operandsize == o->ext_operand_int->sz, "discriminator"); st.disc = o->ext_operand_int->v; }
            break;
        case 1: emit(); break;
        case 2: st.addr += o->operand->v; break;
        case 3: st.line += o->operand->v; break;
        case 4: st.file = o->operand->v; break;
        case 5: st.col = o->operand->v; break;
        case 6: st.stmt = !st.stmt; break;
        case 7: st.bb = 1; break;
        case 8: st.addr += 17; break;
        case 10: st.pe = 1; break;
        case 11: st.eb = 1; break;
        case 12: st.isa = o->operand->v; break;
        default: LEMMA(0, "no other opcode is used");
    }
}
static yasm_dbgfmt_dwarf2 dbg;
static void boot(void) { vf_ghost_init(); n_ni = n_lo = n_bc = n_app = 0; nrows = 0; ended = 0; addrset = 0; dbg.min_insn_len = 1; dbg.sizeof_address = asize = ND_BOOL() ? 8 : 4; dbg.sizeof_offset = 4; islabel = 1; symaddr = ND(unsigned long); start(); }
static void any_loc(dwarf2_loc *l)
{
    l->vline = ND(unsigned long); l->file = ND(unsigned long); l->line = ND(unsigned); l->column = ND(unsigned long); l->discriminator = ND(unsigned long); l->isa_change = ND_BOOL(); l->isa = ND(unsigned long);
    l->is_stmt = ND(unsigned char) % 3; l->basic_block = ND_BOOL(); l->prologue_end = ND_BOOL(); l->epilogue_begin = ND_BOOL(); l->sym = SYM;
    l->discriminator &= 0xffffffffUL;
    ASSUME(!(l->file >> 63) && !(l->column >> 63) && !(l->isa >> 63));
}
static int rowis(const row *r, unsigned long addr, const dwarf2_loc *l, int stmt, unsigned long isa)
{ return r->addr == addr && r->file == l->file && r->line == l->line && r->col == l->column && r->disc == l->discriminator && r->stmt == stmt && r->isa == isa && r->bb == l->basic_block && r->pe == l->prologue_end && r->eb == l->epilogue_begin; }
/* one location, from any state the generator can be in */
void h_loc(void)
{
    static dwarf2_line_state s; static dwarf2_loc l, nx; static yasm_bytecode prev, here, next; int first = FIRST, hasnx = ND_BOOL(), nobc = NOBC, r, stmt; unsigned long isa; row s0;
    boot(); any_loc(&l); any_loc(&nx);
    s.dbgfmt_dwarf2 = &dbg; s.precbc = first ? (yasm_bytecode *)0 : &prev; prev.offset = ND(unsigned); here.offset = ND(unsigned long); next.offset = ND(unsigned long);
    ASSUME(!(here.offset >> 62) && !(next.offset >> 62));
    s.file = ND(unsigned long); s.line = ND(unsigned); s.column = ND(unsigned long); s.isa = ND(unsigned long); s.is_stmt = ND_BOOL();
    if (first) { s.line = ND(unsigned); ASSUME(symaddr <= here.offset); } else ASSUME(prev.offset <= here.offset);
    if (nobc) l.bc = 0; else l.bc = &here;
    nx.bc = NXBC ? &next : nobc ? (yasm_bytecode *)0 : &here;
    if (ND_BOOL()) nx.bc = 0;
    ASSUME(!l.bc || !hasnx || !nx.bc || nx.bc->offset >= here.offset);
    st.addr = first ? 0 : prev.offset; st.file = s.file; st.line = s.line; st.col = s.column; st.isa = s.isa; st.stmt = s.is_stmt; s0 = st;
    r = dwarf2_dbgfmt_gen_line_op(DL, &s, &l, hasnx ? &nx : (dwarf2_loc *)0);
    LEMMA(!r && !vf_err, "accepted");
    stmt = l.is_stmt == IS_STMT_SET ? 1 : l.is_stmt == IS_STMT_CLEAR ? 0 : s0.stmt; isa = l.isa_change ? l.isa : s0.isa;
    LEMMA(s.file == st.file && s.column == st.col && s.isa == st.isa && (s.is_stmt != 0) == st.stmt && s.line == st.line && !ended, "the generator keeps track of the reader's registers");
    if ((hasnx && l.bc && nx.bc && nx.bc->offset == here.offset) || (hasnx && nx.bc == l.bc)) LEMMA(nrows == 0 && !addrset && st.addr == s0.addr && s.precbc == (first ? (yasm_bytecode *)0 : &prev), "of several locations at one place the last counts");
    else if (l.bc) {
        LEMMA(nrows == 1 && rowis(&rows[0], here.offset, &l, stmt, isa), "one row with the address, file, line, column and flags of the location");
        LEMMA(s.precbc == &here && st.addr == here.offset && addrset == first, "the address is set once, from the label before the code");
    } else if (!first) LEMMA(nrows == 0, "a location behind the last code has no row");
    CANARY;
}
void h_nolabel(void)
{
    static dwarf2_line_state s; static dwarf2_loc l; static yasm_bytecode here;
    boot(); any_loc(&l); l.sym = 0; l.bc = &here; s.dbgfmt_dwarf2 = &dbg; s.precbc = 0; s.file = 1; s.line = 1; s.is_stmt = 1; s.column = 0;
    LEMMA(dwarf2_dbgfmt_gen_line_op(DL, &s, &l, 0) != 0 && vf_err, "code without a label before it is an error");
    CANARY;
}
/* lengths and bytes of one line opcode */
static unsigned ovn; static unsigned long ovoff; static unsigned ovlen; static unsigned char *ovbuf;
static int vf_ov(yasm_value *v, unsigned char *buf, unsigned int n, unsigned long off, yasm_bytecode *bc, int warn, void *d)
{ unsigned i; LEMMA(v->rel == SYM && v->size == 8 * asize && !v->abs, "the address of the label"); ovn++; ovoff = off; ovlen = n; ovbuf = buf; for (i = 0; i < n; i++) buf[i] = 0xaa; return 0; }
void yasm_value_init_sym(yasm_value *v, yasm_symrec *s, unsigned int size) { v->abs = 0; v->rel = s; v->size = size; }
static unsigned char buf[64];
void h_op(void)
{
    unsigned k = KIND, op = ND(unsigned char), i, n; unsigned long v = ND(unsigned long), l1 = 0; unsigned char *p; yasm_bytecode *bc; const dwarf2_line_op *o;
    boot(); ovn = 0; keep_ = 1;
    if (k == 0) { op = op ? op : 1; bc = dwarf2_dbgfmt_append_line_op(DL, op, 0); }
    else if (k == 1) { ASSUME(!(v >> 63)); op = op == 3 || op == 0 ? 2 : op; bc = dwarf2_dbgfmt_append_line_op(DL, op, yasm_intnum_create_uint(v)); }
    else if (k == 2) bc = dwarf2_dbgfmt_append_line_op(DL, DW_LNS_advance_line, yasm_intnum_create_int((long)v));
    else if (k == 3) bc = dwarf2_dbgfmt_append_line_ext_op(DL, DW_LNE_end_sequence, 0, 0);
    else if (k == 4) bc = dwarf2_dbgfmt_append_line_ext_op(DL, DW_LNE_set_address, asize, SYM);
    else bc = dwarf2_dbgfmt_append_line_ext_op_int(DL, DW_LNE_set_discriminator, yasm_intnum_create_uint(v & 0xffffffff));
    if (k == 2) op = 3; if (k >= 3) op = 0;
    o = bc->contents;
    p = buf + 5;
    LEMMA(dwarf2_line_op_bc_tobytes(bc, &p, buf, 0, vf_ov, 0) == 0, "output");
    n = (unsigned)(p - (buf + 5));
    LEMMA(n == bc->len, "an opcode takes the bytes announced");
    LEMMA(buf[5] == op, "opcode");
    if (k == 1 || k == 2) LEMMA(o->operand->v == v && buf[6] == (unsigned char)(v + 3) && n == 1 + o->operand->sz, "operand");
    if (k >= 3) { l1 = o->operand->sz; LEMMA(o->operand->v == n - 1 - l1, "an extended opcode announces the bytes that follow"); LEMMA(buf[6 + l1] == (k == 3 ? 1 : k == 4 ? 2 : 4), "extended opcode"); }
    if (k == 4) LEMMA(ovn == 1 && ovbuf == buf + 7 + l1 && ovlen == asize && ovoff == 7 + l1, "address operand, at its own offset"); else LEMMA(ovn == 0, "no address");
    if (k == 5) LEMMA(buf[7 + l1] == (unsigned char)((v & 0xffffffff) + 3), "discriminator");
    CANARY;
}
/* the header */
static yasm_object obj; static long dsyms[4];
yasm_object *yasm_section_get_object(const yasm_section *s) { return &obj; }
static unsigned long plen;
static int vf_itb(yasm_arch *a, const yasm_intnum *n, unsigned char *b, size_t ds, size_t vs, int sh, const yasm_bytecode *bc, int warn)
{ LEMMA(ds == dbg.sizeof_offset && vs == ds * 8 && sh == 0 && b == buf, "prologue length field"); plen = n->v; b[0] = b[1] = b[2] = b[3] = 0; return 0; }
unsigned long yasm_get_uleb128(unsigned long v, unsigned char *p) { if (v < 128) { *p = (unsigned char)v; return 1; } *p = (unsigned char)(v | 0x80); p[1] = (unsigned char)(v >> 7); return 2; }
unsigned long yasm_size_uleb128(unsigned long v) { return v < 128 ? 1 : 2; }
static char d0[4], f0[4], f1[4]; static char *dirs[2]; static dwarf2_filename fns[2]; static yasm_arch_module am; static yasm_arch_base ab; static yasm_bytecode *sppbc_;
static long headbuf_[2];
dwarf2_head *yasm_dwarf2__add_head(yasm_dbgfmt_dwarf2 *d, yasm_section *s, yasm_section *p, int a, int g) { return (dwarf2_head *)headbuf_; }
static unsigned heads; void yasm_dwarf2__set_head_end(dwarf2_head *h, yasm_bytecode *b) { heads++; }
void h_header(void)
{
    unsigned i, j, n = 0; unsigned char *p = buf; static yasm_bytecode bc; static const unsigned char nops[12] = {0,1,1,1,1,0,0,0,1,0,0,1}; unsigned long len;
    boot(); obj.dbgfmt = (yasm_dbgfmt *)&dbg; obj.arch = (yasm_arch *)&ab; ab.module = &am; am.intnum_tobytes = vf_itb;
    for (i = 0; i < 2; i++) { d0[i] = ND(char); f0[i] = ND(char); f1[i] = ND(char); } d0[2] = f0[2] = f1[2] = 0; ASSUME(d0[0] && f0[0] && f1[0]);
    dirs[0] = d0; dbg.dirs = dirs; dbg.dirs_size = NDIR; fns[0].filename = f0; fns[1].filename = f1; fns[0].dir = ND(unsigned char); fns[1].dir = ND(unsigned char); dbg.filenames = fns; dbg.filenames_size = NFILE;
    len = 4 + 5 + 12 + 1 + 1; for (i = 0; i < NDIR; i++) len += d0[1] ? 3 : 2; for (i = 0; i < NFILE; i++) len += (fns[i].filename[1] ? 3 : 2) + (fns[i].dir < 128 ? 1 : 2) + 2;
    bc.len = len; bc.contents = &spp_;
    LEMMA(dwarf2_spp_bc_tobytes(&bc, &p, buf, 0, vf_ov, 0) == 0 && (unsigned long)(p - buf) == len && plen == len - 4, "the prologue has the length announced");
    LEMMA(buf[4] == 1 && buf[5] == 1 && (signed char)buf[6] == -5 && buf[7] == 14 && buf[8] == 13, "instruction length, default is_stmt, line base, line range, opcode base");
    for (i = 0; i < 12; i++) LEMMA(buf[9 + i] == nops[i], "operand counts of the standard opcodes");
    n = 21;
    for (i = 0; i < NDIR; i++) { LEMMA(buf[n] == (unsigned char)d0[0], "directory"); n++; if (d0[1]) { LEMMA(buf[n] == (unsigned char)d0[1], "directory"); n++; } LEMMA(buf[n] == 0, "terminated"); n++; }
    LEMMA(buf[n] == 0, "end of directories"); n++;
    for (i = 0; i < NFILE; i++) {
        const char *f = fns[i].filename; unsigned long dd = fns[i].dir;
        LEMMA(buf[n] == (unsigned char)f[0], "file"); n++; if (f[1]) { LEMMA(buf[n] == (unsigned char)f[1], "file"); n++; } LEMMA(buf[n] == 0, "terminated"); n++;
        if (dd < 128) { LEMMA(buf[n] == dd, "directory index"); n++; } else { LEMMA(buf[n] == (dd | 0x80 & 255) && buf[n + 1] == dd >> 7, "directory index"); n += 2; }
        LEMMA(buf[n] == 0 && buf[n + 1] == 0, "time and size unknown"); n += 2;
    }
    LEMMA(buf[n] == 0 && n + 1 == len, "end of files");
    CANARY;
}
/* a whole section: locations in order over the section's bytecodes */
static unsigned spl_h, spl_t; static const char *spl_p;      /* the split of the path at hand: any head, any tail behind it */
size_t yasm__splitpath_unix(const char *p, const char **t) { if (spl_p && p == spl_p) { *t = p + spl_t; return spl_h; } *t = p; return 0; }
static unsigned long lline[5];
void yasm_linemap_lookup(yasm_linemap *lm, unsigned long line, const char **f, unsigned long *fl) { *f = spl_p ? spl_p : f0; *fl = lline[line & 7]; LEMMA(line < 5, "line"); }
static yasm_symrec *sr_[2];
static void code(unsigned n)
{
    unsigned i;
    ncb = n; cb_[0].offset = 0; cb_[0].len = 0; sr_[0] = SYM; sr_[1] = 0; symaddr = 0; cb_[0].symrecs = sr_; symprec_ = cb_[0];
    for (i = 0; i < n; i++) { if (i) { cb_[i].len = ND(unsigned short); cb_[i].offset = cb_[i - 1].offset + cb_[i - 1].len; cb_[i].symrecs = 0; } cb_[i].line = i; cb_[i].link.stqe_next = i + 1 < n ? &cb_[i + 1] : (yasm_bytecode *)0; }
}
static dwarf2_line_info info;
void h_section(void)
{
    static dwarf2_loc l[2]; unsigned i, k = 0, last = 0; int stmt = 1; unsigned long isa = 0;
    boot(); code(NB); info.debug_line = DL; info.dbgfmt_dwarf2 = &dbg; info.asm_source = 0; info.num_sections = 3; hasdsd = ND_BOOL(); iscode = ND_BOOL();
    { static yasm_symrec *sr2[2]; sr2[0] = SYM2; sr2[1] = 0; cb_[1].symrecs = sr2; }
    STAILQ_INIT(&dsd_.locs);
    for (i = 0; i < NL; i++) { any_loc(&l[i]); l[i].vline = i ? VL2 : VL1; STAILQ_INSERT_TAIL(&dsd_.locs, &l[i], link); }
    LEMMA(dwarf2_generate_line_section(CODE, &info) == 0, "accepted");
    if (!hasdsd) { LEMMA(n_app == 0 && info.num_sections == 3, "a section without locations has no line program"); CANARY; return; }
    LEMMA(info.num_sections == 4 && info.last_code == CODE && ended == 1, "one sequence per section");
    for (i = 0; i < NL; i++) {
        unsigned b = (unsigned)l[i].vline + 1, nb = i + 1 < NL ? (unsigned)l[i + 1].vline + 1 : 99;    /* bytecode i is on line i: the first one behind line v is v+1 */
        if (l[i].is_stmt == IS_STMT_SET) stmt = 1; else if (l[i].is_stmt == IS_STMT_CLEAR) stmt = 0; if (l[i].isa_change) isa = l[i].isa;
        if (b >= NB) continue;
        if (nb < NB && cb_[nb].offset == cb_[b].offset) continue;
        LEMMA(k < nrows && rows[k].addr == cb_[b].offset && rows[k].line == l[i].line && rows[k].file == l[i].file && rows[k].col == l[i].column && rows[k].stmt == stmt && rows[k].isa == isa, "a row for each location, at the first code behind it");
        k++; last = 1;
    }
    if (last) LEMMA(nrows == k + 1 && rows[k].addr == cb_[NB - 1].offset + cb_[NB - 1].len, "the sequence ends at the end of the section");
    CANARY;
}
void h_asm(void)
{
    unsigned i, k = 0; static yasm_symrec *sr2[2];
    boot(); code(NB); info.debug_line = DL; info.dbgfmt_dwarf2 = &dbg; info.asm_source = 1; info.num_sections = 0; hasdsd = ND_BOOL(); iscode = ND_BOOL(); added = 0;
    f0[0] = 'f'; f0[1] = 0; fns[0].filename = f0; fns[0].dir = 0; fns[1].filename = f1; f1[0] = 'g'; f1[1] = 0; fns[1].dir = 0; dbg.filenames = fns; dbg.filenames_size = 2; dbg.dirs_size = 0;
    sr2[0] = SYM2; sr2[1] = 0; cb_[1].symrecs = sr2;
    for (i = 0; i < 5; i++) lline[i] = ND(unsigned);
    LEMMA(dwarf2_generate_line_section(CODE, &info) == 0, "accepted");
    if (!hasdsd && !iscode) { LEMMA(n_app == 0, "data sections have no line program"); CANARY; return; }
    for (i = 1; i < NB; i++) {
        if (i + 1 < NB && cb_[i + 1].offset == cb_[i].offset) continue;
        LEMMA(k < nrows && rows[k].addr == cb_[i].offset && rows[k].line == lline[i] && rows[k].file == 1, "a row for each place, with its line");
        k++;
    }
    LEMMA(nrows == k + 1 && ended == 1 && rows[k].addr == cb_[NB - 1].offset + cb_[NB - 1].len, "the sequence ends at the end of the section");
    CANARY;
}

/* the file tables: entry i is the path dirs[dir-1] + filename */
static char path[6]; static struct { char b[3]; } da[3], fa[3];
static char pick(void) { unsigned char c = ND(unsigned char); return c & 2 ? 0 : c & 1 ? 'a' : 'b'; }
static void any_path(void)
{
    unsigned n;
    spl_p = path; spl_h = ND(unsigned char); spl_t = ND(unsigned char); ASSUME(spl_h <= 2 && (spl_h ? spl_t == spl_h + 1 : spl_t == 0));
    for (n = 0; n < 5; n++) path[n] = ND_BOOL() ? 'a' : 'b';
    if (spl_h) path[spl_h] = '/';
    path[spl_t + 1] = pick(); path[spl_t + 2] = 0;
}
static int same(const char *s, const char *t, unsigned n) { unsigned i; for (i = 0; i < n; i++) if (s[i] != t[i]) return 0; return s[n] == 0; }
static unsigned tlen(void) { return path[spl_t + 1] ? 2 : 1; }
static void tables(unsigned nd, unsigned nf)
{
    static char *dd[8]; static dwarf2_filename ff[8]; unsigned i;
    for (i = 0; i < 3; i++) { da[i].b[0] = ND_BOOL() ? 'a' : 'b'; da[i].b[1] = pick(); da[i].b[2] = 0; fa[i].b[0] = ND_BOOL() ? 'a' : 'b'; fa[i].b[1] = pick(); fa[i].b[2] = 0; }
    for (i = 0; i < nd; i++) dd[i] = da[i].b;
    for (i = 0; i < nf; i++) { ff[i].filename = fa[i].b; ff[i].dir = ND(unsigned char) % (nd + 1); }
    dbg.dirs = dd; dbg.dirs_size = nd; dbg.dirs_allocated = 8; dbg.filenames = ff; dbg.filenames_size = nf; dbg.filenames_allocated = 8;
}
static int entry_is(unsigned long i)
{ dwarf2_filename *f = &dbg.filenames[i]; LEMMA(f->dir <= dbg.dirs_size, "directory index"); return (f->dir == 0 ? spl_h == 0 : spl_h > 0 && same(dbg.dirs[f->dir - 1], path, spl_h)) && same(f->filename, path + spl_t, tlen()); }
void h_addfile(void)
{
    unsigned long want = FILENUM, got, i, o; unsigned nd = 2, nf = 2; dwarf2_filename g[3]; int had = -1;
    boot(); ndup = 0; any_path(); tables(nd, nf);
    for (i = 0; i < nf; i++) g[i] = dbg.filenames[i];
    for (i = 0; i < nf; i++) if (had < 0 && entry_is(i)) had = (int)i;
    ASSUME(dbg.dirs[0][0] != dbg.dirs[1][0] || dbg.dirs[0][1] != dbg.dirs[1][1]);      /* the directory table has no duplicates */
    got = dwarf2_dbgfmt_add_file(&dbg, want, path);
    LEMMA(got < dbg.filenames_size && entry_is(got), "the file is in the table, in its directory");
    LEMMA(want ? got == want - 1 && dbg.filenames_size == (want > 2 ? want : 2) : had >= 0 ? got == (unsigned long)had && dbg.filenames_size == 2 : got == 2 && dbg.filenames_size == 3, "under the number asked for, or once");
    o = ND(unsigned char) & 1; if (o != got) LEMMA(dbg.filenames[o].filename == fa[o].b && dbg.filenames[o].dir == g[o].dir, "other files stay");
    LEMMA(dbg.dirs[0] == da[0].b && dbg.dirs[1] == da[1].b && dbg.dirs_size <= 3, "directories stay");
    CANARY;
}
void h_lookup(void)
{
    static dwarf2_line_bc_info bi; static dwarf2_line_state s; unsigned nd = 2, nf = 2; unsigned long last = ND(unsigned char) % 3; static yasm_symrec *none[1];
    boot(); any_path(); tables(nd, nf); code(2); cb_[1].symrecs = 0;
    ASSUME(entry_is(0) || entry_is(1));
    bi.debug_line = DL; bi.dbgfmt_dwarf2 = &dbg; bi.state = &s; bi.lastfile = last; s.dbgfmt_dwarf2 = &dbg; s.file = 1; s.line = 1; s.is_stmt = 1; any_loc(&bi.loc); bi.loc.sym = SYM; st.addr = 0;
    LEMMA(dwarf2_generate_line_bc(&cb_[1], &bi) == 0 && nrows == 1, "one row");
    LEMMA(rows[0].file >= 1 && rows[0].file <= nf && entry_is(rows[0].file - 1), "the row's file number denotes the file of its line");
    CANARY;
}
