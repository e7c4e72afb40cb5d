/* modules/objfmts/elf/elf-x86-*.c: the records of an ELF file, against the layouts of the gABI / psABI */
#include "prelude.h"
#ifndef M
#define M 64
#endif
#include "libyasm.h"
struct yasm_intnum { unsigned long v; };
static struct yasm_intnum ni_[3]; static unsigned n_ni;
#if M == 32
#include "modules/objfmts/elf/elf-x86-x86.c"
#define F(n) elf_x86_x86_##n
#define H elf_machine_handler_x86_x86
#elif M == 64
#include "modules/objfmts/elf/elf-x86-amd64.c"
#define F(n) elf_x86_amd64_##n
#define H elf_machine_handler_x86_amd64
#else
#include "modules/objfmts/elf/elf-x86-x32.c"
#define F(n) elf_x86_x32_##n
#define H elf_machine_handler_x86_x32
#endif
#define C64 (M == 64)                    /* the file class; x32 files are 32-bit class with RELA relocations */
#define RELA (M != 32)
#if M == 64
#define SYMSZ 24
#define SHSZ 64
#define RELSZ 24
#define EHSZ 64
#else
#define SYMSZ 16
#define SHSZ 40
#define RELSZ (RELA * 4 + 8)
#define EHSZ 52
#endif
/* ------------- stand-ins: numbers carry their value modulo 2^64 ------------- */
yasm_intnum *yasm_intnum_create_uint(unsigned long i) { yasm_intnum *n = &ni_[n_ni++]; LEMMA(n_ni <= 3, "numbers"); n->v = i; return n; }
yasm_intnum *yasm_intnum_copy(const yasm_intnum *i) { yasm_intnum *n = &ni_[n_ni++]; LEMMA(n_ni <= 3, "numbers"); n->v = i->v; return n; }
void yasm_intnum_destroy(yasm_intnum *n) {}
void yasm_intnum_zero(yasm_intnum *n) { n->v = 0; }
int yasm_intnum_calc(yasm_intnum *a, yasm_expr_op op, yasm_intnum *b)
{ LEMMA(op == YASM_EXPR_ADD || op == YASM_EXPR_MUL, "operation"); a->v = op == YASM_EXPR_ADD ? a->v + b->v : a->v * b->v; return 0; }
int yasm_intnum_check_size(const yasm_intnum *n, size_t size, size_t rshift, int range) { return 1; }   /* a value that does not fit stops the program */
void yasm_intnum_get_sized(const yasm_intnum *n, unsigned char *p, size_t destsize, size_t valsize, int shift, int bigendian, int warn)
{
    unsigned i;
    LEMMA((destsize == 4 && valsize == 32) || (destsize == 8 && valsize == 64), "field size"); LEMMA(shift == 0 && !bigendian && warn == 0, "plain little-endian field");
    for (i = 0; i < 8; i++) if (i < destsize) p[i] = (unsigned char)(n->v >> (8 * i));
}
const yasm_assoc_data_callback elf_section_data, elf_symrec_data, elf_ssym_symrec_data;
static long sectbuf_[8], symbuf_[2][2]; static elf_secthead shead_, other_; static elf_symtab_entry ent_, esym_; static elf_strtab_entry nm_, rnm_;
static elf_reloc_entry rel_; static int hasesym, isssym; static elf_machine_ssym *ssym_;
#define SECT ((yasm_section *)sectbuf_)
#define SYM ((yasm_symrec *)symbuf_[0])
#define WRT ((yasm_symrec *)symbuf_[1])
void *yasm_section_get_data(yasm_section *s, const yasm_assoc_data_callback *cb) { LEMMA(s == SECT && cb == &elf_section_data, "section data"); return &other_; }
void *yasm_symrec_get_data(yasm_symrec *s, const yasm_assoc_data_callback *cb)
{
    if (cb == &elf_symrec_data) { LEMMA(s == SYM, "the relocation's symbol"); return hasesym ? &esym_ : (elf_symtab_entry *)0; }
    LEMMA(cb == &elf_ssym_symrec_data && s == WRT, "the special symbol"); return isssym ? ssym_ : (elf_machine_ssym *)0;
}
/* ------------- the layouts ------------- */
#define B(o) ((unsigned long)b[o])
static unsigned long le2(const unsigned char *b) { return B(0) | B(1) << 8; }
static unsigned long le4(const unsigned char *b) { return B(0) | B(1) << 8 | B(2) << 16 | B(3) << 24; }
static unsigned long le8(const unsigned char *b) { return le4(b) | le4(b + 4) << 32; }
#define AW (C64 ? 8 : 4)                 /* size of an address, offset or Xword in this class */
#define W(x) (C64 ? (unsigned long)(x) : (x) & 0xffffffffUL)
static unsigned long lea(const unsigned char *b) { return C64 ? le8(b) : le4(b); }
#define U4(x) ((unsigned long)(unsigned)(x))
static int is_sym(const unsigned char *b, const elf_symtab_entry *e, unsigned long v, unsigned long sz)
{
    unsigned info = C64 ? b[4] : b[12], oth = C64 ? b[5] : b[13]; unsigned long ndx = le2(b + (C64 ? 6 : 14));
    return le4(b) == (e->name ? U4(e->name->index) : 0) && info == ((((unsigned)e->bind & 15) << 4) | ((unsigned)e->type & 15)) && oth == ((unsigned)e->vis & 3)
        && ndx == ((e->sect ? other_.index : e->index) & 0xffffUL) && lea(b + (C64 ? 8 : 4)) == W(v) && lea(b + (C64 ? 16 : 8)) == W(sz);
}
static int is_shdr(const unsigned char *b, unsigned long name, unsigned long type, unsigned long flags, unsigned long off, unsigned long size, unsigned long link, unsigned long info, unsigned long align, unsigned long ent)
{
    return le4(b) == U4(name) && le4(b + 4) == U4(type) && lea(b + 8) == W(flags) && lea(b + 8 + AW) == 0 && lea(b + 8 + 2 * AW) == W(off)
        && lea(b + 8 + 3 * AW) == W(size) && le4(b + 8 + 4 * AW) == U4(link) && le4(b + 12 + 4 * AW) == U4(info) && lea(b + 16 + 4 * AW) == W(align) && lea(b + 16 + 5 * AW) == W(ent);
}
static int is_rel(const unsigned char *b, const elf_reloc_entry *r, unsigned type, unsigned sym)
{
    unsigned long info = lea(b + AW);
    return lea(b) == W(r->reloc.addr->v) && (C64 ? info == ((unsigned long)sym << 32 | type) : info == (((unsigned long)(sym & 0xffffff) << 8) | (type & 255)))
        && (!RELA || lea(b + 2 * AW) == W(r->addend ? r->addend->v : 0));
}
static int is_ehdr(const unsigned char *b, unsigned long shoff, unsigned long shnum, unsigned long shstrndx)    /* b: the whole header */
{
    unsigned i; for (i = (M == 32 ? 7 : 7); i < 16; i++) if (b[i] != 0) return 0;
    return b[4] == (C64 ? 2 : 1) && b[5] == 1 && b[6] == 1 && le2(b + 16) == 1 && le2(b + 18) == (M == 32 ? 3 : 62) && le4(b + 20) == 1 && lea(b + 24) == 0 && lea(b + 24 + AW) == 0
        && lea(b + 24 + 2 * AW) == W(shoff) && le4(b + 24 + 3 * AW) == 0 && le2(b + 28 + 3 * AW) == EHSZ && le2(b + 30 + 3 * AW) == 0 && le2(b + 32 + 3 * AW) == 0
        && le2(b + 34 + 3 * AW) == SHSZ && le2(b + 36 + 3 * AW) == (shnum & 0xffff) && le2(b + 38 + 3 * AW) == (shstrndx & 0xffff);
}
/* relocation types by number (i386 and x86-64 psABI) */
static int want_type(const elf_reloc_entry *r)
{
    if (r->wrt) return M != 32 && r->rtype_rel && ssym_->reloc == 3 ? 9 : (int)ssym_->reloc;
    if (r->is_GOT_sym && r->valsize == 32) return M == 32 ? 10 : 26;
    if (r->is_GOT_sym && r->valsize == 64 && M == 64) return 29;
    switch (r->valsize) {
        case 8: return M == 32 ? (r->rtype_rel ? 23 : 22) : r->rtype_rel ? 15 : 14;
        case 16: return M == 32 ? (r->rtype_rel ? 21 : 20) : r->rtype_rel ? 13 : 12;
        case 32: return M == 32 ? (r->rtype_rel ? 2 : 1) : r->rtype_rel ? 2 : 10;
        case 64: return r->rtype_rel ? 24 : 1;
    }
    return -1;
}
/* ------------- contracts ------------- */
static void F(write_symtab_entry)(unsigned char *bufp, elf_symtab_entry *entry, yasm_intnum *value_intn, yasm_intnum *size_intn)
REQ(bufp && entry && value_intn && size_intn) ASG(UPTO(bufp, SYMSZ)) ENS(is_sym(bufp, entry, value_intn->v, size_intn->v));
static void F(write_secthead)(unsigned char *bufp, elf_secthead *shead)
REQ(bufp && shead) ASG(UPTO(bufp, SHSZ))
ENS(is_shdr(bufp, shead->name ? shead->name->index : 0, shead->type, U4(shead->flags), C64 ? U4(shead->offset) : shead->offset, shead->size->v, shead->link, shead->info, C64 ? U4(shead->align) : shead->align, C64 ? U4(shead->entsize) : shead->entsize));
static void F(write_secthead_rel)(unsigned char *bufp, elf_secthead *shead, elf_section_index symtab_idx, elf_section_index sindex)
REQ(bufp && shead && n_ni == 0) ASG(UPTO(bufp, SHSZ), n_ni, WHOLE(ni_))
ENS(is_shdr(bufp, shead->rel_name ? shead->rel_name->index : 0, RELA ? 4 : 9, 0, C64 ? U4(shead->rel_offset) : shead->rel_offset, RELSZ * shead->nreloc, symtab_idx, shead->index, C64 ? 8 : 4, RELSZ));
static void F(write_reloc)(unsigned char *bufp, elf_reloc_entry *reloc, unsigned int r_type, unsigned int r_sym)
REQ(bufp && reloc) ASG(UPTO(bufp, RELSZ)) ENS(is_rel(bufp, reloc, r_type, r_sym));
static void F(handle_reloc_addend)(yasm_intnum *intn, elf_reloc_entry *reloc, unsigned long offset)
REQ(intn && reloc && n_ni == 0) ASG(intn->v, reloc->addend, n_ni, WHOLE(ni_))
ENS(RELA ? reloc->addend == &ni_[0] && ni_[0].v == OLD(intn->v) && intn->v == 0
    : reloc->addend == OLD(reloc->addend) && intn->v == OLD(intn->v) + (!reloc->wrt && reloc->is_GOT_sym && reloc->valsize == 32 ? offset : 0));
static unsigned int F(map_reloc_info_to_type)(elf_reloc_entry *reloc)
REQ(reloc && want_type(reloc) >= 0) ASG(esym_.type)
ENS((int)RET == want_type(reloc))
ENS(esym_.type == ((reloc->wrt && (ssym_->sym_rel & 4)) ? (hasesym ? STT_TLS : OLD(esym_.type)) : OLD(esym_.type)));
static int F(accepts_reloc)(size_t val, yasm_symrec *wrt)
ASG() ENS((RET != 0) == (wrt ? isssym && val == ssym_->size : (val == 8 || val == 16 || val == 32 || (val == 64 && C64))));
static void F(write_proghead)(unsigned char **bufpp, elf_offset secthead_addr, unsigned long secthead_count, elf_section_index shstrtab_index)
REQ(bufpp) ASG(*bufpp, UPTO(*bufpp, EHSZ - 4)) ENS(*bufpp == OLD(*bufpp) + (EHSZ - 4) && is_ehdr(*bufpp - EHSZ, C64 ? U4(secthead_addr) : secthead_addr, secthead_count, shstrtab_index));
/* ------------- harnesses: every field arbitrary ------------- */
static unsigned char buf[64];
static void any_shead(elf_secthead *s)
{
    s->type = ND(unsigned); s->flags = ND(unsigned) & 0x7fffffff; s->offset = ND(unsigned long); s->size = &ni_[2]; ni_[2].v = ND(unsigned long); s->link = ND(unsigned); s->info = ND(unsigned long);
    s->align = ND(unsigned long); s->entsize = ND(unsigned long); s->sym = 0; nm_.index = ND(unsigned long); rnm_.index = ND(unsigned long); s->name = ND_BOOL() ? &nm_ : (elf_strtab_entry *)0; s->index = ND(unsigned);
    s->rel_name = ND_BOOL() ? &rnm_ : (elf_strtab_entry *)0; s->rel_index = ND(unsigned); s->rel_offset = ND(unsigned long); s->nreloc = ND(unsigned long);
    ASSUME(s->nreloc < (1UL << 32));
}
static void any_reloc(void)
{
    rel_.reloc.addr = &ni_[2]; ni_[2].v = ND(unsigned long); rel_.reloc.sym = SYM; rel_.rtype_rel = ND_BOOL(); rel_.valsize = ND(unsigned char); rel_.wrt = ND_BOOL() ? WRT : (yasm_symrec *)0; rel_.is_GOT_sym = ND_BOOL();
    ni_[1].v = ND(unsigned long); rel_.addend = ND_BOOL() ? &ni_[1] : (yasm_intnum *)0;
    esym_.type = ND(unsigned) & 15; hasesym = ND_BOOL(); isssym = ND_BOOL(); { unsigned k = ND(unsigned char); ASSUME(k < H.num_ssyms); ssym_ = &H.ssyms[k]; }
}
static void boot(void) { vf_ghost_init(); n_ni = 0; }
void h_sym(void)
{
    boot(); ent_.name = ND_BOOL() ? &nm_ : (elf_strtab_entry *)0; nm_.index = ND(unsigned long); ent_.bind = ND(unsigned) & 15; ent_.type = ND(unsigned) & 15; ent_.vis = ND(unsigned) & 3; ent_.index = ND(unsigned);
    ent_.sect = ND_BOOL() ? SECT : (yasm_section *)0; other_.index = ND(unsigned); ni_[0].v = ND(unsigned long); ni_[1].v = ND(unsigned long);
    F(write_symtab_entry)(buf, &ent_, &ni_[0], &ni_[1]);
    CHK(is_sym(buf, &ent_, ni_[0].v, ni_[1].v), "symbol table entry");
    CANARY;
}
void h_shdr(void)
{
    elf_secthead *s = &shead_; boot(); any_shead(s);
    F(write_secthead)(buf, s);
    CHK(is_shdr(buf, s->name ? s->name->index : 0, s->type, U4(s->flags), C64 ? U4(s->offset) : s->offset, s->size->v, s->link, s->info, C64 ? U4(s->align) : s->align, C64 ? U4(s->entsize) : s->entsize), "section header");
    CANARY;
}
void h_shdr_rel(void)
{
    elf_secthead *s = &shead_; unsigned si = ND(unsigned), sx = ND(unsigned); boot(); any_shead(s);
    F(write_secthead_rel)(buf, s, si, sx);
    CHK(is_shdr(buf, s->rel_name ? s->rel_name->index : 0, RELA ? 4 : 9, 0, C64 ? U4(s->rel_offset) : s->rel_offset, RELSZ * s->nreloc, si, s->index, C64 ? 8 : 4, RELSZ), "header of a relocation section");
    CANARY;
}
void h_reloc(void)
{
    unsigned ty = ND(unsigned char), sy = ND(unsigned); boot(); any_reloc();
    F(write_reloc)(buf, &rel_, ty, sy);
    CHK(is_rel(buf, &rel_, ty, sy), "relocation entry");
    CANARY;
}
void h_addend(void)
{
    static yasm_intnum n; unsigned long o = ND(unsigned long), v; yasm_intnum *a; boot(); any_reloc(); a = rel_.addend; n.v = v = ND(unsigned long);
    F(handle_reloc_addend)(&n, &rel_, o);
    CHK(RELA ? rel_.addend == &ni_[0] && ni_[0].v == v && n.v == 0 : rel_.addend == a && n.v == v + (!rel_.wrt && rel_.is_GOT_sym && rel_.valsize == 32 ? o : 0), "where the addend goes");
    CANARY;
}
void h_map(void)
{
    unsigned r, t; boot(); any_reloc(); isssym = 1; t = esym_.type;
    ASSUME(want_type(&rel_) >= 0 && (!rel_.wrt || rel_.valsize == ssym_->size));
    ASSUME(rel_.wrt || F(accepts_reloc)(rel_.valsize, 0));
    r = F(map_reloc_info_to_type)(&rel_);
    CHK((int)r == want_type(&rel_), "relocation type"); CHK(esym_.type == (rel_.wrt && (ssym_->sym_rel & 4) && hasesym ? STT_TLS : t), "thread-local symbols are typed so");
    CANARY;
}
void h_accepts(void)
{
    size_t v = ND(unsigned long); int r; boot(); any_reloc();
    r = F(accepts_reloc)(v, rel_.wrt);
    CHK((r != 0) == (rel_.wrt ? isssym && v == ssym_->size : (v == 8 || v == 16 || v == 32 || (v == 64 && C64))), "relocation sizes");
    CANARY;
}
void h_ehdr(void)
{
    unsigned char *p = buf + 4; unsigned long a = ND(unsigned long), n = ND(unsigned long); unsigned x = ND(unsigned); boot();
    F(write_proghead)(&p, a, n, x);
    CHK(p == buf + EHSZ && is_ehdr(buf, C64 ? U4(a) : a, n, x), "file header");
    CANARY;
}
/* the names usable with WRT: type and size by number, and the handler's sizes */
typedef struct { const char *n; unsigned t, sz; int rel, pos, tls; } want;
static int streq(const char *a, const char *b) { unsigned i; for (i = 0; i < 12; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
void h_table(void)
{
    static const want w[] = {
#if M == 32
    {"plt",4,32,1,0,0},{"gotoff",9,32,0,0,0},{"gotpc",10,32,0,1,0},{"tlsgd",18,32,1,0,1},{"tlsldm",19,32,1,0,1},{"gottpoff",33,32,1,0,1},{"tpoff",34,32,1,0,1},{"ntpoff",17,32,1,0,1},
    {"dtpoff",32,32,1,0,1},{"gotntpoff",16,32,1,0,1},{"indntpoff",15,32,1,0,1},{"got",3,32,1,0,0},{"tlsdesc",39,32,1,0,1},{"tlscall",40,32,1,0,1}
#elif M == 64
    {"pltoff",31,64,1,0,0},{"plt",4,32,1,0,0},{"gotplt",30,64,1,0,0},{"gotoff",25,64,1,0,0},{"gotpcrel",9,32,1,0,0},{"tlsgd",19,32,1,0,1},{"tlsld",20,32,1,0,1},{"gottpoff",22,32,1,0,1},
    {"tpoff",23,32,1,0,1},{"dtpoff",21,32,1,0,1},{"got",3,32,1,0,0},{"tlsdesc",34,32,1,0,1},{"tlscall",35,32,1,0,1}
#else
    {"plt",4,32,1,0,0},{"gotpcrel",9,32,1,0,0},{"tlsgd",19,32,1,0,1},{"tlsld",20,32,1,0,1},{"gottpoff",22,32,1,0,1},
    {"tpoff",23,32,1,0,1},{"dtpoff",21,32,1,0,1},{"got",3,32,1,0,0},{"tlsdesc",34,32,1,0,1},{"tlscall",35,32,1,0,1}
#endif
    };
    unsigned i, j, f;
    boot();
    LEMMA(H.num_ssyms == sizeof(w) / sizeof(w[0]), "number of special symbols");
    for (i = 0; i < sizeof(w) / sizeof(w[0]); i++) {
        for (f = 0, j = 0; j < sizeof(w) / sizeof(w[0]); j++) if (streq(w[i].n, H.ssyms[j].name)) {
            f++; LEMMA(H.ssyms[j].reloc == w[i].t && H.ssyms[j].size == w[i].sz && H.ssyms[j].sym_rel == (w[i].rel | w[i].pos << 1 | w[i].tls << 2), "special symbol"); }
        LEMMA(f == 1, "each special symbol once");
    }
    LEMMA(H.symtab_entry_size == SYMSZ && H.symtab_entry_align == AW && H.reloc_entry_size == RELSZ && H.secthead_size == SHSZ && H.proghead_size == EHSZ && H.bits == (C64 ? 64 : 32), "record sizes");
    LEMMA(streq(H.reloc_section_prefix, RELA ? ".rela" : ".rel") && streq(H.arch, "x86") && streq(H.machine, M == 32 ? "x86" : M == 64 ? "amd64" : "x32"), "names");
    LEMMA(H.accepts_reloc == F(accepts_reloc) && H.write_symtab_entry == F(write_symtab_entry) && H.write_secthead == F(write_secthead) && H.write_secthead_rel == F(write_secthead_rel) && H.handle_reloc_addend == F(handle_reloc_addend)
        && H.map_reloc_info_to_type == F(map_reloc_info_to_type) && H.write_reloc == F(write_reloc) && H.write_proghead == F(write_proghead), "functions");
    CANARY;
}
