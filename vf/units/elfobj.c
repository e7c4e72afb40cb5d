/* modules/objfmts/elf/elf-objfmt.c on top of the real elf.c: which symbols, relocations, sections and headers an object file gets */
#define ELFOBJ
#include "elf.c"
#ifndef WRTK
#define WRTK 0
#endif
#ifndef VISK
#define VISK 0
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef KW
#define KW 0
#endif
#ifndef SECTK
#define SECTK 0
#endif
#ifndef R0
#define R0 1
#endif
#ifndef R1
#define R1 0
#endif
static unsigned long gtotal; static const unsigned char *gbuf; static int ggap; static unsigned gj; static int gmode;
static size_t gap_fwrite(const void *p, size_t sz, size_t n, FILE *f);
#define fwrite(p, s, n, f) gap_fwrite(p, s, n, f)
#define ftell(f) vf_ftell(f)
#define fseek(f, o, w) vf_fseek(f, o, w)
static int vf_strcmp(const char *a, const char *b) { unsigned i; for (i = 0; i < 20; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
#define strcmp(a, b) vf_strcmp(a, b)
static int vf_output_tobytes(yasm_arch *arch, const yasm_intnum *n, unsigned char *buf, size_t destsize, size_t valsize, int shift, const yasm_bytecode *bc, int warn);
#undef yasm_arch_intnum_tobytes
#define yasm_arch_intnum_tobytes vf_output_tobytes
#undef yasm_dbgfmt_keyword
#define yasm_dbgfmt_keyword(d) "dwarf2"
#include "modules/objfmts/elf/elf-objfmt.c"
#undef fwrite
#undef ftell
#undef fseek
#undef strcmp
/* ------------- stand-ins ------------- */
static size_t (*gapw)(const void *, size_t);
static size_t gap_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    LEMMA(n == 1 && f == FF, "written to the output file");
    if (ggap) { LEMMA(sz <= 256 && (gj >= sz || ((const unsigned char *)p)[gj] == 0), "gaps become zeros"); } else LEMMA(p == gbuf && gtotal == 0, "the bytes of the bytecode");
    gtotal += sz; return n;
}
static int basic; static yasm_value *basicv;
int yasm_value_output_basic(yasm_value *v, unsigned char *buf, size_t destsize, yasm_bytecode *bc, int warn, yasm_arch *arch) { basicv = v; return basic; }
yasm_expr *yasm_expr__level_tree(yasm_expr *e, int a, int b, int c, int d, yasm_expr_xform_func f, void *x) { LEMMA(d == 1, "distances between bytecodes are computed"); return e; }
static unsigned long tb_v; static unsigned char *tb_buf; static size_t tb_dest, tb_val; static int tb_shift, tb_warn, tb_ret; static unsigned ntb; static const yasm_bytecode *tb_bc;
static int vf_output_tobytes(yasm_arch *arch, const yasm_intnum *n, unsigned char *buf, size_t destsize, size_t valsize, int shift, const yasm_bytecode *bc, int warn)
{ ntb++; tb_v = n->v; tb_buf = buf; tb_dest = destsize; tb_val = valsize; tb_shift = shift; tb_warn = warn; tb_bc = bc; return tb_ret; }
static unsigned svis[3], sstat[3]; static int sabs[3]; static char gname[3][1];
yasm_sym_vis yasm_symrec_get_visibility(const yasm_symrec *s) { return svis[symno(s)]; }
yasm_sym_status yasm_symrec_get_status(const yasm_symrec *s) { return sstat[symno(s)]; }
int yasm_symrec_is_abs(const yasm_symrec *s) { return sabs[symno(s)]; }
unsigned long yasm_symrec_get_decl_line(const yasm_symrec *s) { return 5; }
unsigned long yasm_symrec_get_def_line(const yasm_symrec *s) { return 5; }
static char nm_[4] = "sy", gn_[4] = "Gsy", sn_[4] = "sy", sn2_[4] = "sz"; static int samename;
const char *yasm_symrec_get_name(const yasm_symrec *s) { return nm_; }
static const char *sname_;
const char *yasm_section_get_name(const yasm_section *s) { return sname_ ? sname_ : samename ? sn_ : sn2_; }
char *yasm_symrec_get_global_name(const yasm_symrec *s, const yasm_object *o) { return gn_; }
static yasm_valparamhead vph_; static yasm_valparam vp_; static int hasvps;
yasm_valparamhead *yasm_symrec_get_objext_valparams(yasm_symrec *s) { return hasvps ? &vph_ : (yasm_valparamhead *)0; }
static yasm_expr *csize_;
yasm_expr **yasm_symrec_get_common_size(yasm_symrec *s) { csize_ = (yasm_expr *)&xs_[0]; return &csize_; }
yasm_expr *yasm_vp_expr(const yasm_valparam *vp, yasm_symtab *t, unsigned long line) { return (yasm_expr *)&xs_[1]; }
static int vpid; static const char *vpstr_;
static const yasm_valparam *vpa_; static const char *vpas_, *vpbs_;
const char *yasm_vp_id(const yasm_valparam *vp) { return vp == vpa_ ? vpas_ : vpbs_; }
const char *yasm_vp_string(const yasm_valparam *vp) { return vpstr_; }
unsigned long yasm_bc_next_offset(yasm_bytecode *b) { return b->offset + b->len; }
/* the helpers of directives, as their documentation says */
int yasm_dir_helper_flag_set(void *obj, yasm_valparam *vp, unsigned long line, void *d, uintptr_t arg) { *(unsigned long *)d = arg; return 0; }
int yasm_dir_helper_flag_or(void *obj, yasm_valparam *vp, unsigned long line, void *d, uintptr_t arg) { *(unsigned long *)d |= arg; return 0; }
int yasm_dir_helper_flag_and(void *obj, yasm_valparam *vp, unsigned long line, void *d, uintptr_t arg) { *(unsigned long *)d &= ~arg; return 0; }
static yasm_intnum alignn_;
int yasm_dir_helper_intn(void *obj, yasm_valparam *vp, unsigned long line, void *d, uintptr_t arg) { *(yasm_intnum **)d = &alignn_; return 0; }
int yasm_dir_helper_valparam_warn(void *obj, yasm_valparam *vp, unsigned long line, void *d) { return 0; }
static const char *kw_; static unsigned nkw;
int yasm_dir_helper(void *obj, yasm_valparam *vp, unsigned long line, const yasm_dir_help *help, size_t nhelp, void *data, int (*other)(void *, yasm_valparam *, unsigned long, void *))
{
    size_t i;
    if (!kw_) return 0;
    for (i = 0; i < nhelp; i++) if (vf_streq(help[i].name, kw_)) { nkw++; LEMMA(help[i].needsparam == (vf_streq(kw_, "align") || vf_streq(kw_, "gasflags")), "whether a parameter follows"); if (help[i].helper(obj, vp, line, (char *)data + help[i].off, help[i].arg) < 0) return -1; }
    return nkw != 0;
}
static yasm_object obj_; static yasm_objfmt_elf oe_;
static void boot2(void)
{
    unsigned i; boot(); sname_ = 0; n_ni = 0; acc = 1; oe_.elf_symtab = &yh_; oe_.strtab = &sh_; oe_.dotdotsym = SYM(2); obj_.objfmt = (yasm_objfmt *)&oe_; ntb = 0; gtotal = 0; nkw = 0; kw_ = 0; har = 0; hai = 0; reladded = 0; hassect = 1; hasshead = 1; samename = 0; hasvps = 0;
    elf_ssyms = ss_; nrel = 0; nsymdata = 0; for (i = 0; i < 3; i++) { symdata[i] = 0; svis[i] = sstat[i] = 0; sabs[i] = hasequ[i] = islab[i] = 0; }
}
/* ------------- values and their relocations ------------- */
static unsigned long handed; static elf_reloc_entry *handedr;
void h_value(void)
{
    static yasm_value v; static elf_objfmt_output_info info; static yasm_bytecode bc; static unsigned char buf[8]; unsigned long off = ND(unsigned long), labv; int r, warn = ND_BOOL(), hasrel = ND_BOOL(), hasabs = ND_BOOL(), warnk, moved; unsigned dest = ND(unsigned char); elf_reloc_entry *e;
    boot2(); ss_[0] = SYM(1); ss_[1] = (yasm_symrec *)symbuf_[3];
    basic = ND(unsigned char) % 3 - 1; tb_ret = ND_BOOL(); acc = ND_BOOL();
    v.rel = hasrel ? SYM(0) : 0; v.wrt = WRTK == 0 ? 0 : WRTK == 1 ? SYM(2) /* ..sym */ : WRTK == 2 ? SYM(1) /* symbol-relative */ : WRTK == 3 ? (yasm_symrec *)symbuf_[3] /* position-adjusted */ : (yasm_symrec *)sectbuf_[1] /* some other symbol */;
    v.abs = hasabs ? (yasm_expr *)&xs_[0] : 0; xs_[0].known = ND_BOOL(); xs_[0].v = ND(unsigned long); v.seg_of = ND_BOOL(); v.section_rel = ND_BOOL(); v.rshift = ND(unsigned char) & 127; v.curpos_rel = ND_BOOL(); v.size = ND(unsigned char);
    bc.offset = ND(unsigned long); pre_.offset = ND(unsigned long); pre_.len = ND(unsigned char); labv = pre_.offset + pre_.len; islab[0] = ND_BOOL(); hassect = 2; labsh2_.sym = SYM(1); svis[0] = ND(unsigned char) & 15;
    labsh_.nreloc = ND(unsigned short); info.object = &obj_; info.objfmt_elf = &oe_; info.sect = SECT; info.shead = &labsh_; info.GOT_sym = ND_BOOL() ? SYM(0) : ND_BOOL() ? SYM(1) : 0;
    { unsigned long n0 = labsh_.nreloc;
    r = elf_objfmt_output_value(&v, buf, dest, off, &bc, warn, &info);
    LEMMA(basicv == &v, "constants are tried first");
    if (basic) { LEMMA(r == (basic < 0) && nre == 0 && ntb == 0 && labsh_.nreloc == n0 && !vf_err, "a constant needs no relocation"); return; }
    if (v.seg_of || v.section_rel || v.rshift) { LEMMA(r && vf_err && nre == 0 && ntb == 0, "what ELF cannot express is an error"); return; }
    if (hasrel && !acc) { LEMMA(r && vf_err && nre == 0 && ntb == 0 && labsh_.nreloc == n0, "a relocation that the machine does not have is an error"); return; }
    if (hasabs && !xs_[0].known) { LEMMA(r && vf_err && ntb == 0, "what is not constant is an error"); return; }
    LEMMA(!vf_err && ntb == 1 && tb_buf == buf && tb_dest == dest && tb_val == v.size && tb_shift == 0 && tb_bc == &bc && tb_warn == warn && r == tb_ret, "the value is written once, and its success is the result");
    if (!hasrel) { LEMMA(nre == 0 && tb_v == (hasabs ? xs_[0].v : 0) && labsh_.nreloc == n0, "a value without symbol"); return; }
    e = &re_[0]; moved = e->reloc.sym != SYM(0);
    LEMMA(nre == 1 && reladded == e && reladdedto == SECT && labsh_.nreloc == n0 + 1, "one relocation, in the section being written");
    LEMMA(e->reloc.addr->v == bc.offset + off && e->rtype_rel == (int)v.curpos_rel && e->valsize == v.size && e->is_GOT_sym == (info.GOT_sym == e->reloc.sym) && e->wrt == (WRTK == 1 ? 0 : v.wrt), "place, size and kind of the relocation");
    LEMMA(moved == (svis[0] == YASM_SYM_LOCAL && islab[0] && (WRTK == 0 || WRTK == 4)) && (!moved || e->reloc.sym == SYM(1)), "local labels are relocated against their section");
    LEMMA(har == e && hao == off && hai->v == tb_v && tb_v == (hasabs ? xs_[0].v : 0) + (moved ? labv : 0) + (v.curpos_rel ? off : 0) + (WRTK == 3 ? off + bc.offset : 0), "symbol plus addend is the value wanted"); }
    CANARY;
}
void h_reloc(void)
{
    static elf_objfmt_output_info info; static yasm_bytecode bc; static unsigned char buf[8]; int r, warn = ND_BOOL(); unsigned dest = ND(unsigned char), val = ND(unsigned char);
    boot2(); acc = ND_BOOL(); tb_ret = ND_BOOL(); info.object = &obj_; info.sect = SECT; info.shead = &labsh_; bc.offset = ND(unsigned long); labsh_.nreloc = 3;
    r = elf_objfmt_output_reloc(SYM(0), &bc, buf, dest, val, warn, &info);
    if (!acc) { LEMMA(r && vf_err && nre == 0 && ntb == 0, "a relocation that the machine does not have is an error"); return; }
    LEMMA(r == tb_ret && nre == 1 && reladded == &re_[0] && reladdedto == SECT && labsh_.nreloc == 4 && re_[0].reloc.sym == SYM(0) && re_[0].reloc.addr->v == bc.offset && !re_[0].rtype_rel && re_[0].valsize == val && !re_[0].wrt && !re_[0].is_GOT_sym, "one relocation at the bytecode");
    LEMMA(har == &re_[0] && hao == 0 && ntb == 1 && tb_v == 0 && tb_buf == buf && tb_dest == dest && tb_val == val && tb_shift == 0, "no addend");
    CANARY;
}
/* ------------- bytecodes into the file ------------- */
static unsigned char big_[1]; static unsigned long tbsize; static int tbgap, tbbig; static yasm_output_value_func tbov; static yasm_output_reloc_func tbor;
unsigned char *yasm_bc_tobytes(yasm_bytecode *bc, unsigned char *buf, unsigned long *bufsize, int *gap, void *d, yasm_output_value_func ov, yasm_output_reloc_func orl)
{ LEMMA(*bufsize == 256, "size of the buffer"); *bufsize = tbsize; *gap = ggap = tbgap; gbuf = tbbig ? big_ : buf; tbov = ov; tbor = orl; return tbbig ? big_ : (unsigned char *)0; }
void h_bc(void)
{
    static elf_objfmt_output_info info; static yasm_bytecode bc; static struct yasm_intnum sz; int r; unsigned long s0;
    boot2(); tbsize = ND(unsigned long); tbgap = ND_BOOL(); tbbig = ND_BOOL(); gj = ND(unsigned char); info.shead = &labsh_; info.f = FF; labsh_.size = &sz; s0 = sz.v = ND(unsigned long);
#ifdef VF_REPLAY
    tbsize &= 0xfffffful;
#endif
#ifdef GAPMAX
    ASSUME(tbsize <= GAPMAX);
#endif
    r = elf_objfmt_output_bytecode(&bc, &info);
    LEMMA(r == 0 && sz.v == s0 + tbsize, "the section grows by the bytes of the bytecode");
    LEMMA(gtotal == tbsize, "all of them are written");
    LEMMA(tbov == elf_objfmt_output_value && tbor == elf_objfmt_output_reloc, "values are converted for ELF");
    LEMMA((vf_nwarn != 0) == (tbgap && tbsize), "a warning where space is not initialized");
    CANARY;
}
void h_align(void)
{
    long p; unsigned al = ND(unsigned); long p0; boot2(); fpos = p0 = ND(long); tellfails = ND_BOOL(); seekfails = ND_BOOL(); ASSUME(fpos >= 0 && fpos < (1L << 40) && al && (al & (al - 1)) == 0);
    p = elf_objfmt_output_align(FF, al);
    if (p == -1) LEMMA(vf_err && (tellfails || seekfails), "failure is an error");
    else LEMMA(!vf_err && p == fpos && p >= p0 && p - p0 < (long)al && ((unsigned long)p & (al - 1)) == 0, "the file is padded to the next boundary");
    CANARY;
}
/* ------------- symbols ------------- */
static elf_symtab_entry z_, f_; static elf_strtab_entry ze_;
static void lists(void)
{
    STAILQ_INIT(&yh_); STAILQ_INIT(&sh_); STAILQ_INIT(&vph_); STAILQ_INSERT_TAIL(&yh_, &z_, qlink); f_.type = STT_FILE; f_.index = SHN_ABS; STAILQ_INSERT_TAIL(&yh_, &f_, qlink); ze_.str = ""; ze_.index = 0; STAILQ_INSERT_TAIL(&sh_, &ze_, qlink);
}
static elf_symtab_entry pre1_; static elf_strtab_entry prn_, prn2_; static char prs_[4];
void h_build(void)       /* one symbol of any kind; VISK: 0 local 1 global 2 common 4 extern; PRE: 0 new, 1 named by .type, 2 declared weak */
{
    static build_symtab_info b; int def = ND_BOOL(), kind = ND(unsigned char) % 3 /* label, equ, neither */, abs = ND_BOOL(), all = ND_BOOL(), r, eq, lab; elf_symtab_entry *e; unsigned long labv, al; static const char *const kws[] = {0, "function", "data", "object", "internal", "hidden", "protected"};
    static const unsigned kty[] = {0, 2, 1, 1, 0, 0, 0}, kvis[] = {0, 0, 0, 0, 1, 2, 3};
    boot2(); lists(); samename = ND_BOOL(); lab = kind == 0; eq = kind == 1; islab[0] = lab; hasequ[0] = eq; sabs[0] = abs; hassect = ND_BOOL() ? 2 : 0; svis[0] = VISK; sstat[0] = def ? YASM_SYM_DEFINED | YASM_SYM_USED : YASM_SYM_USED;
    pre_.offset = ND(unsigned long); pre_.len = ND(unsigned char); labv = pre_.offset + pre_.len; xs_[1].known = ND_BOOL(); xs_[1].v = al = ND(unsigned long); hasvps = (VISK == 2 || KW) && ND_BOOL();
    if (VISK == 2 && hasvps) { vp_.val = 0; STAILQ_INSERT_TAIL(&vph_, &vp_, link); }
    if (KW && hasvps) kw_ = kws[KW];
    ASSUME(!eq || !lab);
    if (PRE) { static const elf_symtab_entry z; pre1_ = z; symdata[0] = &pre1_; pre1_.name = &prn_; prs_[0] = 's'; prs_[1] = 'y'; prs_[2] = 0; prn_.str = PRE == 1 ? prs_ : gn_; prn_.index = 7; prn2_.index = PRE == 1 ? 10 : 11; prn_.qlink.stqe_next = &prn2_; prn2_.qlink.stqe_next = 0; prn2_.str = nm_; pre1_.sym = SYM(0); pre1_.type = PRE == 1 ? STT_FUNC : 0; pre1_.bind = PRE == 2 ? STB_WEAK : 0; pre1_.in_table = 0; if (PRE == 2) elf_symtab_append_entry(&yh_, &pre1_); }
    b.object = &obj_; b.objfmt_elf = &oe_; b.local_names = all;
    r = elf_objfmt_build_symtab(SYM(0), &b);
    LEMMA(r == 0, "the traversal goes on"); e = symdata[0];
    if (VISK == 4) { LEMMA(e && e->in_table && e->bind == STB_GLOBAL && e->index == SHN_UNDEF && !e->sect && e->vis == 0 && e->value == 0, "an extern is an undefined global symbol"); goto named; }
    if (VISK == 2 && !def) {
        if (hasvps && (!xs_[1].known || (al & (al - 1)) || !al)) { if (!xs_[1].known || (al & (al - 1))) LEMMA(vf_err, "a bad alignment is an error"); goto out; }
        LEMMA(e && e->in_table && e->bind == STB_GLOBAL && e->index == SHN_COMMON && e->xsize == (yasm_expr *)&xs_[0] && e->value == (hasvps ? al : 0) && !e->sect, "a common symbol announces its size and alignment"); goto named;
    }
    if (VISK == 2) goto out;
    if (!def || (!lab && !eq && !abs)) { LEMMA(PRE || (!e && nse == 0), "undefined symbols that are not extern stay out"); goto out; }
    if (VISK == 0 && PRE != 2 && eq && !abs) { LEMMA(!PRE ? !e : !e->in_table, "local constants stay out of the symbol table"); goto out; }
    LEMMA(e && e->in_table, "a defined symbol is in the table");
    LEMMA(e->sect == (lab && hassect ? SECTN(1) : 0), "its section");
    if (PRE == 2) { LEMMA(e->bind == STB_WEAK && e->value == (lab ? labv : 0), "a weak symbol gets its definition"); goto out; }
    if (VISK == 1) { LEMMA(e->bind == STB_GLOBAL && e->value == (lab ? labv : 0) && e->type == (KW && hasvps && kty[KW] ? kty[KW] : PRE == 1 ? STT_FUNC : 0) && e->vis == (KW && hasvps ? kvis[KW] : 0) && e->index == 0, "a global symbol gets its type, visibility and value"); LEMMA(!(KW && hasvps) || nkw == 1, "keyword known"); }
    else {
        int sectsym = lab && hassect && samename;
        LEMMA(e->bind == STB_LOCAL && e->type == (sectsym ? STT_SECTION : PRE == 1 ? STT_FUNC : 0) && e->value == (sectsym || !lab ? 0 : labv), "a local symbol, or the symbol of a section");
        LEMMA(f_.qlink.stqe_next == e, "local symbols come before the others");
        if (!PRE) { LEMMA((e->name != 0) == (all && !sectsym), "local names are kept when asked for"); if (e->name) goto named; }
        goto out;
    }
named:
    if (!PRE) LEMMA(e->name && vf_streq(e->name->str, gn_) && e->name->index == 1 && e->sym == SYM(0) && e->xsize == (VISK == 2 ? (yasm_expr *)&xs_[0] : 0), "under its global name");
    else LEMMA(e == &pre1_ && e->name == &prn_ && vf_streq(prn_.str, gn_) && prn_.index == 7 && prn2_.index == 11, "the entry made earlier, now under its global name");
    out: CANARY;
}
/* ------------- sections ------------- */
static char secname_[20]; static unsigned long ga_align; static int ga_code, ga_res, ga_new, ga_def; static unsigned nga; static unsigned long sal_; static int ndef0;
yasm_section *yasm_object_get_general(yasm_object *o, const char *name, unsigned long align, int code, int res_only, int *isnew, unsigned long line) { nga++; ga_align = align; ga_code = code; ga_res = res_only; *isnew = ga_new; return SECTN(1); }
int yasm_section_is_default(const yasm_section *s) { return ga_def; }
void yasm_section_set_default(yasm_section *s, int d) { ndef0 = d; }
void yasm_section_set_align(yasm_section *s, unsigned long a, unsigned long line) { sal_ = a; }
unsigned long yasm_section_get_align(const yasm_section *s) { return sal_; }
yasm_object *yasm_section_get_object(const yasm_section *s) { return &obj_; }
typedef struct { const char *n; unsigned long type, flags, align; int res; } sdef;
void h_switch(void)
{
    static const sdef d[] = { {".text",1,6,16,0}, {".data",1,3,4,0}, {".bss",8,3,4,1}, {".rodata",1,2,4,0}, {".tdata",1,0x403,4,0}, {".comment",1,0,0,0}, {".note.gnu.property",7,0,8,0}, {".mine",1,2,1,0} };
    static const char *const kws[] = {0, "alloc", "exec", "write", "tls", "progbits", "noalloc", "noexec", "nowrite", "notls", "noprogbits", "nobits", "align"};
    static const unsigned long on[] = {0, 2, 4, 1, 0x400, 0,0,0,0,0,0,0,0}, offm[] = {0,0,0,0,0,0, 2, 4, 1, 0x400, 0,0,0}, ty[] = {0,0,0,0,0,1,0,0,0,0,8,8,0};
    unsigned k = SECTK, al = ND(unsigned); unsigned long fl, type, align; static yasm_valparamhead vps; static yasm_valparam v1, v2; yasm_section *s; int kwon = KW != 0;
    boot2(); ga_new = ND_BOOL(); ga_def = ND_BOOL(); sal_ = 1234; ndef0 = 7; STAILQ_INIT(&vps); STAILQ_INSERT_TAIL(&vps, &v1, link); STAILQ_INSERT_TAIL(&vps, &v2, link); vpstr_ = d[k].n; kw_ = kws[KW]; alignn_.v = al; nga = 0; labsh2_.type = 99; labsh2_.flags = 98; labsh2_.entsize = 97;
    fl = (d[k].flags | on[KW]) & ~offm[KW]; type = ty[KW] ? ty[KW] : d[k].type; align = KW == 12 ? al : d[k].align;
    s = elf_objfmt_section_switch(&obj_, &vps, 0, 1);
    LEMMA(nkw == (kwon ? 1 : 0), "the attribute is known");
    if (KW == 12 && (al & (al - 1))) { LEMMA(!s && vf_err && nga == 0, "an alignment that is no power of two is an error"); return; }
    LEMMA(s == SECTN(1) && nga == 1 && ga_align == align && (ga_code != 0) == ((fl & 4) != 0) && ga_res == d[k].res, "the section asked for");
    if (ga_new || ga_def) LEMMA(labsh2_.type == type && (unsigned long)labsh2_.flags == fl && sal_ == align && ndef0 == 0 && labsh2_.entsize == 97, "a new section has the type, flags and alignment of its name and attributes");
    else LEMMA(labsh2_.type == 99 && labsh2_.flags == 98 && sal_ == 1234 && (vf_nwarn != 0) == kwon, "a section keeps what it was declared with");
    CANARY;
}
void h_gasflags(void)     /* the letters of .section "flags" */
{
    static struct elf_section_switch_data d; static char f[4]; static yasm_valparam v; int r; unsigned i; unsigned long w = 0; int bad = 0; static const char ls[] = "awxMSGT"; static const unsigned long fs[] = {2, 1, 4, 0x10, 0x20, 0x200, 0x400};
    boot2(); for (i = 0; i < 3; i++) f[i] = ND(char); f[3] = 0; vpstr_ = f; d.flags = ND(unsigned long); d.gasflags = 0; d.stdsect = ND_BOOL();
    { unsigned long f0 = d.flags;
    r = elf_helper_gasflags(&obj_, &v, 1, &d, 0);
    for (i = 0; i < 3 && f[i]; i++) { unsigned j; int k = 0; for (j = 0; j < 7; j++) if (f[i] == ls[j]) { w |= fs[j]; k = 1; } if (!k) bad++; }
    LEMMA(r == 0 && d.gasflags == 1 && d.flags == (!f[0] && d.stdsect ? f0 : w) && vf_nwarn == (unsigned)bad, "each letter stands for its flag; others are warned about"); }
    CANARY;
}
void yasm_section_add_data(yasm_section *s, const yasm_assoc_data_callback *cb, void *d) { LEMMA(cb == &elf_section_data && s == SECT, "section data"); labsh_ = *(elf_secthead *)d; nadd++; }
yasm_bytecode *yasm_section_bcs_first(yasm_section *s) { return &pre_; }
static int hasbcs; static yasm_bytecode lastb_;
yasm_bytecode *yasm_section_bcs_last(yasm_section *s) { return &lastb_; }
/* ------------- the whole file: two sections ------------- */
static unsigned nbt, bs_[2]; static int build_done;
int yasm_section_bcs_traverse(yasm_section *s, yasm_errwarns *ew, void *d, int (*f)(yasm_bytecode *, void *))
{ elf_objfmt_output_info *i = d; LEMMA(f == elf_objfmt_output_bytecode && i->sect == s && i->shead == (s == SECT ? &labsh_ : &labsh2_), "the section's bytecodes, into the section"); bs_[s != SECT] = ++nbt; fpos += 24; return 0; }
int yasm_object_sections_traverse(yasm_object *o, void *d, int (*f)(yasm_section *, void *))
{
    if (f == elf_objfmt_output_section) { LEMMA(build_done, "symbols before sections"); return elf_objfmt_output_section(SECT, d) || elf_objfmt_output_section(SECTN(1), d); }
    LEMMA(f == elf_objfmt_output_secthead, "headers"); return elf_objfmt_output_secthead(SECT, d) || elf_objfmt_output_secthead(SECTN(1), d);
}

int yasm_symtab_traverse(yasm_symtab *t, void *d, int (*f)(yasm_symrec *, void *)) { build_symtab_info *b = d; LEMMA(f == elf_objfmt_build_symtab && b->object == &obj_ && b->objfmt_elf == &oe_, "all symbols"); build_done = 1 + b->local_names; return 0; }
yasm_symrec *yasm_symtab_get(yasm_symtab *t, const char *n) { return SYM(2); }
void h_output(void)
{
    static char src[4]; static struct yasm_intnum s0, s1; static elf_symtab_entry g; static elf_strtab_entry fe; static elf_strtab_entry ze2; unsigned i, nh, si0, ri0, si1, ri1, nx; int all = ND_BOOL(), nobits = ND_BOOL() && !R1; unsigned long shoff, str_pos, shstr_pos;
    boot2(); lists(); build_done = 0; nbt = 0; STAILQ_INIT(&sh2_); ze2.str = ""; ze2.index = 0; STAILQ_INSERT_TAIL(&sh2_, &ze2, qlink); fe.str = src; fe.index = 1; STAILQ_INSERT_TAIL(&sh_, &fe, qlink);
    oe_.shstrtab = &sh2_; oe_.file_strtab_entry = &fe; obj_.src_filename = src; src[0] = 'f'; src[1] = ND(char); src[2] = 0; f_.name = &fe; z_.index = 0; g.bind = STB_GLOBAL; STAILQ_INSERT_TAIL(&yh_, &g, qlink); ze_.index = 0; f_.sym = 0;
    labsh_.type = labsh2_.type = SHT_PROGBITS; if (nobits) labsh2_.type = SHT_NOBITS; labsh_.flags = labsh2_.flags = 2; labsh_.align = 1u << (ND(unsigned char) % 6); labsh2_.align = 0; sal_ = 1u << (ND(unsigned char) % 6); labsh_.size = &s0; labsh2_.size = &s1; s0.v = 24; s1.v = nobits ? 0 : 24;
    labsh_.nreloc = nrel = R0; labsh2_.nreloc = nrel1 = R1; nre = 2; re_[0].reloc.sym = SYM(0); re_[1].reloc.sym = SYM(1); re_[0].reloc.link.stqe_next = re_[1].reloc.link.stqe_next = 0; maptype[0] = 7; maptype[1] = 9; lastb_.offset = ND(unsigned char); lastb_.len = ND(unsigned char);
    next_ = name_; nextn = 8; fpos = 0; gmode = 1;
    elf_objfmt_output(&obj_, FF, all, 0);
    si0 = 4; ri0 = R0 ? 5 : 0; si1 = 5 + R0; ri1 = R1 ? 6 + R0 : 0; nx = 6 + R0 + R1;
    LEMMA(!vf_err && build_done == 1 + all, "no error"); LEMMA(bs_[0] == 1 && (nobits ? nbt == 1 : bs_[1] == 2 && nbt == 2), "every section with contents is written once");
    /* the order of the file */
    LEMMA(nwr >= 4 && wrk[nwr - 1] == 5 && wrpos[nwr - 1] == 0, "the file header comes first in the file"); 
    { long end = 52; unsigned nsy = 0, nhd2 = 0, nst = 0; shoff = str_pos = shstr_pos = 0;
      for (i = 0; i + 1 < nwr; i++) {
        LEMMA(wrpos[i] >= end, "nothing overlaps"); end = wrpos[i] + (long)wrl[i];
        if (wrk[i] == 2 || wrk[i] == 3) { if (!nhd2) shoff = wrpos[i]; LEMMA(wrpos[i] == (long)shoff + 40 * (long)nhd2, "the header table is contiguous"); nhd2++; }
        if (wrk[i] == 1) { if (!nsy) LEMMA(wrpos[i] == (long)wshs[3].offset, "the symbol table is where its header says"); else LEMMA(wrpos[i] == (long)wshs[3].offset + 16 * (long)nsy, "and contiguous"); nsy++; }
        if (wrk[i] == 0) { if (!nst) shstr_pos = wrpos[i]; nst++; }
        if (wrk[i] == 4) LEMMA(wrpos[i] == (long)(wrp[i] && nwr_ ? (R0 && i == 0 ? labsh_.rel_offset : labsh2_.rel_offset) : 0), "relocations are where their header says");
      }
      LEMMA(nhd2 == nx && eh_n == nx && eh_a == shoff && eh_x == 1 && nsy == 3, "the file header announces the header table"); nh = nhd2; }
    LEMMA((long)labsh_.offset >= 52 && (labsh_.offset & (labsh_.align - 1)) == 0 && (nobits || (labsh2_.offset >= labsh_.offset + 24 && (labsh2_.offset & (sal_ - 1)) == 0)) && labsh2_.align == sal_, "section contents are aligned and apart");
    if (nobits) LEMMA(s1.v == lastb_.offset + lastb_.len, "the size of a section without contents");
    /* the header table */
    LEMMA(wshs[0].type == 0 && wshs[0].index == 0 && wshs[0].offset == 0 && wshsz[0] == 0 && wshs[0].name == 0 && wshs[0].flags == 0, "header 0 is null");
    LEMMA(wshs[1].type == 3 && vf_streq(wshs[1].name->str, ".shstrtab") && wshs[1].offset == shstr_pos && wshs[1].index == 1, "header 1: section names");
    LEMMA(wshs[2].type == 3 && vf_streq(wshs[2].name->str, ".strtab") && wshs[2].index == 2 && wshs[2].offset >= wshs[1].offset + wshsz[1] && wshsz[2] == (src[1] ? 4ul : 3ul), "header 2: symbol names");
    LEMMA(wshs[3].type == 2 && vf_streq(wshs[3].name->str, ".symtab") && wshs[3].index == 3 && wshs[3].link == 2 && wshs[3].info == 2 && wshsz[3] == 48 && wshs[3].entsize == 16 && wshs[3].offset >= wshs[2].offset + wshsz[2], "header 3: symbols");
    LEMMA(nwsh == 6 && wshs[4].sym == labsh_.sym && wshs[4].index == si0 && wshs[5].index == si1 && labsh_.index == si0 && labsh2_.index == si1 && wshs[4].offset == labsh_.offset && wshsz[5] == s1.v, "then the sections under the indices symbols refer to");
    LEMMA(nwrel == R0 + R1 && labsh_.rel_index == ri0 && labsh2_.rel_index == ri1 && (!nwrel || wsymidx == 3), "each followed by its relocations");
    if (R0) LEMMA(wrsh[0] == &labsh_ && vf_streq(labsh_.rel_name->str, ".relasz"), "relocations of the first");
    if (R1) LEMMA(wrsh[R0] == &labsh2_ && vf_streq(labsh2_.rel_name->str, ".relasz"), "relocations of the second");
    CANARY;
}
/* a new section: header, section symbol and name */
void h_newsect(void)
{
    static const char *const ns[] = {".tx", ".stab", ".stabstr"}; elf_secthead *h; unsigned k = KW % 3;
    boot2(); lists(); oe_.shstrtab = &sh_; sname_ = ns[k]; nadd = 0; hasshead = 0;
    elf_objfmt_init_new_section(SECT, 9); h = &hd_[0];
    LEMMA(nhd == 1 && nadd == 1 && nse == 1 && vf_streq(se_[0].str, ns[k]) && se_[0].index == 1 && h->name == &se_[0] && h->type == (k == 2 ? 3 : 1) && h->entsize == (k == 1 ? 12 : 0) && h->flags == 0, "header under the section's name");
    LEMMA(h->sym == SYM(1) && dlb_ == &pre_ && dlin == 1 && dln_ == ns[k], "a section symbol at its start");
    CANARY;
}
/* .type, .size and .weak */
static const char *usen_; static unsigned nuse; static yasm_sym_vis decv_;
yasm_symrec *yasm_symtab_use(yasm_symtab *t, const char *n, unsigned long line) { LEMMA(line == 3, "line"); usen_ = n; nuse++; return SYM(0); }
yasm_symrec *yasm_symtab_declare(yasm_symtab *t, const char *n, yasm_sym_vis v, unsigned long line) { LEMMA(line == 3, "line"); usen_ = n; decv_ = v; return SYM(0); }
#ifndef DIR
#define DIR 0
#endif
void h_dirs(void)
{
    static yasm_valparamhead h; static yasm_valparam a, b; static const char *const ts[] = {"function", "OBJECT", "tls_object", "NoType", "funct", "functions", "notyp"}; static const int tv[] = {2, 1, 6, 0}; elf_symtab_entry *e; static const elf_symtab_entry z; unsigned t0, t = KW; int two = ND_BOOL(), hasval = ND_BOOL(), noid = ND_BOOL();
    boot2(); lists(); nuse = 0; decv_ = 0; vpa_ = &a; vpas_ = nm_; vpbs_ = noid ? (const char *)0 : ts[t]; a.val = 0; b.val = hasval ? (char *)nm_ : (char *)0; STAILQ_INIT(&h); STAILQ_INSERT_TAIL(&h, &a, link); if (two) STAILQ_INSERT_TAIL(&h, &b, link);
    pre1_ = z; pre1_.type = t0 = ND(unsigned char) & 15; prn_.str = nm_; prn_.qlink.stqe_next = 0; pre1_.name = &prn_; pre1_.xsize = (yasm_expr *)&xs_[2]; pre1_.bind = PRE == 2 ? STB_GLOBAL : 0; pre1_.in_table = PRE == 2; if (PRE == 2) elf_symtab_append_entry(&yh_, &pre1_); if (PRE) symdata[0] = &pre1_; else t0 = 0;
#if DIR == 0
    dir_type(&obj_, &h, 0, 3);
#elif DIR == 1
    dir_size(&obj_, &h, 0, 3);
#else
    dir_weak(&obj_, &h, 0, 3);
#endif
    e = symdata[0]; LEMMA(e && usen_ == nm_ && (!PRE || e == &pre1_), "one entry for the symbol named");
    if (!PRE) LEMMA(nye == 1 && nse == 1 && e == &ye_[0] && e->sym == SYM(0) && e->name == &se_[0] && vf_streq(se_[0].str, DIR == 2 ? gn_ : nm_) && se_[0].index == 1 && e->in_table == (DIR == 2) && e->value == 0 && !e->sect && e->index == 0, "a new entry under its name");
    else LEMMA(nye == 0 && e->in_table == (PRE == 2 || DIR == 2), "the entry made before");
#if DIR == 0
    if (!two || hasval || noid) LEMMA(vf_err && e->type == t0, "no type"); else LEMMA(!vf_err && e->type == (t < 4 ? tv[t] : t0) && (vf_nwarn != 0) == (t >= 4), "the type named");
    LEMMA(nuse == 1 && e->bind == (PRE == 2) && e->xsize == (PRE ? (yasm_expr *)&xs_[2] : 0), "and nothing else");
#elif DIR == 1
    if (!two || hasval) LEMMA(vf_err && e->xsize == (PRE ? (yasm_expr *)&xs_[2] : 0), "no size"); else LEMMA(!vf_err && e->xsize == (yasm_expr *)&xs_[1], "the size given");
    LEMMA(nuse == 1 && e->type == t0 && e->bind == (PRE == 2), "and nothing else");
#else
    LEMMA(!vf_err && decv_ == YASM_SYM_GLOBAL && e->bind == STB_WEAK && e->type == t0 && e->vis == 0 && vf_streq(e->name->str, PRE == 2 ? nm_ : gn_), "weak");
    { elf_symtab_entry *q = f_.qlink.stqe_next; LEMMA(q == e && !q->qlink.stqe_next, "in the table once"); }
#endif
    CANARY;
}
