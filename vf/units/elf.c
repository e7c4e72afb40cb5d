/* modules/objfmts/elf/elf.c: string tables, symbol tables, section headers, relocation sections */
#include "prelude.h"
#ifndef NS
#define NS 3
#endif
#ifndef SETK
#define SETK 0
#endif
#ifndef NE
#define NE 2
#endif
#ifndef OPS
#define OPS 0
#endif
static void *vf_pool(size_t n);
#undef yasm_xmalloc
#define yasm_xmalloc(n) vf_pool(n)
#ifdef ELFOBJ
#define DL 12
#else
#define DL 5
#endif
static struct { char b[DL]; } dups[6]; static unsigned ndup;
static char *vf_dup(const char *s) { unsigned i; char *d = dups[ndup++].b; LEMMA(ndup <= 6, "strings"); for (i = 0; i < DL - 1; i++) { d[i] = s[i]; if (!s[i]) break; } d[DL - 1] = 0; return d; }
#undef yasm__xstrdup
#define yasm__xstrdup(s) vf_dup(s)
#include "libyasm.h"
static size_t vf_fwrite(const void *p, size_t sz, size_t n, FILE *f); static long vf_ftell(FILE *f); static int vf_fseek(FILE *f, long o, int w);
static int vf_casecmp(const char *a, const char *b);
#undef yasm__strcasecmp
#define yasm__strcasecmp(a, b) vf_casecmp(a, b)
#define fwrite(p, s, n, f) vf_fwrite(p, s, n, f)
#define ftell(f) vf_ftell(f)
#define fseek(f, o, w) vf_fseek(f, o, w)
#include "modules/objfmts/elf/elf.c"
#undef fwrite
#undef ftell
#undef fseek
/* ------------- stand-ins ------------- */
struct yasm_intnum { unsigned long v; };
static struct yasm_intnum ni_[12]; static unsigned n_ni;
static yasm_intnum *ni(unsigned long v) { yasm_intnum *n = &ni_[n_ni++]; LEMMA(n_ni <= 12, "numbers"); n->v = v; return n; }
yasm_intnum *yasm_intnum_create_uint(unsigned long i) { return ni(i); }
yasm_intnum *yasm_intnum_copy(const yasm_intnum *i) { return ni(i->v); }
void yasm_intnum_destroy(yasm_intnum *n) {}
int yasm_intnum_is_zero(const yasm_intnum *n) { return n->v == 0; }
unsigned long yasm_intnum_get_uint(const yasm_intnum *n) { return n->v; }
int yasm_intnum_calc(yasm_intnum *a, yasm_expr_op op, yasm_intnum *b) { LEMMA(op == YASM_EXPR_ADD, "operation"); a->v += b->v; return 0; }
static long fpos; static int tellfails, seekfails; static unsigned char out[32]; static unsigned nout, nwr; static const void *wrp[24]; static size_t wrl[24]; static long wrpos[24]; static int wrk[24]; static int recordbytes;
#define FF ((FILE *)&fpos)
static int lastk;      /* which record writer filled the buffer: 1 symbol, 2 header, 3 header of relocations, 4 relocation, 5 file header */
static size_t vf_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    unsigned i; LEMMA(f == FF && n == 1, "written to the output file");
    LEMMA(nwr < 24, "writes"); wrp[nwr] = p; wrpos[nwr] = fpos; wrk[nwr] = lastk; lastk = 0; fpos += sz; wrl[nwr++] = sz;
    if (recordbytes) for (i = 0; i < 5; i++) if (i < sz) { LEMMA(nout < 32, "output"); out[nout++] = ((const unsigned char *)p)[i]; }
    return n;
}
static long vf_ftell(FILE *f) { LEMMA(f == FF, "file"); return tellfails ? -1 : fpos; }
static int vf_fseek(FILE *f, long o, int w) { LEMMA(f == FF && w == SEEK_SET, "file"); if (seekfails) return -1; fpos = o; return 0; }
static int vf_streq(const char *a, const char *b) { unsigned i; for (i = 0; i < 12; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int vf_casecmp(const char *a, const char *b) { unsigned i; for (i = 0; i < 12; i++) { if (lower(a[i]) != lower(b[i])) return 1; if (!a[i]) return 0; } return 0; }
unsigned nprop; 
void yasm_errwarn_propagate(yasm_errwarns *e, unsigned long line) { nprop++; }
static elf_strtab_head sh_, sh2_; static elf_strtab_entry se_[8]; static unsigned nse;
static elf_symtab_head yh_; static elf_symtab_entry ye_[6]; static unsigned nye;
static elf_secthead hd_[4]; static unsigned nhd; static elf_reloc_entry re_[2]; static unsigned nre; static yasm_symrec *ss_[2]; static char name_[16];
static void *next_;      /* storage of list heads, pointer tables and names, whose sizes are those of other things */
static size_t nextn;
static void *vf_pool(size_t n)
{
    if (n == sizeof(elf_symtab_entry)) { LEMMA(nye < 6, "symbols"); return &ye_[nye++]; }
    if (n == sizeof(elf_secthead)) { LEMMA(nhd < 4, "headers"); return &hd_[nhd++]; }
    if (n == sizeof(elf_reloc_entry)) { LEMMA(nre < 2, "relocations"); return &re_[nre++]; }
    if (n == sizeof(elf_strtab_entry)) { LEMMA(nse < 8, "strings"); return &se_[nse++]; }
    LEMMA(next_ != 0 && n == nextn, "size"); return next_;
}
static long symbuf_[4][2], sectbuf_[2][8]; static yasm_bytecode pre_;
#define SYM(i) ((yasm_symrec *)symbuf_[i])
#define SECTN(i) ((yasm_section *)sectbuf_[i])
#define SECT SECTN(0)
typedef struct { int known; unsigned long v; } ex_;
static ex_ xs_[3], eq_[3]; static int hasequ[3], islab[3], hassect, hasshead; static elf_secthead labsh_, labsh2_;
#define EX(e) ((ex_ *)(e))
yasm_intnum *yasm_expr_get_intnum(yasm_expr **e, int dist) { static struct yasm_intnum t; if (!EX(*e)->known) return 0; t.v = EX(*e)->v; return &t; }
yasm_expr *yasm_expr__copy_except(const yasm_expr *e, int except) { return (yasm_expr *)e; }
void yasm_expr_destroy(yasm_expr *e) {}
static unsigned symno(const yasm_symrec *s) { return s == SYM(0) ? 0 : s == SYM(1) ? 1 : 2; }
const yasm_expr *yasm_symrec_get_equ(const yasm_symrec *s) { return hasequ[symno(s)] ? (yasm_expr *)&eq_[symno(s)] : (yasm_expr *)0; }
int yasm_symrec_get_label(const yasm_symrec *s, yasm_symrec_get_label_bytecodep *p) { *p = &pre_; return islab[symno(s)]; }
yasm_section *yasm_bc_get_section(yasm_bytecode *b) { return hassect ? (hassect == 2 ? SECTN(1) : SECT) : (yasm_section *)0; }
static int secthasdata; 
void *yasm_section_get_data(yasm_section *s, const yasm_assoc_data_callback *cb) { LEMMA((s == SECT || s == SECTN(1)) && cb == &elf_section_data, "section data"); return !hasshead ? (elf_secthead *)0 : s == SECT ? &labsh_ : &labsh2_; }
static elf_symtab_entry *symdata[4];
static unsigned nadd; static const void *added[2]; static yasm_symrec *addedto[2];
void *yasm_symrec_get_data(yasm_symrec *s, const yasm_assoc_data_callback *cb) { LEMMA(cb == &elf_symrec_data, "symbol data"); return symdata[symno(s)]; }
static unsigned nsymdata;
void yasm_symrec_add_data(yasm_symrec *s, const yasm_assoc_data_callback *cb, void *d) { if (cb == &elf_symrec_data) { LEMMA(symno(s) < 3 && !symdata[symno(s)], "data once"); symdata[symno(s)] = d; nsymdata++; return; } LEMMA(cb == &elf_ssym_symrec_data && nadd < 2, "special symbol data"); addedto[nadd] = s; added[nadd++] = d; }
static const char *dln_; static yasm_bytecode *dlb_; static int dlin;
static unsigned ndef; static const char *defname[2];
yasm_symrec *yasm_symtab_define_label(yasm_symtab *t, const char *name, yasm_bytecode *b, int in_table, unsigned long line)
{ if (b) { dln_ = name; dlb_ = b; dlin = in_table; return SYM(1); } LEMMA(!b && !in_table && ndef < 2, "special symbols stay out of the symbol table"); defname[ndef] = name; return SYM(ndef++); }
static elf_reloc_entry *rels_; static unsigned nrel; static unsigned nrelq; static void *reladded; static yasm_section *reladdedto;
static unsigned nrel1;
yasm_reloc *yasm_section_relocs_first(yasm_section *s) { LEMMA(s == SECT || s == SECTN(1), "section"); return s == SECT ? nrel ? (yasm_reloc *)&re_[0] : (yasm_reloc *)0 : nrel1 ? (yasm_reloc *)&re_[1] : (yasm_reloc *)0; }
static void (*reldtor)(void *);
void yasm_section_add_reloc(yasm_section *s, yasm_reloc *r, void (*d)(void *)) { reladdedto = s; reladded = r; reldtor = d; }
/* a machine whose writers record what they are given */
static elf_symtab_entry *wsym[4]; static unsigned long wval[4], wsize[4]; static unsigned wndx[4], wtype[4], nws;
static void m_sym(unsigned char *b, elf_symtab_entry *e, yasm_intnum *v, yasm_intnum *s) { lastk = 1; LEMMA(nws < 4, "symbols"); wsym[nws] = e; wval[nws] = v->v; wndx[nws] = e->index; wtype[nws] = e->type; wsize[nws++] = s->v; b[0] = 's'; }
static elf_secthead wshs[6]; static unsigned long wshsz[6]; static elf_secthead *wrsh[2];
static elf_secthead *wsh; static unsigned wshidx; static int nwsh, nwrel; static unsigned wsymidx, wrelsindex;
static void m_shdr(unsigned char *b, elf_secthead *s) { lastk = 2; if (nwsh < 6) wshs[nwsh] = *s; if (nwsh < 6) wshsz[nwsh] = s->size->v; nwsh++; wsh = s; wshidx = s->index; }
static void m_shdr_rel(unsigned char *b, elf_secthead *s, elf_section_index symtab, elf_section_index si) { lastk = 3; if (nwrel < 2) wrsh[nwrel] = s; nwrel++; wsh = s; wsymidx = symtab; wrelsindex = si; }
static elf_reloc_entry *wr[2]; static unsigned wrt_[2], wrs[2], nwr_; static unsigned maptype[2];
static unsigned int m_map(elf_reloc_entry *r) { return maptype[r == &re_[1]]; }
static void m_reloc(unsigned char *b, elf_reloc_entry *r, unsigned type, unsigned sym) { lastk = 4; LEMMA(nwr_ < 2, "relocations"); wr[nwr_] = r; wrt_[nwr_] = type; wrs[nwr_++] = sym; }
static unsigned long eh_a, eh_n; static unsigned eh_x; static unsigned neh;
static void m_ehdr(unsigned char **pp, elf_offset a, unsigned long n, elf_section_index x) { unsigned char *b = *pp - 4; lastk = 5; neh++; LEMMA(b[0] == 0x7f && b[1] == 'E' && b[2] == 'L' && b[3] == 'F', "ELF magic"); eh_a = a; eh_n = n; eh_x = x; *pp += 48; }
static int acc; static size_t accv; static yasm_symrec *accw;
static int m_acc(size_t v, yasm_symrec *w) { accv = v; accw = w; return acc; }
static yasm_intnum *hai; static elf_reloc_entry *har; static unsigned long hao;
static void m_add(yasm_intnum *i, elf_reloc_entry *r, unsigned long o) { hai = i; har = r; hao = o; }
static elf_machine_ssym sy_[2] = {{"plt", ELF_SSYM_SYM_RELATIVE, 4, 32}, {"gotpc", ELF_SSYM_CURPOS_ADJUST | ELF_SSYM_THREAD_LOCAL, 10, 32}};
#define MACH(nm, mc, pre, bits) elf_machine_handler elf_machine_handler_##nm = {"x86", mc, pre, 16, 8, 12, 40, 52, m_acc, m_sym, m_shdr, m_shdr_rel, m_add, m_map, m_reloc, m_ehdr, sy_, 2, bits};
MACH(x86_x86, "x86", ".rel", 32)
MACH(x86_amd64, "amd64", ".rela", 64)
MACH(x86_x32, "x32", ".rela", 32)
static void boot(void)
{
    vf_ghost_init(); n_ni = ndup = nout = nwr = nse = nye = nhd = nre = nws = nadd = ndef = nwr_ = 0; nwsh = nwrel = 0; neh = 0; nprop = 0; recordbytes = 0; tellfails = seekfails = 0; elf_march = &elf_machine_handler_x86_amd64;
}
#ifndef ELFOBJ
/* ------------- string tables: every index leads to its string ------------- */
static char in_[4][4];
static void anystr(char *s) { unsigned l = ND(unsigned char) % 3; s[0] = l > 0 ? ND(char) : 0; s[1] = l > 1 ? ND(char) : 0; s[2] = 0; ASSUME(l < 1 || s[0]); ASSUME(l < 2 || s[1]); }
static int at(unsigned long i, const char *s) { unsigned k; for (k = 0; k < 4; k++) { if (i + k >= nout || out[i + k] != (unsigned char)s[k]) return 0; if (!s[k]) return 1; } return 0; }
void h_strtab(void)
{
    static struct { char c[4]; } s[4], t; elf_strtab_head *h = &sh_; elf_strtab_entry *e[4]; unsigned i; unsigned long n; boot();
    STAILQ_INIT(h); { elf_strtab_entry *z = elf_strtab_entry_create(""); LEMMA(z->index == 0 && z->str[0] == 0, "first entry"); STAILQ_INSERT_TAIL(h, z, qlink); }   /* as elf_strtab_create leaves it (h_strtab_create) */
    for (i = 0; i < NS; i++) { anystr(s[i].c); e[i] = elf_strtab_append_str(h, s[i].c); }
    if (SETK) { anystr(t.c); elf_strtab_entry_set_str(e[SETK - 1], t.c); }
    recordbytes = 1; n = elf_strtab_output_to_file(FF, h);
    LEMMA(n == nout, "size of the string table"); LEMMA(out[0] == 0, "index 0 is the empty name");
    for (i = 0; i < NS; i++) LEMMA(at(e[i]->index, SETK == i + 1 ? t.c : s[i].c), "the index of a string leads to the string");
    CANARY;
}
void h_create(void)
{
    elf_strtab_head *h; elf_symtab_head *y; elf_strtab_entry *z; elf_symtab_entry *e; static const struct { char c[4]; } n = {{'.','t','x',0}}; char *q; unsigned i; const char *w; boot();
    next_ = &sh_; nextn = sizeof(sh_); h = elf_strtab_create(); z = STAILQ_FIRST(h);
    LEMMA(h == &sh_ && z->index == 0 && z->str[0] == 0 && STAILQ_NEXT(z, qlink) == 0 && h->stqh_last == &z->qlink.stqe_next, "a string table starts with the empty name");
    next_ = &yh_; nextn = sizeof(yh_); y = elf_symtab_create(); e = STAILQ_FIRST(y);
    LEMMA(y == &yh_ && e->qlink.stqe_next == 0 && y->stqh_last == &e->qlink.stqe_next && e->in_table && !e->sym && !e->sect && !e->name && !e->value && !e->xsize && !e->size && !e->index && !e->bind && !e->type && !e->vis && !e->symindex, "a symbol table starts with the null symbol");
    for (i = 0; i < 2; i++) { elf_march = i ? &elf_machine_handler_x86_amd64 : &elf_machine_handler_x86_x86; w = i ? ".rela.tx" : ".rel.tx"; next_ = name_; nextn = i ? 9 : 8; q = elf_secthead_name_reloc_section(n.c); LEMMA(q == name_ && vf_streq(q, w), "name of a relocation section"); }
    CANARY;
}
/* ------------- symbol tables ------------- */
/* unbounded: the first two entries are the null symbol and the file; the rest is whatever it is */
void h_insert(void)
{
    static elf_symtab_entry z, f, r, n, q; int hasr = ND_BOOL(); boot();
    z.bind = 0; z.type = 0; f.bind = 0; f.type = STT_FILE; r.bind = ND(unsigned) & 15; r.type = ND(unsigned) & 15; n.bind = 0; n.in_table = 0; q.in_table = 0; q.bind = STB_GLOBAL;
    yh_.stqh_first = &z; z.qlink.stqe_next = &f; f.qlink.stqe_next = hasr ? &r : (elf_symtab_entry *)0; r.qlink.stqe_next = 0; yh_.stqh_last = hasr ? &r.qlink.stqe_next : &f.qlink.stqe_next;
    n.type = ND(unsigned) & 15; ASSUME(n.type != STT_FILE);
    elf_symtab_insert_local_sym(&yh_, &n);
    LEMMA(yh_.stqh_first == &z && z.qlink.stqe_next == &f && f.qlink.stqe_next == &n && n.qlink.stqe_next == (hasr ? &r : (elf_symtab_entry *)0), "a local symbol goes right behind the file, before everything else");
    LEMMA(yh_.stqh_last == (hasr ? &r.qlink.stqe_next : &n.qlink.stqe_next) && n.in_table, "the list stays well formed");
    elf_symtab_append_entry(&yh_, &q);
    LEMMA((hasr ? r.qlink.stqe_next : n.qlink.stqe_next) == &q && q.qlink.stqe_next == 0 && yh_.stqh_last == &q.qlink.stqe_next && q.in_table && f.qlink.stqe_next == &n, "other symbols go last");
    CANARY;
}
void h_symtab(void)
{
    elf_symtab_entry *e, *l[5]; unsigned i, nloc = 2, pos; unsigned long r; boot();
    STAILQ_INIT(&yh_);
    { elf_symtab_entry *z = elf_symtab_entry_create(0, 0), *f = elf_symtab_entry_create(0, SYM(0)); z->in_table = 1; z->symindex = 0; f->type = STT_FILE; STAILQ_INSERT_TAIL(&yh_, z, qlink); elf_symtab_append_entry(&yh_, f); }
    for (i = 0; i < NE; i++) {
        e = l[i] = elf_symtab_entry_create(0, SYM(0)); LEMMA(!elf_sym_in_table(e) && !e->bind && !e->index && !e->value && !e->size && !e->xsize && !e->sect && e->vis == STV_DEFAULT && e->type == STT_NOTYPE, "a new entry");
        if ((OPS >> i) & 1) { elf_symtab_insert_local_sym(&yh_, e); nloc++; } else { elf_symtab_append_entry(&yh_, e); e->bind = 1 + ND_BOOL(); }
    }
    r = elf_symtab_assign_indices(&yh_);
    LEMMA(r == nloc, "the first non-local symbol is announced");
    for (pos = 0, e = yh_.stqh_first; pos < NE + 2; pos++, e = e->qlink.stqe_next) {
        LEMMA(e != 0 && e->symindex == pos, "symbols are numbered by position");
        LEMMA((e->bind == STB_LOCAL) == (pos < nloc), "local symbols come first");
    }
    LEMMA(e == 0 && ye_[1].symindex == 1, "every symbol once; the file first");
    CANARY;
}
void h_symwrite(void)
{
    unsigned i; unsigned long r; boot(); STAILQ_INIT(&yh_);
    for (i = 0; i < NE; i++) {
        elf_symtab_entry *e = &ye_[i]; e->sym = ND_BOOL() ? SYM(i) : (yasm_symrec *)0; e->xsize = ND_BOOL() ? (yasm_expr *)&xs_[i] : (yasm_expr *)0; e->size = ND(unsigned long); e->value = ND(unsigned long); e->index = ND(unsigned) & 0xffff; e->type = ND(unsigned) & 15; e->bind = ND(unsigned) & 15; e->sect = 0; e->name = 0; e->vis = 0;
        xs_[i].known = ND_BOOL(); xs_[i].v = ND(unsigned long); eq_[i].known = ND_BOOL(); eq_[i].v = ND(unsigned long); hasequ[i] = ND_BOOL(); islab[i] = ND_BOOL();
        STAILQ_INSERT_TAIL(&yh_, e, qlink);
    }
    hassect = ND_BOOL(); hasshead = ND_BOOL(); labsh_.flags = ND(unsigned) & 0x7ff;
    {
        unsigned nx[3], ty[3];
        for (i = 0; i < NE; i++) { nx[i] = ye_[i].index; ty[i] = ye_[i].type; }
        r = elf_symtab_write_to_file(FF, &yh_, 0);
        LEMMA(r == 16UL * NE && nws == NE && nwr == NE, "every symbol is written once");
        { unsigned errs = 0; for (i = 0; i < NE; i++) {
            int eq = ye_[i].sym && hasequ[i];
            LEMMA(wsym[i] == &ye_[i] && wrl[i] == 16, "in order");
            LEMMA(wsize[i] == (ye_[i].xsize && xs_[i].known ? xs_[i].v : ye_[i].size), "size of the symbol");
            LEMMA(wval[i] == (eq && eq_[i].known ? eq_[i].v : ye_[i].value), "value of the symbol");
            LEMMA(wndx[i] == (eq ? SHN_ABS : nx[i]), "a constant is absolute");
            LEMMA(wtype[i] == (ye_[i].sym && islab[i] && hassect && hasshead && (labsh_.flags & 0x400) ? STT_TLS : ty[i]), "a symbol in a TLS section is thread-local");
            errs += (ye_[i].xsize && !xs_[i].known) + (eq && !eq_[i].known);
        }
        LEMMA((errs != 0) == (vf_err != 0) && vf_nerr == errs && nprop == errs, "a size or value that is no number is an error"); }
    }
    CANARY;
}
void h_set(void)
{
    static elf_symtab_entry e, o; elf_address v = ND(unsigned long); int hs = ND_BOOL(), hx = ND_BOOL(), hv = ND_BOOL(); unsigned ix = ND(unsigned) & 0xffff, bi = ND(unsigned) & 15, ty = ND(unsigned) & 15, vis = ND(unsigned);
    boot(); e.sect = ND_BOOL() ? SECT : 0; e.index = ND(unsigned); e.bind = ND(unsigned); e.type = ND(unsigned); e.xsize = ND_BOOL() ? (yasm_expr *)&xs_[0] : 0; e.value = ND(unsigned long); e.size = ND(unsigned long); e.vis = 0; o = e;
    elf_symtab_set_nonzero(&e, hs ? SECT : 0, ix, bi, ty, hx ? (yasm_expr *)&xs_[1] : 0, hv ? &v : 0);
    LEMMA(e.sect == (hs ? SECT : o.sect) && e.index == (ix ? ix : o.index) && e.bind == (bi ? bi : o.bind) && e.type == (ty ? ty : o.type) && e.xsize == (hx ? (yasm_expr *)&xs_[1] : o.xsize) && e.value == (hv ? v : o.value) && e.size == o.size && e.name == o.name && e.sym == o.sym, "only what is given is set");
    elf_sym_set_visibility(&e, vis); LEMMA(e.vis == (vis & 3), "visibility");
    elf_sym_set_type(&e, ty); LEMMA(e.type == ty, "type");
    elf_sym_set_size(&e, (yasm_expr *)&xs_[2]); LEMMA(e.xsize == (yasm_expr *)&xs_[2], "size");
    CANARY;
}
/* ------------- section headers ------------- */
void h_secthead(void)
{
    static elf_strtab_entry n; static char sn[] = ".symtab", on[] = ".symtax"; int sym = ND_BOOL(), has = ND_BOOL(); unsigned long off = ND(unsigned long), sz = ND(unsigned long), al = ND(unsigned long), r; unsigned si = ND(unsigned), ty = ND(unsigned), fl = ND(unsigned) & 0x7fffffff; elf_secthead *s; static yasm_intnum add;
    boot(); n.str = sym ? sn : on; s = elf_secthead_create(has ? &n : 0, ty, fl, off, sz);
    LEMMA(s->type == ty && s->flags == fl && s->offset == off && s->size->v == sz && s->name == (has ? &n : 0) && s->index == 0 && s->link == 0 && s->info == 0 && s->sym == 0 && s->rel_name == 0 && s->rel_index == 0 && s->rel_offset == 0 && s->nreloc == 0, "a new header");
    LEMMA(s->entsize == (has && sym ? 16 : 0) && s->align == (has && sym ? 8 : 0), "entries of the symbol table");
    LEMMA(elf_secthead_is_empty(s) == (sz == 0), "empty"); add.v = ND(unsigned long); elf_secthead_add_size(s, &add); LEMMA(s->size->v == sz + add.v, "size grows"); elf_secthead_add_size(s, 0); LEMMA(s->size->v == sz + add.v, "no size");
    elf_secthead_set_typeflags(s, ty ^ 1, fl ^ 2); LEMMA(s->type == (ty ^ 1) && s->flags == (fl ^ 2) && elf_secthead_get_type(s) == (ty ^ 1), "type and flags");
    LEMMA(elf_secthead_set_align(s, al) == al && s->align == al && elf_secthead_get_align(s) == al, "alignment");
    elf_secthead_set_info(s, al); elf_secthead_set_index(s, si); elf_secthead_set_link(s, si + 1); elf_secthead_set_rel_index(s, si + 2); elf_secthead_set_rel_name(s, &n); elf_secthead_set_entsize(s, al + 1); elf_secthead_set_sym(s, SYM(1));
    LEMMA(s->info == al && s->index == si && elf_secthead_get_index(s) == si && s->link == (unsigned)(si + 1) && s->rel_index == (unsigned)(si + 2) && s->rel_name == &n && s->entsize == al + 1 && s->sym == SYM(1) && elf_secthead_get_sym(s) == SYM(1), "fields");
    r = elf_secthead_write_to_file(FF, s, si + 3); LEMMA(r == 40 && nwsh == 1 && wsh == s && wshidx == (unsigned)(si + 3) && s->index == (unsigned)(si + 3) && nwr == 1 && wrl[0] == 40, "written once under its index");
    nrel = ND_BOOL(); r = elf_secthead_write_rel_to_file(FF, si + 5, SECT, s, si + 6);
    LEMMA(nrel ? r == 40 && nwrel == 1 && wsh == s && wsymidx == (unsigned)(si + 5) && s->rel_index == (unsigned)(si + 6) && nwr == 2 && wrl[1] == 40 : r == 0 && nwrel == 0 && nwr == 1, "a relocation section exists exactly for sections with relocations");
    CANARY;
}
void h_offset(void)
{
    static elf_secthead s; long p = ND(long), r; boot(); s.align = ND(unsigned long); s.offset = ND(unsigned long);
    ASSUME(p >= 0 && p < (1L << 40) && s.align < (1UL << 32) && (s.align & (s.align - 1)) == 0);
    r = elf_secthead_set_file_offset(&s, p);
    LEMMA(s.offset == (unsigned long)r && r >= p && (s.align <= 1 ? r == p : r - p < (long)s.align && ((unsigned long)r & (s.align - 1)) == 0), "section contents start at the next aligned offset");
    CANARY;
}
void h_relocs(void)
{
    static elf_secthead s; static elf_symtab_entry es[2]; unsigned i; unsigned long r; boot(); nrel = NE; nre = 2; s.rel_offset = 77; s.nreloc = NE;
    fpos = ND(long); ASSUME(fpos >= 0 && fpos < (1L << 40)); tellfails = ND_BOOL(); seekfails = ND_BOOL();
    for (i = 0; i < NE; i++) { re_[i].reloc.sym = SYM(i); re_[i].reloc.link.stqe_next = i + 1 < NE ? &re_[i + 1].reloc : 0; es[i].symindex = ND(unsigned); symdata[i] = ND_BOOL() ? &es[i] : 0; maptype[i] = ND(unsigned char); }
    { long p0 = fpos; r = elf_secthead_write_relocs_to_file(FF, SECT, &s, 0);
    LEMMA(r == 12UL * NE && nwr == NE && nwr_ == NE, "every relocation is written once");
    if (NE) LEMMA((vf_err != 0) == (tellfails || seekfails) && (vf_err || (s.rel_offset == (unsigned long)wrpos[0] && wrpos[0] >= p0 && wrpos[0] - p0 < 4 && (wrpos[0] & 3) == 0)), "relocations start at an aligned offset that the header names; I/O failure is an error"); else LEMMA(fpos == p0 && s.rel_offset == 77, "no relocations, nothing happens"); }
    for (i = 0; i < NE; i++) LEMMA(wr[i] == &re_[i] && wrt_[i] == maptype[i] && wrs[i] == (symdata[i] ? es[i].symindex : 0) && wrl[i] == 12, "type and symbol index of the relocation");
    CANARY;
}
void h_relocentry(void)
{
    static yasm_intnum a, c; static elf_secthead s; elf_reloc_entry *e; int rel = ND_BOOL(), got = ND_BOOL(); size_t v = ND(unsigned long); yasm_symrec *w = ND_BOOL() ? SYM(1) : 0; unsigned long o = ND(unsigned long);
    boot(); acc = ND_BOOL(); e = elf_reloc_entry_create(SYM(0), w, &a, rel, v, got);
    LEMMA((e != 0) == (acc != 0) && accv == v && accw == w, "refused unless the machine has such a relocation");
    if (!e) return;
    LEMMA(e->reloc.sym == SYM(0) && e->reloc.addr == &a && e->rtype_rel == rel && e->valsize == v && e->addend == 0 && e->wrt == w && e->is_GOT_sym == got, "a new relocation");
    s.nreloc = o; elf_secthead_append_reloc(SECT, &s, e); LEMMA(s.nreloc == o + 1 && reladded == e && reladdedto == SECT && reldtor == elf_reloc_entry_destroy, "counted and kept");
    elf_handle_reloc_addend(&c, e, o); LEMMA(hai == &c && har == e && hao == o, "addend");
    CANARY;
}
void h_proghead(void)
{
    unsigned long a = ND(unsigned long), n = ND(unsigned long); unsigned x = ND(unsigned), r; boot();
    r = elf_proghead_write_to_file(FF, a, n, x); LEMMA(r == 52 && neh == 1 && eh_a == a && eh_n == n && eh_x == x && nwr == 1 && wrl[0] == 52 && elf_proghead_get_size() == 52, "file header");
    CANARY;
}
/* ------------- which machine ------------- */
static const char *mname;
static yasm_arch_base ab_; static yasm_arch_module am_;
static const char *m_getmachine(const yasm_arch *a) { return mname; }
void h_arch(void)
{
    static const char *ms[4] = {"x86", "amd64", "x32", "mips"}; unsigned k, b, i; const elf_machine_handler *m, *want;
    for (k = 0; k < 4; k++) for (b = 0; b <= 64; b += 32) {
        boot(); next_ = ss_; nextn = sizeof(ss_); mname = ms[k]; am_.keyword = "x86"; am_.get_machine = m_getmachine; ab_.module = &am_;
        m = elf_set_arch((yasm_arch *)&ab_, 0, b);
        want = k == 0 && b != 64 ? &elf_machine_handler_x86_x86 : k == 1 && b != 32 ? &elf_machine_handler_x86_amd64 : (k == 1 || k == 2) && b != 64 ? &elf_machine_handler_x86_x32 : 0;
        LEMMA(m == want && elf_march == want, "the machine for an architecture and file class");
        if (m) { LEMMA(ndef == 2 && nadd == 2 && added[0] == &sy_[0] && added[1] == &sy_[1] && addedto[0] == SYM(0) && addedto[1] == SYM(1) && defname[0] == sy_[0].name && defname[1] == sy_[1].name, "its special symbols");
            LEMMA(elf_get_special_sym("PLT", "nasm") == SYM(0) && elf_get_special_sym("gotpc", "gas") == SYM(1) && elf_get_special_sym("plq", "gas") == 0, "special symbols by name");
            LEMMA(elf_is_wrt_sym_relative(SYM(0)) && !elf_is_wrt_pos_adjusted(SYM(0)) && !elf_is_wrt_sym_relative(SYM(1)) && elf_is_wrt_pos_adjusted(SYM(1)) && !elf_is_wrt_sym_relative(SYM(2)) && !elf_is_wrt_pos_adjusted(SYM(2)), "what they are relative to"); }
    }
    am_.keyword = "lc3b"; mname = "x86"; LEMMA(elf_set_arch((yasm_arch *)&ab_, 0, 0) == 0, "no machine for other architectures");
    CANARY;
}
#endif
