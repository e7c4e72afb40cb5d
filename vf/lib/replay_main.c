/* Native replay driver.
 *   exe FILE            runs the harness on the verifier's input values (one
 *                       per line, decimal) on the real code;
 *   exe -s SEED SECS FILE  when those values do not reproduce the failure
 *                       (values of uninterpreted symbols are lost): tries
 *                       variations of them and random values.
 * exit 0: no violation seen; 1: property violated; 77: inputs outside the
 * precondition. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#define MAXV 8192
static unsigned long *in; static size_t n, k;
static unsigned long cur[MAXV];
static int bad, search, mode;
static jmp_buf out;
static unsigned long rs;
static unsigned long rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static unsigned long gen(void)
{
    static const unsigned long edge[] = {0,1,2,3,7,8,15,16,31,32,63,64,127,128,255,256,0x7fff,0x8000,0xffff,0x7fffffff,0x80000000,0xffffffff,
        0x100000000,0x7fffffffffffffff,0x8000000000000000,(unsigned long)-1,(unsigned long)-2,(unsigned long)-128,(unsigned long)-129,(unsigned long)-0x80000000L};
    unsigned long r = rnd();
    switch ((mode & 3) == 3 ? (r >> 8) % 6 : mode & 3) {
        case 0: return (r >> 16) & 3;
        case 1: return edge[(r >> 16) % (sizeof edge / sizeof *edge)];
        case 2: return r >> 16 & 0xff;
        case 3: return (r >> 16) & 0x1f;
        case 4: return rnd() & 1 ? 0 : ~0UL;
        default: return rnd();
    }
}
unsigned long vf_nd(void)
{
    unsigned long v;
    if (!search) return k < n ? in[k++] : (k++, 0UL);
    v = (k < n && (mode & 4) && rnd() % 8) ? in[k] : gen();
    if (k < MAXV) cur[k] = v;
    k++;
    return v;
}
static const char *hitname;
static void dump(void)
{
    size_t i; FILE *f;
    if (!search) return;
    if ((f = fopen(hitname, "w"))) { for (i = 0; i < k && i < MAXV; i++) fprintf(f, "%lu\n", cur[i]); fclose(f); }
    printf("INPUTS");
    for (i = 0; i < k && i < MAXV; i++) printf(" %lu", cur[i]);
    printf("\n");
    fflush(stdout);
}
void vf_assume(int ok, const char *what)
{
    if (ok) return;
    if (search) { if (bad) { dump(); _Exit(1); } longjmp(out, 1); }
    printf("ASSUME-FALSE %s\n", what); fflush(stdout); _Exit(bad ? 1 : 77);
}
void vf_check(int ok, const char *what)
{ if (!ok) { printf("CHECK-FAILED %s\n", what); fflush(stdout); bad = 1; if (search) { dump(); _Exit(1); } } }
void VF_HARNESS(void);
void __asan_set_death_callback(void (*f)(void)) __attribute__((weak));
int main(int argc, char **argv)
{
    FILE *f; unsigned long v; size_t cap = 0;
    const char *file = argv[1];
    if (argc > 4) { search = 1; file = argv[4]; rs = strtoul(argv[2], 0, 10) * 0x9e3779b97f4a7c15UL + 88172645463325252UL; }
    { char *h = malloc(strlen(file) + 5); sprintf(h, "%s.hit", file); hitname = h; }
    f = fopen(file, "r");
    if (!f) return 78;
    while (fscanf(f, "%lu", &v) == 1) {
        if (n == cap) in = realloc(in, (cap = cap ? cap*2 : 64)*sizeof *in);
        in[n++] = v;
    }
    fclose(f);
    if (search) {
        static time_t end; static unsigned long it;
        end = time(0) + atoi(argv[3]);
        if (__asan_set_death_callback) __asan_set_death_callback(dump);
        alarm(atoi(argv[3]) + 5);
        for (it = 0; time(0) < end && it < 3000000; it++) {
            k = 0; mode = it % 8;
            if (!setjmp(out)) VF_HARNESS();
        }
        return 77;
    }
    VF_HARNESS();
    if (!bad) printf("NO-VIOLATION\n");
    return bad;
}
