// C27: the library coding.  objfile (library/objfile.cc) makes a tape of a procedure with symbolic words, the compiler
// loads it for a program that calls the procedure; and damaged tapes.
// arg: 1000 * kind + 100 * phase + operation number.
#include "xc.h"
#include <stdarg.h>
namespace {
struct XoExit { int status; };
char lines[4000], tape[8000];
size_t nlines, atline, ntape;
int num[400], tnum[2000], nnum, atnum, ntnum;
void w(const char *s) { while (*s) lines[nlines++] = *s++; }
void wn(int v) { char b[12]; int n = 0; do b[n++] = (char)('0' + v % 10); while (v /= 10); while (n) lines[nlines++] = b[--n]; }
void putt(int c) { if (ntape >= sizeof tape) sym_limit("tape longer than the buffer"); tape[ntape++] = (char)c; }
}
extern "C" {
int objfile_main(int, char **);
void xo_number(long);
int xo_optind;
char *xo_optarg;
void xo_exit(int status) { throw XoExit{status}; }
int xo_getopt(int argc, char *const *argv, const char *)
{
    if (xo_optind == 0) xo_optind = 1;
    if (xo_optind < argc && argv[xo_optind][0] == '-') sym_limit("options");
    return -1;
}
FILE *xo_fopen(const char *, const char *) { return (FILE *)lines; }
int xo_fclose(FILE *) { return 0; }
ssize_t xo_getline(char **line, size_t *cap, FILE *)
{
    size_t a = atline, e = a;
    if (a >= nlines) return -1;
    while (e < nlines && lines[e] != '\n') e++;
    if (e < nlines) e++;
    if (!*line) { *line = (char *)malloc(120); *cap = 120; }
    for (size_t i = 0; i < e - a; i++) (*line)[i] = lines[a + i];
    (*line)[e - a] = 0;
    atline = e;
    return (ssize_t)(e - a);
}
// Decimal, octal with a leading zero for base 0; a byte 1 stands for the next symbolic number.
long xo_strtol(const char *s, char **end, int base)
{
    const char *p = s;
    while (*p == ' ' || *p == '\t') p++;
    if (*p == 1) {
        if (end) *end = (char *)p + 1;
        return num[atnum++];
    }
    if (base == 0) base = *p == '0' ? 8 : 10;
    if (*p < '0' || *p > '9') {
        if (end) *end = (char *)s;
        return 0;
    }
    long v = 0;
    while (*p >= '0' && *p < '0' + base) v = v * base + (*p++ - '0');
    if (end) *end = (char *)p;
    return v;
}
int xo_atoi(const char *s) { return (int)xo_strtol(s, nullptr, 10); }
int xo_printf(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    for (; *f; f++) {
        if (*f != '%') { putt(*f); continue; }
        f++;
        while ((*f >= '0' && *f <= '9') || *f == ' ' || *f == '-') f++;
        if (*f == 'd' || *f == 'i' || *f == 'u') { putt(1); xo_number(va_arg(ap, int)); }
        else if (*f == 's') { for (const char *s = va_arg(ap, const char *); *s; s++) putt(*s); }
        else if (*f == 'c') putt(va_arg(ap, int));
        else sym_limit("printf conversion");
    }
    va_end(ap);
    return 1;
}
int xo_fprintf(FILE *, const char *, ...) { return 1; }
int xo_puts(const char *s) { while (*s) putt(*s++); putt('\n'); return 1; }
int xo_fputs(const char *s, FILE *) { while (*s) putt(*s++); return 1; }
int xo_putchar(int c) { putt(c); return c; }
void xo_perror(const char *) {}
void xo_number(long v) { if (ntnum >= 2000) sym_limit("more numbers than the buffer holds"); tnum[ntnum++] = (int)v; }
}
static int line;
static void opc(int k) { wn(line++); w(" "); wn(k); w("\n"); }
static void sopc(int k) { wn(line++); w(" \1\n"); num[nnum++] = k; }
static void word(int kind, int v) { wn(line++); w(" "); wn(kind); w(" \1\n"); num[nnum++] = v; }
#define B "_b_e_g_i_n "
#define E " _e_n_d"
#define I "_i_n_t_e_g_e_r "
static bool assemble(const char *number)
{
    static char a0[] = "objfile", a2[] = "source", a1[8];
    strcpy(a1, number);
    char *argv[] = {a0, a1, a2, nullptr};
    int status = -1;
    // objfile reads octal word offsets if they begin with zero; below eight both are the same
    try { status = objfile_main(3, argv); } catch (const XoExit &e) { status = e.status; }
    // the numbers written as text become numbers too
    static char t[8000];
    static int v[2000];
    int k = 0, m = 0;
    size_t n = 0;
    for (size_t i = 0; i < ntape;) {
        if (tape[i] == 1) { v[m++] = tnum[k++]; t[n++] = 1; i++; }
        else if (tape[i] >= '0' && tape[i] <= '9') {
            int x = 0;
            while (i < ntape && tape[i] >= '0' && tape[i] <= '9') x = x * 10 + (tape[i++] - '0');
            v[m++] = x;
            t[n++] = 1;
        } else
            t[n++] = tape[i++];
    }
    memcpy(tape, t, n);
    memcpy(tnum, v, (size_t)m * sizeof *v);
    ntape = n;
    ntnum = m;
    return status == 0;
}
static const char source[] = B I "a; a := RESYM" E;
static ull choose(const char *n, ull count)
{
    int bits = 1;
    while ((1ull << bits) < count) bits++;
    ull v = sym_u64(n, bits);
    if ((1ull << bits) != count) sym_assume(v < count);
    return sym_concretize(v);
}
// Orders before the symbolic word that move it to another place within the bits.
static int before(int phase)
{
    static const int k[][3] = {{0, 0, 0}, {33, 0, 0}, {16, 0, 0}, {9, 0, 0}, {13, 0, 0}, {8, 0, 0}, {33, 16, 0}, {13, 13, 0}, {8, 16, 0}, {8, 8, 33}, {8, 8, 8}, {9, 9, 16}, {8, 9, 9}};
    int n = 0;
    for (int i = 0; i < 3; i++)
        if (k[phase][i]) { opc(k[phase][i]); n++; }
    return n;
}
static Obj o;
extern "C" int harness(int arg)
{
    int kind = arg / 1000, phase = arg % 1000 / 10, var = arg % 10;
    if (kind < 3) {
        int n = before(phase), at = n;
        ull x = 0, y = 0;
        if (kind == 0) { // any word, kept as it is
            x = sym_u64("x", 27);
            if (var == 1) sym_assume((x & 077777) == 012345); // any upper part
            if (var == 2) sym_assume((x >> 15) == 0400);
            word(0, (int)x);
        } else if (kind == 1) { // an order of the complex
            x = choose("opc", 113);
            if (x < 8) return 0;
            sopc((int)x);
        } else { // relative to the procedure
            x = sym_u64("x", 14) | (ull)(var ? 02204 : 0432) << 16;
            word(1, (int)x);
        }
        n++;
        while (n < 7) { // and a known word after it
            if (n == at + 1) { y = 0422000017; word(0, (int)y); } else opc(85);
            n++;
        }
        CHECK(assemble("7"), "objfile makes the tape");
        Xc c = xc_compile_tape(source, sizeof source - 1, tape, ntape, tnum);
        CHECK(c.status == 0, "the tape is accepted");
        if (c.status) return 0;
        xc_object(c, o);
        CHECK(o.ok, "a well-formed object program");
        if (!o.ok) return 0;
        // the first words are those of the procedure
        unsigned base = o.lo;
        ull got = ~0ull, next = ~0ull, end = ~0ull, first = ~0ull;
        for (unsigned i = 0; i < o.nwords; i++) {
            if (o.word[i].addr == base) first = o.word[i].w;
            if (o.word[i].addr == base + (unsigned)at) got = o.word[i].w;
            if (o.word[i].addr == base + (unsigned)at + 1) next = o.word[i].w;
            if (o.word[i].addr == base + 6) end = o.word[i].w;
        }
        sym_observe("word", got);
        sym_observe("next", next);
        if (kind == 2) x += base;
        CHECK(got == x, "the word loaded is the word assembled");
        CHECK(at == 6 || next == y, "the next word");
        CHECK(at >= 5 || end == 85, "the last word");
        CHECK(at == 0 || (first >= 8 && first < 113), "the first word");
        sym_reach("loaded");
    } else { // one bit of the tape is wrong
        word(0, 0422000001 + 8 * var); opc(8); word(0, 0122000341); opc(33); word(0, 071 + 512 * var); opc(85); opc(16);
        CHECK(assemble("7"), "objfile makes the tape");
        int pos = 1 + (int)choose("position", 64);
        if (pos >= ntnum) return 0;
        ull bit = choose("bit", 7);
        tnum[pos] ^= 1 << bit;
        Xc c = xc_compile_tape(source, sizeof source - 1, tape, ntape, tnum);
        sym_observe("status", (ull)c.status);
        sym_observe("position", (ull)(ntnum - pos));
        CHECK(c.status == 1, "a wrong heptade is reported");
        sym_reach("reported");
    }
    return 0;
}
