#include "xc.h"
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>

// ---- stand-ins for the C library
namespace {
struct Exit { int status; };
struct Tape { const char *p; size_t n, at; bool eof, is_open; };
Tape src, lib, outtape, errtape;
const unsigned OUTMAX = 40000;
XcItem outbuf[OUTMAX];
unsigned nout;
const char *args[3];
int nargs, argat;
const int *tapenums;
void put(int c)
{
    if (nout >= OUTMAX) sym_limit("compiler output longer than the buffer");
    outbuf[nout].num = 0;
    outbuf[nout++].v = c & 0xff;
}
void putnum(long long v)
{
    if (nout >= OUTMAX) sym_limit("compiler output longer than the buffer");
    outbuf[nout].num = 1;
    outbuf[nout++].v = v;
}
Tape *tape(FILE *f) { return f == (FILE *)&src ? &src : f == (FILE *)&lib ? &lib : nullptr; }
int vout(const char *f, va_list ap)
{
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++;
        bool wide = false;
        while (*f == '-' || *f == ' ' || *f == '+' || *f == '#' || *f == '.' || *f == '*' || (*f >= '0' && *f <= '9') || *f == 'l' || *f == 'h' || *f == 'z') {
            if (*f == '*') (void)va_arg(ap, int);
            if (*f == 'l' || *f == 'z') wide = true;
            f++;
        }
        switch (*f) {
        case 'd': case 'i': put(' '); putnum(wide ? va_arg(ap, long) : va_arg(ap, int)); break;
        case 'u': case 'o': case 'x': case 'X': put(' '); putnum(wide ? (long long)va_arg(ap, unsigned long) : (long long)va_arg(ap, unsigned)); break;
        case 'c': put(va_arg(ap, int)); break;
        case 's': { const char *s = va_arg(ap, const char *); for (; s && *s; s++) put(*s); break; }
        case '%': put('%'); break;
        default: sym_limit("printf conversion");
        }
    }
    return 1;
}
}
extern "C" {
int x1algc_main(int, char **);
int x1algc_main2(int, char **);
FILE *xc_stdin = (FILE *)&src, *xc_stdout = (FILE *)&outtape, *xc_stderr = (FILE *)&errtape;
int xc_optind;
char *xc_optarg;
int xc_opterr, xc_optopt;
int xc_getopt(int argc, char *const *argv, const char *)
{
    if (xc_optind == 0) xc_optind = 1;
    if (xc_optind < argc && argv[xc_optind][0] == '-') sym_limit("compiler options");
    return -1;
}
void xc_exit(int) __attribute__((noreturn));
void xc_abort() __attribute__((noreturn));
void xc_exit(int status) { throw Exit{status}; }
void xc_abort() { throw Exit{134}; }
FILE *xc_fopen(const char *name, const char *)
{
    Tape *t = name[0] == 's' ? &src : name[0] == 'l' ? &lib : nullptr;
    if (!t) return nullptr;
    t->at = 0; t->eof = false; t->is_open = true;
    return (FILE *)t;
}
int xc_fclose(FILE *) { return 0; }
int xc_fflush(FILE *) { return 0; }
int xc_feof(FILE *f) { return tape(f)->eof; }
int xc_ferror(FILE *) { return 0; }
int xc_isatty(int) { return 0; }
int xc_fileno(FILE *) { return 5; }
long xc_ftell(FILE *f) { return (long)tape(f)->at; }
int xc_getc(FILE *f)
{
    Tape *t = tape(f);
    if (t->at >= t->n) { t->eof = true; return EOF; }
    return (unsigned char)t->p[t->at++];
}
int xc_fgetc(FILE *f) { return xc_getc(f); }
int xc_ungetc(int c, FILE *f)
{
    Tape *t = tape(f);
    if (c == EOF || t->at == 0) return EOF;
    t->at--;
    t->eof = false;
    return c;
}
ssize_t xc_getline(char **line, size_t *cap, FILE *f)
{
    Tape *t = tape(f);
    size_t a = t->at, e = a;
    if (a >= t->n) { t->eof = true; return -1; }
    while (e < t->n && t->p[e] != '\n') e++;
    if (e < t->n) e++;
    else t->eof = true;
    size_t n = e - a;
    if (*cap < n + 1 || !*line) {
        char *b = (char *)malloc(n + 1 < 120 ? 120 : n + 1);
        free(*line);
        *line = b;
        *cap = n + 1 < 120 ? 120 : n + 1;
    }
    for (size_t i = 0; i < n; i++) (*line)[i] = t->p[a + i];
    (*line)[n] = 0;
    t->at = e;
    return (ssize_t)n;
}
static int scan1(FILE *f, const char *fmt, va_list ap)
{
    Tape *t = tape(f);
    if (fmt[0] != '%' || fmt[1] != 'd' || fmt[2]) sym_limit("fscanf format");
    int *r = va_arg(ap, int *);
    while (t->at < t->n && (t->p[t->at] == ' ' || (t->p[t->at] >= 9 && t->p[t->at] <= 13))) t->at++;
    if (t->at >= t->n) { t->eof = true; return EOF; }
    if (tapenums && t->p[t->at] == 1) { t->at++; *r = *tapenums++; return 1; }
    bool neg = false, any = false;
    if (t->p[t->at] == '-' || t->p[t->at] == '+') neg = t->p[t->at++] == '-';
    int v = 0;
    while (t->at < t->n && t->p[t->at] >= '0' && t->p[t->at] <= '9') { v = v * 10 + (t->p[t->at++] & 15); any = true; }
    if (t->at >= t->n) t->eof = true;
    if (!any) return 0;
    *r = neg ? -v : v;
    return 1;
}
int xc_fscanf(FILE *f, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = scan1(f, fmt, ap);
    va_end(ap);
    return r;
}
int xc_printf(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    vout(f, ap);
    va_end(ap);
    return 1;
}
int xc_fprintf(FILE *s, const char *f, ...)
{
    if (s != xc_stdout) return 1;
    va_list ap;
    va_start(ap, f);
    vout(f, ap);
    va_end(ap);
    return 1;
}
int xc_putchar(int c) { put(c); return c; }
int xc_putc(int c, FILE *s) { if (s == xc_stdout) put(c); return c; }
int xc_fputc(int c, FILE *s) { return xc_putc(c, s); }
int xc_puts(const char *s) { for (; *s; s++) put(*s); put('\n'); return 1; }
int xc_fputs(const char *s, FILE *f) { if (f != xc_stdout) return 1; for (; *s; s++) put(*s); return 1; }
size_t xc_fwrite(const void *p, size_t sz, size_t n, FILE *) { for (size_t i = 0; i < sz * n; i++) put(((const char *)p)[i]); return n; }
void xc_perror(const char *) {}
int xc_vprintf(const char *f, va_list ap) { vout(f, ap); return 1; }
int xc_vfprintf(FILE *s, const char *f, va_list ap) { if (s == xc_stdout) vout(f, ap); return 1; }
char *xc_fgets(char *b, int n, FILE *f)
{
    int i = 0;
    while (i + 1 < n) {
        int c = xc_getc(f);
        if (c == EOF) break;
        b[i++] = (char)c;
        if (c == '\n') break;
    }
    b[i] = 0;
    return i ? b : nullptr;
}
}

#include "xc_lib.h"
static Xc compile(const char *text, size_t n, bool withlib, int copy)
{
    src.p = text; src.n = n; src.is_open = false;
    lib.is_open = false;
    nout = 0;
    xc_optind = 1;
    static char a0[] = "x1algc", a1[] = "s", a2[] = "l";
    char *argv[] = {a0, a1, withlib ? a2 : nullptr, nullptr};
    Xc x;
    x.status = -1;
    try { x.status = copy ? x1algc_main2(withlib ? 3 : 2, argv) : x1algc_main(withlib ? 3 : 2, argv); }
    catch (const Exit &e) { x.status = e.status; }
    x.out = outbuf;
    x.nout = nout;
    return x;
}
Xc xc_compile(const char *text, size_t n, bool withlib, int copy)
{
    lib.p = xc_lib; lib.n = sizeof xc_lib - 1;
    tapenums = nullptr;
    return compile(text, n, withlib, copy);
}
Xc xc_compile_tape(const char *text, size_t n, const char *t, size_t tn, const int *v)
{
    lib.p = t; lib.n = tn;
    tapenums = v;
    return compile(text, n, true, 0);
}
void xc_object(const Xc &x, Obj &o)
{
    o.ok = x.status == 0;
    o.nwords = o.nentries = 0;
    o.entry = 0;
    o.lo = 32767; o.hi = 0;
    unsigned i = 0;
    while (i < x.nout) {
        long long v[4] = {0, 0, 0, 0};
        unsigned nv = 0;
        bool text = false;
        for (; i < x.nout && (x.out[i].num || x.out[i].v != '\n'); i++) {
            if (x.out[i].num) { if (nv < 4) v[nv] = x.out[i].v; nv++; }
            else if (x.out[i].v != ' ') text = true;
        }
        i++;
        if (text || nv == 0) continue;
        if (nv == 3) {
            if (!o.nentries++) o.entry = (unsigned)((v[0] * 32 + v[1]) * 32 + v[2]);
        } else if (nv == 2) {
            if (o.nwords >= 4000) sym_limit("object program longer than the buffer");
            if (v[0] < 0 || v[0] > 32767 || v[1] < 0 || v[1] > (long long)M27) o.ok = false;
            o.word[o.nwords].addr = (unsigned)v[0];
            o.word[o.nwords++].w = (ull)v[1];
            if (v[0] < o.lo) o.lo = (unsigned)v[0];
            if (v[0] > o.hi) o.hi = (unsigned)v[0];
        } else
            o.ok = false;
    }
    if (!o.nentries || !o.nwords) o.ok = false;
}
void xc_load(Machine &m, const Obj &o)
{
    for (unsigned i = 0; i < o.nwords; i++) m.mem_store(o.word[i].addr, (Word)o.word[i].w);
    m.cpu.set_ot(o.entry);
}

void (*xc_on_read)(Machine &m);
unsigned xc_steps;
Printed xc_printed;
Ran xc_run(Machine &m, unsigned maxsteps)
{
    for (xc_steps = 0; xc_steps < maxsteps; xc_steps++) {
        unsigned ot = m.cpu.get_ot() & 077777;
        Word w = m.mem_fetch(ot);
        if (w == OPC_read && xc_on_read) {
            xc_on_read(m);
            m.cpu.set_ot(ot + 1);
            continue;
        }
        if (w == OPC_print) { // one number, printed by the harness
            Stack_Cell c = m.cpu.stack.pop();
            if (xc_printed.n >= 64) return R_LIMIT;
            xc_printed.c[xc_printed.n] = c;
            xc_printed.at[xc_printed.n++] = (unsigned)m.cpu.stack.count();
            m.cpu.set_ot(ot + 1);
            continue;
        }
        Outcome o = run_step(m);
        if (o == ERROR) return R_ERROR;
        if (o == DONE) return R_DONE;
    }
    return R_LIMIT;
}
static Obj startobj;
bool xc_start(Machine &m, const char *text, bool withlib)
{
    Xc x = xc_compile(text, strlen(text), withlib);
    xc_object(x, startobj);
    if (!startobj.ok) return false;
    xc_load(m, startobj);
    xc_printed.n = 0;
    return true;
}
