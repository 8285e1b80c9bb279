// Programs written with plain keywords, `*` for multiplication, `<=`, `>=`, `/=`: turned into the text the compiler reads.
#pragma once
#include "xp.h"
static char txt[6000];
static size_t len;
static void put_c(char c) { txt[len++] = c; txt[len] = 0; }
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static const char *const keywords[] = {"begin", "end", "integer", "real", "array", "procedure", "value", "goto", "switch", "label", "for", "do", "step", "until", "while", "if", "then", "else", "boolean", "string", "own", "true", "false", "and", "or", "not", "imp", "eqv", 0};
static const char *const symbols[] = {"and", "\342\210\247", "or", "\342\210\250", "not", "\302\254", "imp", "\342\212\203", "eqv", "\342\211\241", 0};
static void w(const char *s)
{
    while (*s) {
        if (letter(*s)) {
            size_t n = 0;
            while (letter(s[n])) n++;
            int k = -1;
            for (int i = 0; keywords[i] && k < 0; i++)
                if (strlen(keywords[i]) == n && !strncmp(keywords[i], s, n)) k = i;
            const char *sym = 0;
            if (k >= 0)
                for (int i = 0; symbols[i]; i += 2)
                    if (!strcmp(symbols[i], keywords[k])) sym = symbols[i + 1];
            if (sym) while (*sym) put_c(*sym++);
            else
                for (size_t i = 0; i < n; i++) {
                    if (k >= 0) put_c('_');
                    put_c(s[i]);
                }
            s += n;
        } else if (*s == '*') {
            put_c('\303'), put_c('\227'), s++;
        } else if (*s == '%') {
            put_c('\303'), put_c('\267'), s++;
        } else if (*s == '<' && s[1] == '=') {
            put_c('\342'), put_c('\211'), put_c('\244'), s += 2;
        } else if (*s == '>' && s[1] == '=') {
            put_c('\342'), put_c('\211'), put_c('\245'), s += 2;
        } else if (*s == '/' && s[1] == '=') {
            put_c('\342'), put_c('\211'), put_c('\240'), s += 2;
        } else
            put_c(*s++);
    }
}
static void wn(ll v)
{
    if (v < 0) put_c('-'), v = -v;
    char d[24];
    int n = 0;
    do d[n++] = (char)('0' + v % 10), v /= 10; while (v);
    while (n) put_c(d[--n]);
}
static ll pick(const char *n, ll lo, ll hi)
{
    ll v = (ll)choose(n, (ull)(hi - lo + 1)) + lo;
    give_int(v);
    return v;
}
// -999 is printed at places where the stack must be as high as at the first one.
#define MARK "print(-999); "
static ll exp_v[64];
static unsigned exp_n;
static void ex(ll v) { exp_v[exp_n++] = v; }
static void mark() { ex(-999); }
static void expect(const char *label, unsigned steps = 12000)
{
    CHECK(go(txt, steps) == R_DONE, "the program ends");
    wants(exp_v, exp_n, label);
    unsigned at = 0;
    bool seen = false;
    for (unsigned i = 0; i < exp_n && i < xc_printed.n; i++)
        if (!sym_has_symbols((ull)exp_v[i]) && exp_v[i] == -999) {
            if (!seen) at = xc_printed.at[i];
            seen = true;
            CHECK(xc_printed.at[i] == at, "the stack is as high as before");
        }
    sym_reach("ran");
}
