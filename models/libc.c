// C library string functions (compiled with -fno-builtin).
typedef unsigned long size_t;
int sym_has_symbols(unsigned long long);
void *memchr(const void *a, int c, size_t n);
void *malloc(size_t);
void *memcpy(void *, const void *, size_t);
long __isoc23_strtol(const char *, char **, int);
unsigned long __isoc23_strtoul(const char *, char **, int);
long strtol(const char *s, char **e, int b) { return __isoc23_strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return __isoc23_strtoul(s, e, b); }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n)
{
    const unsigned char *p = (const unsigned char *)a;
    if (n <= 32 && sym_has_symbols((unsigned)c)) { // one question, not one for every character
        size_t at = n;
        for (size_t i = n; i-- > 0;) at = p[i] == (unsigned char)c ? i : at;
        if (at == n) return 0;
        return (void *)(p + at);
    }
    for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
    return 0;
}
int strcmp(const char *a, const char *b)
{
    for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; }
}
int strncmp(const char *a, const char *b, size_t n)
{
    for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; }
    return 0;
}
char *strchr(const char *s, int c)
{
    if (sym_has_symbols((unsigned)c)) return (char *)memchr(s, c, strlen(s) + 1);
    for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strstr(const char *a, const char *b)
{
    size_t n = strlen(b);
    for (;; a++) { if (!strncmp(a, b, n)) return (char *)a; if (!*a) return 0; }
}
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }

double nextafter(double x, double y)
{
    union { double d; unsigned long u; } v;
    v.d = x;
    if (x == y) return y;
    if (x == 0) { v.u = 1; return y > 0 ? v.d : -v.d; }
    if ((x < y) == (x > 0)) v.u++; else v.u--;
    return v.d;
}
