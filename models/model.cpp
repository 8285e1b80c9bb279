// Models of the parts of the C and C++ run-time library that are not header
// only.  Compiled to LLVM IR and linked with the code under test.
#include <ios>
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <list>
#include <unordered_map>
#include <new>
#include <typeinfo>
#include <cstdio>
#include <cstdarg>
#include <cerrno>
#include <cmath>
#include <functional>
#include <optional>
#include <any>
#include <variant>

extern "C" {
static int model_errno;
int *__errno_location(void) { return &model_errno; }

static unsigned long long strtoX(const char *s, char **end, int base, bool sgn, bool lng)
{
    const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    if ((base == 0 || base == 2) && false) p += 2;
    if (base == 0) base = *p == '0' ? 8 : 10;
    (void)lng;
    unsigned long long v = 0;
    bool any = false, over = false;
    for (;; p++) {
        int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
        if (d >= base) break;
        any = true;
        // Powers of two without a wide multiplication.
        if (base == 2) { if (v >> 63) over = true; v = v << 1 | (unsigned)d; }
        else { unsigned __int128 w = (unsigned __int128)v * (unsigned)base + (unsigned)d; if (w >> 64) over = true; v = (unsigned long long)w; }
    }
    if (end) *end = (char *)(any ? p : s);
    if (sgn) {
        if (over || v > (unsigned long long)LLONG_MAX + (neg ? 1 : 0)) { model_errno = ERANGE; return neg ? (unsigned long long)LLONG_MIN : (unsigned long long)LLONG_MAX; }
        return neg ? -v : v;
    }
    if (over) { model_errno = ERANGE; return ULLONG_MAX; }
    return neg ? -v : v;
}
unsigned long strtoul(const char *s, char **e, int b) { return strtoX(s, e, b, false, true); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoX(s, e, b, false, true); }
long strtol(const char *s, char **e, int b) { return (long)strtoX(s, e, b, true, true); }
long long strtoll(const char *s, char **e, int b) { return (long long)strtoX(s, e, b, true, true); }

long double strtold(const char *s, char **e)
{
    const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    const char *end = p;
    long double v = model::parse_real(p, (int)strlen(p), &end);
    if (e) *e = (char *)(end == p ? s : end);
    return v;
}
double strtod(const char *s, char **e) { return (double)strtold(s, e); }

// sscanf with %d %u %o %x %s %c %n %%, widths, suppression and length modifiers.
static int model_vsscanf(const char *s, const char *f, va_list ap)
{
    const char *start = s;
    int done = 0;
    for (; *f; f++) {
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') {
            if (*s == 0) return done ? done : -1;
            if (*s != *f) return done;
            s++;
            continue;
        }
        f++;
        bool skip = false;
        int width = 0, lng = 0;
        if (*f == '*') { skip = true; f++; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { lng += *f == 'h' ? -1 : *f == 'l' ? 1 : 2; f++; }
        if (*f == '%') { while (isspace((unsigned char)*s)) s++; if (*s != '%') return done; s++; continue; }
        if (*f == 'n') { *va_arg(ap, int *) = (int)(s - start); continue; }
        if (*f != 'c') while (isspace((unsigned char)*s)) s++;
        if (*s == 0) return done ? done : -1;
        if (*f == 's') {
            char *d = skip ? nullptr : va_arg(ap, char *);
            int n = 0;
            while (*s && !isspace((unsigned char)*s) && (width == 0 || n < width)) { if (d) d[n] = *s; n++; s++; }
            if (d) { d[n] = 0; done++; }
        } else if (*f == 'c') {
            char *d = skip ? nullptr : va_arg(ap, char *);
            int w = width ? width : 1;
            for (int i = 0; i < w; i++) { if (!*s) return done; if (d) d[i] = *s; s++; }
            if (d) done++;
        } else if (*f == 'd' || *f == 'u' || *f == 'i' || *f == 'o' || *f == 'x') {
            int base = *f == 'o' ? 8 : *f == 'x' ? 16 : 10;
            if (*f == 'i') sym_limit("sscanf %i is not modelled");
            bool neg = false;
            int n = 0, lim = width ? width : INT_MAX;
            if ((*s == '+' || *s == '-') && n < lim) { neg = *s == '-'; s++; n++; }
            unsigned long long v = 0;
            bool any = false, over = false;
            for (; n < lim; n++, s++) {
                int d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : 99;
                if (d >= base) break;
                any = true;
                if (v > (~0ull - 15) / 16) { over = true; v = ~0ull; } else v = v * (unsigned)base + (unsigned)d;
            }
            if (!any) return done;
            // glibc converts with strtol / strtoul and then truncates.
            if (*f == 'd') { if (over || v > (unsigned long long)LLONG_MAX) v = neg ? (unsigned long long)LLONG_MIN : (unsigned long long)LLONG_MAX; else if (neg) v = -v; }
            else if (over) v = ~0ull; else if (neg) v = -v;
            if (skip) continue;
            if (lng >= 1) *va_arg(ap, unsigned long *) = v;
            else if (lng == -1) *va_arg(ap, unsigned short *) = (unsigned short)v;
            else if (lng == -2) *va_arg(ap, unsigned char *) = (unsigned char)v;
            else *va_arg(ap, unsigned *) = (unsigned)v;
            done++;
        } else sym_limit("sscanf conversion is not modelled");
    }
    return done;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = model_vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = model_vsscanf(s, f, ap); va_end(ap); return r; }

// printf family with the usual conversions.
int vsnprintf(char *buf, size_t size, const char *f, va_list ap)
{
    size_t n = 0;
    auto put = [&](char c) { if (n + 1 < size) buf[n] = c; n++; };
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        const char *spec = f++;
        bool left = false, zero = false, plus = false, space = false, alt = false;
        for (;; f++) {
            if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true;
            else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break;
        }
        int width = 0, prec = -1, lng = 0;
        bool ld = false;
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L') { if (*f == 'L') ld = true; else if (*f != 'h') lng++; f++; }
        char t[512];
        const char *p = t;
        int len = 0;
        if (*f == '%') { put('%'); continue; }
        if (*f == 'c') { t[0] = (char)va_arg(ap, int); len = 1; }
        else if (*f == 's') { p = va_arg(ap, const char *); if (!p) p = "(null)"; while ((prec < 0 || len < prec) && p[len]) len++; }
        else if (*f == 'd' || *f == 'i') {
            long long v = lng ? va_arg(ap, long) : (long long)va_arg(ap, int);
            bool neg = v < 0;
            len = model::fmt_uint(t, neg ? -(unsigned long long)v : (unsigned long long)v, 10, false, neg);
            if (!neg && (plus || space)) { for (int i = len; i > 0; i--) t[i] = t[i - 1]; t[0] = plus ? '+' : ' '; len++; }
            if (prec >= 0) {
                int sg = (t[0] == '-' || t[0] == '+' || t[0] == ' ') ? 1 : 0;
                int dg = len - sg;
                if (dg < prec) { for (int i = len - 1; i >= sg; i--) t[i + prec - dg] = t[i]; for (int i = 0; i < prec - dg; i++) t[sg + i] = '0'; len += prec - dg; }
                zero = false;
            }
        } else if (*f == 'u' || *f == 'o' || *f == 'x' || *f == 'X') {
            unsigned long long v = lng ? va_arg(ap, unsigned long) : (unsigned long long)va_arg(ap, unsigned);
            int k = 0;
            if (alt && *f == 'x') { t[k++] = '0'; t[k++] = 'x'; }
            len = k + model::fmt_uint(t + k, v, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', false);
            if (prec >= 0 && len < prec) { int d = prec - len; for (int i = len - 1; i >= 0; i--) t[i + d] = t[i]; for (int i = 0; i < d; i++) t[i] = '0'; len = prec; }
        } else if (*f == 'p') { t[0] = '0'; t[1] = 'x'; len = 2 + model::fmt_uint(t + 2, (unsigned long long)va_arg(ap, void *), 16, false, false); }
        else if (*f == 'f' || *f == 'e' || *f == 'g' || *f == 'a' || *f == 'E' || *f == 'G' || *f == 'F' || *f == 'A') {
            long double v = ld ? va_arg(ap, long double) : (long double)va_arg(ap, double);
            char fm[24];
            int k = 0;
            fm[k++] = '%';
            if (plus) fm[k++] = '+';
            if (space) fm[k++] = ' ';
            if (alt) fm[k++] = '#';
            if (prec >= 0) { fm[k++] = '.'; if (prec >= 10) fm[k++] = (char)('0' + prec / 10 % 10); fm[k++] = (char)('0' + prec % 10); }
            fm[k++] = 'L'; fm[k++] = *f; fm[k] = 0;
            len = model::fmt_real(t, sizeof t, v, fm);
        } else sym_limit("printf conversion is not modelled");
        (void)spec;
        int padn = width > len ? width - len : 0;
        if (!left && !zero) for (int i = 0; i < padn; i++) put(' ');
        int i = 0;
        if (!left && zero) { if (len && (p[0] == '-' || p[0] == '+')) { put(p[0]); i = 1; } for (int j = 0; j < padn; j++) put('0'); }
        for (; i < len; i++) put(p[i]);
        if (left) for (int j = 0; j < padn; j++) put(' ');
    }
    if (size) buf[n < size ? n : size - 1] = 0;
    return (int)n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
char *getenv(const char *) { return nullptr; }
int puts(const char *s) { std::cout << s; std::cout.put('\n'); return 0; }
int fputc(int c, FILE *) { return c; }
int fputs(const char *, FILE *) { return 0; }
int fflush(FILE *) { return 0; }
int usleep(unsigned) { return 0; }
}

namespace model {
int exact_format = 0;
}
extern "C" void sym_exact(int on) { model::exact_format = on; }
namespace model {

int fmt_uint(char *buf, unsigned long long v, unsigned base, bool upper, bool neg)
{
    int n = 0;
    if (neg) buf[n++] = '-';
    if (!exact_format && sym_has_symbols(v)) { buf[n++] = '#'; return n; }
    // The number of digits is decided by comparisons, the digits stay symbolic.
    int len = 1;
    unsigned long long lim = base;
    while (v >= lim) { len++; if (lim > ~0ull / base) break; lim *= base; }
    if (sym_has_symbols(v) && base == 10 && len > 1 && len < 15) {
        // The digits are the only numbers 0..9 whose weighted sum is v: easier for the solver than divisions.
        static unsigned serial;
        unsigned long long sum = 0;
        for (int i = 0; i < len; i++) {
            char name[16] = {'$', 'd', 'i', 'g', 'i', 't'};
            unsigned q = serial++;
            for (int k = 6; k < 12; k++) { name[k] = (char)('a' + q % 26); q /= 26; }
            unsigned long long d = sym_u64(name, 4);
            sym_assume(d <= 9);
            buf[n + i] = (char)('0' + d);
            sum = sum * 10 + d;
        }
        sym_assume(sum == v);
        return n + len;
    }
    if (sym_has_symbols(v) && v < 0x100000000ull) {
        unsigned u = (unsigned)v;
        for (int i = len - 1; i >= 0; i--) { unsigned d = u % base; buf[n + i] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); u /= base; }
    } else
        for (int i = len - 1; i >= 0; i--) { unsigned d = (unsigned)(v % base); buf[n + i] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= base; }
    return n + len;
}
int fmt_real(char *buf, int size, long double v, const char *fmt)
{
    char raw[16] = {};
    memcpy(raw, &v, 10);
    return __model_fmt_ld(buf, size, fmt, raw, 0);
}
// Decimal text to the nearest long double; exact for mantissas below 2^64 and
// decimal exponents up to 27 in magnitude, out of the model's reach otherwise.
long double parse_real(const char *s, int n, const char **end)
{
    int i = 0;
    bool neg = false;
    if (i < n && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    unsigned long long m = 0;
    int e = 0;
    bool any = false, dot = false;
    for (; i < n; i++) {
        if (s[i] == '.' && !dot) { dot = true; continue; }
        if (!(s[i] >= '0' && s[i] <= '9')) break;
        any = true;
        if (m > (~0ull - 9) / 10) sym_limit("number text with too many digits for the model");
        m = m * 10 + (unsigned)(s[i] - '0');
        if (dot) e--;
    }
    if (!any) { *end = s; return 0; }
    *end = s + i;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) {
        int j = i + 1;
        bool en = false, ea = false;
        int x = 0;
        if (j < n && (s[j] == '+' || s[j] == '-')) en = s[j++] == '-';
        for (; j < n && s[j] >= '0' && s[j] <= '9'; j++) { ea = true; if (x < 100000) x = x * 10 + (s[j] - '0'); }
        if (ea) { *end = s + j; e += en ? -x : x; }
    }
    long double v = (long double)m;
    if (m != 0) {
        if (e > 27 || e < -27) sym_limit("decimal exponent out of the model's reach");
        static const long double p10[28] = {1e0L, 1e1L, 1e2L, 1e3L, 1e4L, 1e5L, 1e6L, 1e7L, 1e8L, 1e9L, 1e10L, 1e11L, 1e12L, 1e13L, 1e14L, 1e15L, 1e16L, 1e17L, 1e18L, 1e19L, 1e20L, 1e21L, 1e22L, 1e23L, 1e24L, 1e25L, 1e26L, 1e27L};
        if (e > 0) v = v * p10[e];
        else if (e < 0) v = v / p10[-e];
    }
    return neg ? -v : v;
}
static File *files;
File *find_file(const char *name, bool create)
{
    for (File *f = files; f; f = f->next) if (f->name == name) return f;
    if (!create) return nullptr;
    File *f = new File;
    f->name = name;
    f->next = files;
    files = f;
    return f;
}

// The standard output starts as a discarding buffer; harnesses redirect it.
struct NullBuf : std::streambuf {
    int overflow(int c) override { return c == -1 ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
static NullBuf outbuf, errbuf, logbuf;
static std::stringbuf inbuf;
} // namespace model

namespace std {
istream cin(&model::inbuf);
ostream cout(&model::outbuf), cerr(&model::errbuf), clog(&model::logbuf);

// ------------------------------------------------------------ exceptions
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

__cow_string::__cow_string() { _M_p = strdup(""); }
__cow_string::__cow_string(const std::string &s) { _M_p = strdup(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = strdup(o._M_p); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = strdup(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; o._M_p = strdup(""); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error &&o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define EXC(C, B) \
    C::C(const string &s) : B(s) {} \
    C::C(const char *s) : B(s) {} \
    C::~C() noexcept {}
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system error"); }

class model_category : public error_category {
    const char *name() const noexcept override { return "generic"; }
    string message(int) const override { return "error"; }
};
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
inline namespace _V2 {
const error_category &generic_category() noexcept { static model_category c; return c; }
const error_category &system_category() noexcept { return generic_category(); }
}

// ------------------------------------------------------------ containers
static const _Rb_tree_node_base *rb_inc(const _Rb_tree_node_base *x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        const _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static const _Rb_tree_node_base *rb_dec(const _Rb_tree_node_base *x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        const _Rb_tree_node_base *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    const _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return const_cast<_Rb_tree_node_base *>(rb_inc(x)); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rb_inc(x); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return const_cast<_Rb_tree_node_base *>(rb_dec(x)); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rb_dec(x); }
// A plain search tree: balance does not matter for behaviour.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    auto replace = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
        if (h._M_parent == u) h._M_parent = v;
        else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
        else u->_M_parent->_M_right = v;
        if (v) v->_M_parent = u->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) { h._M_left = h._M_right = &h; }
    else {
        _Rb_tree_node_base *m = h._M_parent;
        while (m->_M_left) m = m->_M_left;
        h._M_left = m;
        m = h._M_parent;
        while (m->_M_right) m = m->_M_right;
        h._M_right = m;
    }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
// Hash tables: a few large primes keep all chains short.
static const size_t primes[] = {13, 109, 1031, 10273, 107897, 1048583};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor); return p; }
    _M_next_resize = ~(size_t)0;
    return 1048583;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize) {
        size_t want = elt + ins + 1;
        if (want < 11 && _M_next_resize == 0) want = 11;
        if (want >= bkt) return {true, _M_next_bkt(want > 2 * bkt ? want : 2 * bkt)};
        _M_next_resize = bkt;
    }
    return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
    const unsigned char *s = (const unsigned char *)p;
    size_t h = seed;
    for (size_t i = 0; i < n; i++) h = h * 31 + s[i];
    return h;
}
template class allocator<char>;
template class basic_string<char>;
template basic_string<char> operator+(const char *, const basic_string<char> &);
} // namespace std

#include <chrono>
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(); }
system_clock::time_point system_clock::now() noexcept { return time_point(); }
}}}
extern "C" {
// Guards of function statics (single threaded).
int __cxa_guard_acquire(uint64_t *g) { return !*(char *)g; }
void __cxa_guard_release(uint64_t *g) { *(char *)g = 1; }
void __cxa_guard_abort(uint64_t *) {}
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int isatty(int) { return 0; }
}
