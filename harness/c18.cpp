// C18: FIXT, ABSFIXT, FLOT.  arg: 100*what + variant.
#include "x1.h"
static Machine M;
static std::ostringstream *out;
static std::string text;
typedef __int128 i128;
static unsigned base;

static ull choose(const char *n, ull count)
{
    ull v = sym_u64(n, 10);
    sym_assume(v < count);
    return sym_concretize(v);
}
static Outcome print(unsigned opc, const Stack_Cell &n, const Stack_Cell &m, const Stack_Cell &x)
{
    M.cpu.stack.push(int_cell(0765));
    M.cpu.set_a(0);
    M.cpu.set_b(02000);
    CHECK(exec_opc(M, OPC_ETMP) == OK, "frame");
    base = M.cpu.stack.count();
    M.cpu.stack.push(n);
    M.cpu.stack.push(m);
    M.cpu.stack.push(x);
    out = new std::ostringstream;
    std::streambuf *old = std::cout.rdbuf(out->rdbuf());
    Outcome o = exec_opc(M, opc);
    std::cout.rdbuf(old);
    text = out->str();
    return o;
}
static const ull P10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000, 10000000000000};

// The number k / 2^j as a cell; k has up to `bits` bits.
static Stack_Cell number(ull k, int j, bool neg, bool integer)
{
    if (integer) return int_cell(neg ? ~k & M27 : k);
    // normalise without branching on k
    int lz = 0;
    ull m = k << 16;     // k < 2^24: 40-bit mantissa, exponent 24 - j
    for (int s = 16; s; s >>= 1) {
        bool small = !(m >> (40 - s));
        m = small ? m << s : m;
        lz += small ? s : 0;
    }
    return real_cell(k == 0 ? (neg ? M54 : 0) : ref_make(neg, m, 24 - j - lz));
}
static bool digit(char c, unsigned &d) { d = (unsigned)(c - '0'); return (c >= '0') & (c <= '9'); }

// k / 2^j in fixed-point layout: exactly what the manual says?
static void fixed(const std::string &t, unsigned n, unsigned m, ull k, int j, bool neg, bool with_sign)
{
    size_t want = m ? n + m + 3 : n + 2;
    CHECK(t.size() == want, "the number of positions");
    if (t.size() != want) return;
    CHECK(with_sign ? (t[0] == (neg ? '-' : '+')) | (k == 0 & t[0] == '+') : t[0] == ' ', "the sign");
    CHECK(t[want - 1] == ' ', "a space at the end");
    bool ok = true, started = false;
    ull value = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned d;
        bool isd = digit(t[1 + i], d), space = t[1 + i] == ' ';
        bool units = i + 1 == n && m == 0;
        // spaces stand for leading zeros, except at the units position without a fraction
        bool here = isd & (started | (d != 0) | units);
        ok &= here | (space & !started & !units);
        started |= isd;
        value = value * 10 + (isd ? d : 0);
    }
    if (m) ok &= t[1 + n] == '.';
    for (unsigned i = 0; i < m; i++) {
        unsigned d;
        ok &= digit(t[2 + n + i], d);
        value = value * 10 + d;
    }
    CHECK(ok, "digits, leading spaces and point");
    // | value / 10^m - k / 2^j | <= 1/2 10^-m; the manual does not say which way halves go
    ull a = value * 2 + 1, r = k * P10[m] * 2;
    CHECK(((a << j) >= r) & (((a - 2) << j <= r) | (value == 0)), "rounded to the last place");
    for (size_t i = 0; i < t.size(); i++) sym_observe("t", (unsigned char)t[i]);
}

// k / 2^j in floating-point layout (k, n, m concrete)
static void floating(const std::string &t, unsigned n, unsigned m, ull k, int j, bool neg)
{
    size_t want = n + m + 7; // the sign of the exponent is preceded by a symbol of three bytes
    CHECK(t.size() == want, "the number of positions (floating)");
    if (t.size() != want) return;
    CHECK(((t[0] == (neg ? '-' : '+')) | (k == 0 & t[0] == '+')) & (t[1] == '.') & (t[want - 1] == ' '), "sign, point and space");
    ull value = 0, e = 0;
    bool ok = true, started = false;
    unsigned d;
    for (unsigned i = 0; i < n; i++) { ok &= digit(t[2 + i], d); value = value * 10 + d; }
    ok &= k == 0 ? value == 0 : value >= P10[n - 1]; // .1 <= mantissa < 1
    ok &= t[2 + n] == '\xe2' && t[3 + n] == '\x8f' && t[4 + n] == '\xa8';
    char s = t[5 + n];
    ok &= s == '+' || s == '-';
    for (unsigned i = 0; i < m; i++) {
        bool isd = digit(t[6 + n + i], d);
        ok &= isd ? (started | (d != 0) | (i + 1 == m)) : (t[6 + n + i] == ' ' && !started && i + 1 < m);
        started |= isd;
        e = e * 10 + (isd ? d : 0);
    }
    CHECK(ok, "mantissa and exponent");
    // | value 10^(e-n) - k / 2^j | <= 1/2 10^(e-n)
    int q = (int)(s == '-' ? -(ll)e : (ll)e) - (int)n;
    if (k == 0) { CHECK(e == 0, "exponent of zero"); return; }
    if (q > 20 || q < -36 || j > 40) return;
    i128 a = (i128)value * 2 + 1, b = (i128)value * 2 - 1, r = (i128)k * 2;
    if (j > 0) { a <<= j; b <<= j; } else r <<= -j;
    for (int i = 0; i < q; i++) { a *= 10; b *= 10; }
    for (int i = 0; i > q; i--) r *= 10;
    CHECK(a >= r && b <= r, "rounded to the last digit");
}

#ifndef NATIVE
// floor(log10l(x)) as the mathematical function has it, between 10^low and 10^(high + 1)
static int low, high;
extern "C" long double log10l(long double x)
{
    for (int e = low; e <= high; e++)
        if (x < powl(10.0L, e + 1)) return x == powl(10.0L, e) ? (long double)e : e + 0.5L;
    return high + 1;
}
static void decades(ull from, ull to, int j)
{
    low = -700, high = 700;
    long double a = from ? from : 1, b = to;
    a = ldexpl(a, -j), b = ldexpl(b, -j);
    while (powl(10.0L, low + 1) <= a) low++;
    while (powl(10.0L, high) > b) high--;
}
#else
static void decades(ull, ull, int) {}
#endif

// The text of FLOT(n, m, k / 2^j), from what the manual says of numbers whose exponent is too long.
static void floating_or_long(const std::string &t, int n, int m, ull k, int j, bool neg)
{
    if (n < 1 || n > 13 || m < 1 || m > 3) { floating(t, 13, 3, k, j, neg); return; }
    if (t.size() == 23 && !(n == 13 && m == 3)) {
        floating(t, 13, 3, k, j, neg);
        // only because the exponent does not fit: the mantissa rounded to n digits times a power 10^+-limit
        bool minus = t[18] == '-';
        ull e = 0, head = 0, d = 0;
        for (int i = 19; i < 22; i++) e = e * 10 + (t[i] == ' ' ? 0 : t[i] - '0');
        for (int i = 0; i < 13; i++) { digit(t[2 + i], *(unsigned *)&d); head = head * 10 + (d & 15); }
        ull limit = P10[m] - 1;
        if (!minus) CHECK((e > limit) | (e == limit & head * 2 + P10[13 - n] >= P10[13] * 2), "a longer exponent only where it is needed");
        else CHECK(e > limit, "a longer exponent only where it is needed");
        sym_reach("long");
        return;
    }
    floating(t, n, m, k, j, neg);
}

extern "C" int harness(int arg)
{
    sym_exact(1);
    int what = arg / 100, v = arg % 100;
    struct V { int n, m, j, bits, integer; ull from; };
    if (what < 2) { // numbers that fit in n and m digits, and numbers that do not: k / 2^j
        static const V fit[] = {{3, 0, 0, 5, 1, 968}, {2, 1, 2, 4, 0, 2}, {1, 2, 5, 5, 0, 280}, {0, 3, 9, 5, 0, 20}, {4, 0, 1, 5, 0, 190}, {0, 1, 4, 4, 0, 0}};
        static const V not_fit[] = {{3, 0, 0, 3, 1, 1000}, {1, 2, 5, 2, 0, 320}, {2, 0, 1, 3, 0, 200}, {0, 1, 4, 2, 0, 16}};
        const V &w = what ? not_fit[v] : fit[v];
        ull k = sym_u64("k", w.bits) + w.from, neg = sym_u64("neg", 1);
        bool sign = choose("sign", 2);
        decades(w.from, w.from + (1 << w.bits) - 1, w.j);
        Outcome o = print(sign ? OPC_FIXT : OPC_ABSFIXT, int_cell(w.n), int_cell(w.m), number(k, w.j, neg, w.integer));
        CHECK(o == OK, "it succeeds");
        CHECK(M.cpu.stack.count() == base, "the arguments are consumed");
        if (what == 0) { fixed(text, w.n, w.m, k, w.j, neg, sign); sym_reach("fixed"); }
        else { floating(text, 13, 3, k, w.j, neg); sym_reach("floating"); }
    }
    if (what == 2) { // FLOT(n, m, k / 2^j)
        static const V W[] = {{1, 1, 3, 5, 0, 60}, {2, 1, 0, 5, 1, 975}, {3, 2, 4, 4, 0, 1}, {2, 3, 24, 5, 0, 10}, {3, 1, -20, 2, 0, 952}, {1, 2, 36, 5, 0, 1}, {2, 1, 36, 5, 0, 55}, {13, 3, 0, 5, 1, 0}};
        const V &w = W[v];
        ull k = sym_u64("k", w.bits) + w.from, neg = sym_u64("neg", 1);
        decades(w.from, w.from + (1 << w.bits) - 1, w.j);
        Outcome o = print(OPC_FLOT, int_cell(w.n), int_cell(w.m), number(k, w.j, neg, w.integer));
        CHECK(o == OK, "it succeeds");
        CHECK(M.cpu.stack.count() == base, "the arguments are consumed");
        floating_or_long(text, w.n, w.m, k, w.j, neg);
        sym_reach("floating");
    }
    if (what == 3) { // numbers of digits outside the limits
        ull n = sym_u64("n", 27), m = sym_u64("m", 27);
        ll a = ref_int(n), b = ref_int(m);
        bool flot = v & 1;
        if (flot) sym_assume((a < 1) | (a > 13) | (b < 1) | (b > 3));
        else sym_assume((a < 0) | (b < 0) | (a + b > 21));
        static const struct { ull k; int j, neg; } X[] = {{7, 0, 0}, {25, 3, 1}, {0, 0, 0}, {12345, 30, 0}};
        unsigned i = v / 2;
        decades(X[i].k, X[i].k, X[i].j);
        Outcome o = print(flot ? OPC_FLOT : i & 1 ? OPC_FIXT : OPC_ABSFIXT, int_cell(n), int_cell(m), number(X[i].k, X[i].j, X[i].neg, X[i].j == 0));
        CHECK(o == OK, "it succeeds");
        floating(text, 13, 3, X[i].k, X[i].j, X[i].neg);
        sym_reach("replaced");
    }
    return 0;
}
