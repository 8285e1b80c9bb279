// C25: numbers written in a program.  The digits are symbolic; the compiled constant is fetched by running the program.
#include "xc.h"
typedef unsigned __int128 u128;
static Machine M;
static char txt[400];
static size_t len;
static void w(const char *s) { while (*s) txt[len++] = *s++; }

// The number being written: N * 10^scale, and whether it is an integer literal.
static u128 N;
static int scale;
static bool integer, fraction;
static void begin() { N = 0; scale = 0; integer = true; fraction = false; }
static void digit(ull d)
{
    txt[len++] = (char)('0' | d);
    N = N * 10 + d;
    if (fraction) scale--;
}
static ull sym_digit(char c, int i)
{
    char n[4] = {c, (char)('a' + i), 0, 0};
    ull d = sym_u64(n, 4);
    sym_assume(d <= 9);
    return d;
}
static ull choose(const char *n, ull count)
{
    ull v = sym_u64(n, 12);
    sym_assume(v < count);
    return sym_concretize(v);
}
static void digits(char c, int n) { for (int i = 0; i < n; i++) digit(sym_digit(c, i)); }
static void point() { txt[len++] = '.'; integer = false; fraction = true; }
static void ten(int e, bool plus = false)
{
    char b[16];
    int i = 0, v = e < 0 ? -e : e;
    w("\342\217\250");
    if (e < 0) w("-");
    else if (plus) w("+");
    do { b[i++] = (char)('0' + v % 10); v /= 10; } while (v);
    while (i) txt[len++] = b[--i];
    integer = false;
    scale += e;
}
static u128 pow10i(int n) { u128 r = 1; while (n-- > 0) r *= 10; return r; }

enum Compiled { C_OK, C_REJECTED, C_BROKEN };
static Compiled compile()
{
    Xc x = xc_compile(txt, len);
    if (x.status != 0) return C_REJECTED;
    static Obj o;
    xc_object(x, o);
    if (!o.ok) return C_BROKEN;
    xc_load(M, o);
    xc_printed.n = 0;
    return C_OK;
}
// |c - N*10^scale| <= 1 unit in the last place; every intermediate number fits in 128 bits for the jobs that use it.
static bool close(const Stack_Cell &c)
{
    ull m = ref_mant(c.value);
    int k = ref_exp(c.value) - 40;
    k = (int)(ll)sym_concretize((ull)(unsigned)k);
    if (k > 80 || k < -100) return false;
    u128 l = m, r = N, u = 1;
    if (scale >= 0) r *= pow10i(scale);
    else { u128 p = pow10i(-scale); l *= p; u *= p; }
    if (k >= 0) { l <<= k; u <<= k; }
    else {
        if (r >> (128 + k)) return false; // far too large
        r <<= -k;
    }
    u128 d = l > r ? l - r : r - l;
    return d <= u;
}
static void check_cell(const Stack_Cell &c)
{
    observe_cell("c", c);
    if (integer && N <= M26) {
        CHECK(c.is_int_value(), "an integer that fits a word is an integer");
        CHECK(c.value == (ull)N, "exactly that integer");
        sym_reach("integer");
        return;
    }
    if (N == 0) { // 0.0 is compiled like 0
        CHECK(c.value == 0 && (c.is_int_value() || c.is_real_value()), "zero");
        sym_reach("zero");
        return;
    }
    CHECK(c.is_real_value(), "a real");
    CHECK(!ref_neg(c.value), "a number written without sign is not negative");
    CHECK((ref_mant(c.value) >> 39) & 1, "normalised");
    CHECK((c.value >> 26 & 1) == 0, "the second word has no sign");
    CHECK(close(c), "within one unit in the last place");
    sym_reach("real");
}
static void one(bool must = true)
{
    Compiled r = compile();
    CHECK(r == C_OK, "the program compiles");
    if (!must) return;
    CHECK(xc_run(M, 50) == R_DONE && xc_printed.n == 1, "the program runs");
    check_cell(xc_printed.c[0]);
}
// The same for concrete digits and any exponent.
static void far()
{
    long double v = (long double)(ull)N;
    int s = scale;
    bool huge = false, tiny = false;
    if (s > 700) huge = true;
    else if (s < -700) tiny = true;
    else v = s >= 0 ? v * powl(10.0L, s) : v / powl(10.0L, -s);
    if (N == 0) huge = tiny = false;
    long double top = ld_make(false, 16383 + 2047, 1ull << 63), bottom = ld_make(false, 16383 - 2049, 1ull << 63); // 2^2047, 2^-2049
    Compiled r = compile();
    CHECK(r != C_BROKEN, "no damaged object program");
    if (N != 0 && (huge || (!tiny && v >= top))) {
        CHECK(r == C_REJECTED, "a number too large for the machine is rejected");
        sym_reach("large");
        return;
    }
    if (N != 0 && (tiny || v < bottom)) {
        if (r == C_REJECTED) { sym_reach("small"); return; }
        CHECK(xc_run(M, 50) == R_DONE && xc_printed.n == 1, "the program runs");
        observe_cell("c", xc_printed.c[0]);
        CHECK(xc_printed.c[0].value == 0, "a number too small for the machine is zero or rejected");
        sym_reach("small");
        return;
    }
    CHECK(r == C_OK, "a number the machine can hold is accepted");
    CHECK(xc_run(M, 50) == R_DONE && xc_printed.n == 1, "the program runs");
    const Stack_Cell &c = xc_printed.c[0];
    observe_cell("c", c);
    if (N == 0) { CHECK(c.value == 0, "zero"); sym_reach("zero"); return; }
    CHECK(c.is_real_value() && !ref_neg(c.value) && ref_mant(c.value) >> 39, "a normalised real");
    long double g = ref_dec(c.value), d = g > v ? g - v : v - g, u = ldexpl(1.0L, ref_exp(c.value) - 40);
    CHECK(d <= u * 1.001L, "within one unit in the last place");
    sym_reach("real");
}
static void start() { len = 0; w("_b_e_g_i_n print("); begin(); }
static void finish() { w(") _e_n_d\n"); }

// Digits of which a window of `win` is symbolic, at any place; the others come from a number near a limit of the
// machine's formats.  A point after `at` digits (or none).
static const char *const base[] = {
    "999999999999999999", "100000000000000000", "671088635000000000", "109951162777600000", "000000000000000000",
};
// `few`: fewer bases and places; `fork`: the paths split over the digit's ten values (the arithmetic is then concrete).
static void windowed(int n, int win, int at, bool few = false, bool fork = false)
{
    int b = 0, p = 0;
    if (n > win) {
        b = (int)choose("base", few ? 2 : sizeof base / sizeof *base);
        if (few && b) b = 1 + n % 4;
        int free = n - win, c[4], k = 0;
        c[k++] = 0;
        if (free > 1) c[k++] = few ? free / 2 : 1;
        if (free > 2 && !few) c[k++] = free - 1;
        c[k++] = free;
        p = c[choose("window", k)];
    }
    for (int i = 0; i < n; i++) {
        if (i == at) point();
        if (i >= p && i < p + win) digit(fork ? sym_concretize(sym_digit('d', i)) : sym_digit('d', i));
        else digit((ull)(base[b][i] & 15));
    }
}
// A place for the point: at the start, after one digit, before the last digit (or: none, after one digit).
static int place(int n, bool none)
{
    int c[5], k = 0;
    if (none) c[k++] = n;
    else c[k++] = 0;
    if (n > 1) c[k++] = 1;
    if (n > 2 && !none) c[k++] = n - 1;
    return c[choose("point", k)];
}
extern "C" int harness(int arg)
{
    if (arg < 20) { // arg+1 digits
        start();
        windowed(arg + 1, arg < 3 ? 3 : arg < 9 ? 2 : 1, -1, false, arg > 10);
        finish();
        one();
        return 0;
    }
    if (arg < 100) { // n digits with a point among them
        int n = arg - 20;
        start();
        windowed(n, n < 3 ? 2 : 1, place(n, false), n < 6, n >= 6);
        finish();
        one();
        return 0;
    }
    if (arg < 200) { // with small exponents too
        int n = arg - 100;
        start();
        windowed(n, 1, place(n, true), true, true);
        static const int ex[] = {-7, -1, 2, 6};
        int e = ex[choose("exponent", 4)];
        ten(e, e == 2);
        finish();
        one();
        return 0;
    }
    if (arg < 300) { // one or two digits, every exponent: -640 + 20*k ... 
        start();
        static const unsigned m[] = {1, 2, 5, 7, 9, 99, 10, 33, 0};
        unsigned v = m[choose("mantissa", 9)];
        bool pt = choose("point", 2);
        if (v >= 10) { digit(v / 10); if (pt) point(); digit(v % 10); }
        else { if (pt) point(); digit(v); }
        ten(-1280 + 64 * (arg - 200) + (int)choose("exponent", 64));
        finish();
        far();
        return 0;
    }
    switch (arg) {
    case 300: { // spaces inside, leading zeros, long fractions
        start();
        digit(0); w(" "); digit(0); digits('d', 3); w(" "); digits('e', 2); w("  ");
        finish();
        one();
        break;
    }
    case 301: { // twelve zeros behind the point
        start();
        digit(0); point();
        for (int i = 0; i < 12; i++) digit(0);
        digit(sym_concretize(sym_digit('d', 0)));
        digit(sym_concretize(sym_digit('d', 1)));
        finish();
        one();
        break;
    }
    case 302: { // exponents of four to eight digits
        start();
        digit(1 + 8 * choose("mantissa", 2));
        int e = 1 + 4 * (int)choose("first", 3), n = 4 + (int)choose("length", 2);
        bool neg = choose("sign", 2);
        for (int i = 1; i < n; i++) e = e * 10 + (i == n - 1 ? (int)choose("last", 3) : 0);
        ten(neg ? -e : e);
        finish();
        far();
        break;
    }
    case 303: case 304: case 305: case 306: { // two numbers in one program stay two numbers
        len = 0;
        w("_b_e_g_i_n print(");
        bool ra = (arg - 303) & 1, rb = (arg - 303) & 2;
        ull d[6];
        static const char *const dn[] = {"d0", "d1", "d2", "d3", "d4", "d5"};
        for (int i = 0; i < 6; i++) {
            if ((i == 2 && !ra) || (i == 5 && !rb)) continue;
            if (i == 0 || i == 3) { d[i] = 1; continue; }
            d[i] = sym_u64(dn[i], 4);
            sym_assume(d[i] <= 9);
        }
        u128 n[3]; int sc[3]; bool it[3];
        for (int k = 0; k < 3; k++) {
            int o = k == 1 ? 3 : 0;
            begin();
            digit(d[o]);
            digit(d[o + 1]);
            if (k == 1 ? rb : ra) { point(); digit(d[o + 2]); }
            n[k] = N; sc[k] = scale; it[k] = integer;
            w(k < 2 ? "); print(" : ") _e_n_d\n");
        }
        CHECK(compile() == C_OK, "the program compiles");
        CHECK(xc_run(M, 80) == R_DONE && xc_printed.n == 3, "the program runs");
        CHECK(same_cell(xc_printed.c[0], xc_printed.c[2]), "the same number twice is the same value");
        for (int k = 0; k < 3; k++) {
            N = n[k]; scale = sc[k]; integer = it[k];
            check_cell(xc_printed.c[k]);
        }
        break;
    }
    case 307: { // just the power of ten, with and without signs
        len = 0;
        w("_b_e_g_i_n print(");
        begin();
        N = 1; // an exponent part alone
        ten((int)choose("exponent", 60) - 30, choose("plus", 2));
        finish();
        far();
        break;
    }
    case 308: { // in expressions and assignments, with a sign
        len = 0;
        w("_b_e_g_i_n _i_n_t_e_g_e_r i; i := -");
        begin();
        digits('d', 8);
        sym_assume(N <= M26);
        w("; print(i); print(1+");
        u128 n0 = N;
        begin();
        digits('e', 3);
        finish();
        CHECK(compile() == C_OK, "the program compiles");
        CHECK(xc_run(M, 80) == R_DONE && xc_printed.n == 2, "the program runs");
        observe_cell("a", xc_printed.c[0]);
        observe_cell("b", xc_printed.c[1]);
        CHECK(xc_printed.c[0].is_int_value() && xc_printed.c[0].value == (~(ull)n0 & M27), "minus the integer");
        CHECK(xc_printed.c[1].is_int_value() && xc_printed.c[1].value == (ull)N + 1, "an operand");
        sym_reach("signed");
        break;
    }
    }
    return 0;
}
