// C26: identifiers.  Two identifiers with symbolic letters and digits in one program; the first is a variable of the
// outer block, the second of the inner one: it hides the first exactly if they are the same.
// arg: 100 * what + lengths.
#include "xp.h"
static char txt[3000];
static size_t len;
static void w(const char *s) { while (*s) txt[len++] = *s++; txt[len] = 0; }
static void ws(const char *s, unsigned n) { for (unsigned i = 0; i < n; i++) txt[len++] = s[i]; txt[len] = 0; }
#define B "_b_e_g_i_n "
#define E " _e_n_d"
#define I "_i_n_t_e_g_e_r "
#define P "_p_r_o_c_e_d_u_r_e "
#define V "_v_a_l_u_e "
// A symbolic letter or digit.
static char character(const char *n, bool first)
{
    ull v = sym_u64(n, 7);
    bool letter = ((v >= 'a') & (v <= 'z')) | ((v >= 'A') & (v <= 'Z'));
    sym_assume(first ? letter : letter | ((v >= '0') & (v <= '9')));
    return (char)v;
}
struct Name { char s[16]; unsigned n; };
// The first nine characters tell identifiers apart.
static bool same(const Name &a, const Name &b)
{
    unsigned la = a.n < 9 ? a.n : 9, lb = b.n < 9 ? b.n : 9;
    if (la != lb) return false;
    bool r = true;
    for (unsigned i = 0; i < la; i++) r &= a.s[i] == b.s[i];
    return r;
}
static Name name(const char *s, unsigned n) { Name x; x.n = n; memcpy(x.s, s, n); return x; }
static void put(const Name &x) { ws(x.s, x.n); }

static void hides(const Name &x, const Name &y)
{
    w(B I); put(x); w("; "); put(x); w(" := 1; " B I); put(y); w("; "); put(y); w(" := 2; print("); put(x); w("); print("); put(y); w(")" E "; print("); put(x); w(")" E "\n");
    bool s = same(x, y);
    CHECK(go(txt) == R_DONE, "the program ends");
    CHECK(xc_printed.n == 3, "three numbers");
    want(0, s ? 2 : 1, "the outer variable, or the inner one that hides it");
    want(1, 2, "the inner variable");
    want(2, s ? 1 : 1, "the outer variable after the block");
    if (s) sym_reach("same"); else sym_reach("different");
}
// Only x is declared: a program that uses y is refused exactly if y is another identifier.
static void undeclared(const Name &x, const Name &y)
{
    w(B I); put(x); w("; "); put(x); w(" := 1; print("); put(y); w(")" E "\n");
    bool s = same(x, y);
    Xc c = xc_compile(txt, len);
    if (s) {
        CHECK(c.status == 0, "a declared identifier is accepted");
        sym_reach("same");
    } else {
        CHECK(c.status != 0, "an undeclared identifier is reported");
        sym_reach("different");
    }
}
static const char base[] = "qwertzuiopas";

extern "C" int harness(int arg)
{
    len = 0;
    int what = arg / 100, i = arg % 100;
    switch (what) {
    case 0: case 1: { // names of 1 to 10 characters that may differ in the last one, or in the first
        unsigned n = (unsigned)i;
        Name x = name(base, n), y = x;
        unsigned at = what ? 0 : n - 1;
        x.s[at] = character("x", at == 0);
        y.s[at] = character("y", at == 0);
        hides(x, y);
        break;
    }
    case 2: { // names of different lengths: n and one or two more
        unsigned n = (unsigned)(i % 10), m = n + (unsigned)(i / 10);
        Name x = name(base, n), y = name(base, m);
        x.s[n - 1] = character("x", n == 1);
        y.s[n - 1] = x.s[n - 1];
        for (unsigned k = n; k < m; k++) y.s[k] = character(k == n ? "y" : "z", false);
        if (choose("order", 2)) hides(x, y); else hides(y, x);
        break;
    }
    case 3: { // two places
        unsigned n = (unsigned)(i / 10), at = (unsigned)(i % 10);
        Name x = name(base, n), y = x;
        x.s[at] = character("x0", at == 0); x.s[at + 1] = character("x1", false);
        y.s[at] = character("y0", at == 0); y.s[at + 1] = character("y1", false);
        hides(x, y);
        break;
    }
    case 4: { // undeclared
        unsigned n = (unsigned)i;
        Name x = name(base, n), y = x;
        x.s[n - 1] = character("x", n == 1);
        y.s[n - 1] = character("y", n == 1);
        undeclared(x, y);
        break;
    }
    case 5: { // spaces and new lines within a name
        unsigned n = (unsigned)i;
        Name x = name(base, n), y;
        x.s[n / 2] = character("x", n / 2 == 0);
        unsigned at = (unsigned)choose("at", n - 1) + 1;
        char sp = choose("line", 2) ? '\n' : ' ';
        y.n = 0;
        for (unsigned k = 0; k < n; k++) { if (k == at) y.s[y.n++] = sp; y.s[y.n++] = x.s[k]; }
        w(B I); put(x); w("; "); put(y); w(" := 5; print("); put(x); w("); " B I); put(y); w("; "); put(x); w(" := 6" E "; print("); put(y); w(")" E "\n");
        CHECK(go(txt) == R_DONE, "the program ends");
        static const ll v[] = {5, 5};
        wants(v, 2, "two spellings of one identifier");
        sym_reach("spaces");
        break;
    }
    case 6: { // parameters, procedures, labels and switches hide outer names just as variables do
        Name x = name(base, 5), y = x;
        x.s[2] = character("x", false);
        y.s[2] = character("y", false);
        bool s = same(x, y);
        if (i == 0) { // a parameter
            w(B I); put(x); w("; " P "p("); put(y); w("); " V); put(y); w("; " I); put(y); w("; " B "print("); put(x); w("); "); put(y); w(" := 7; print("); put(x); w(")" E "; "); put(x); w(" := 1; p(3); print("); put(x); w(")" E "\n");
            CHECK(go(txt) == R_DONE, "the program ends");
            want(0, s ? 3 : 1, "the parameter hides"); want(1, s ? 7 : 1, "the parameter hides"); want(2, 1, "the outer variable");
        } else if (i == 1) { // a procedure
            w(B I); put(x); w("; "); put(x); w(" := 1; " B I P); put(y); w("; "); put(y); w(" := 4; print("); put(x); w("); print("); put(y); w(")" E "; print("); put(x); w(")" E "\n");
            CHECK(go(txt) == R_DONE, "the program ends");
            want(0, s ? 4 : 1, "the procedure hides"); want(1, 4, "the procedure"); want(2, 1, "the outer variable");
        } else if (i == 2) { // labels
            w(B I "n; n := 1; "); put(x); w(": n := n + 1; print(n); _i_f n < 4 _t_h_e_n " B I "k; k := 20; _i_f n = 3 _t_h_e_n _g_o_t_o "); put(x); w("; print(k); "); put(y); w(": k := k + 1; print(k); _i_f k < 22 _t_h_e_n _g_o_t_o "); put(y); w(E "; _i_f n < 3 _t_h_e_n _g_o_t_o "); put(x); w(E "\n");
            CHECK(go(txt) == R_DONE, "the program ends");
            // n = 2: 20 21 22; n = 3: the same: 21 22; the outer label: n = 4, then the end
            static const ll v1[] = {2, 20, 21, 22, 3, 21, 22}, v2[] = {2, 20, 21, 22, 3, 4};
            if (s) wants(v1, 7, "the inner label"); else wants(v2, 6, "the outer label");
        } else { // three levels, the names of the middle one
            w(B I); put(x); w("; "); put(x); w(" := 1; " B I); put(y); w(", other; "); put(y); w(" := 2; " B I); put(x); w("; "); put(x); w(" := 3; print("); put(y); w(")" E "; print("); put(x); w("); print("); put(y); w(")" E "; print("); put(x); w(")" E "\n");
            CHECK(go(txt) == R_DONE, "the program ends");
            want(0, s ? 3 : 2, "the middle one"); want(1, s ? 2 : 1, "after the innermost block"); want(2, 2, "the middle one"); want(3, 1, "the outer one");
        }
        if (s) sym_reach("same"); else sym_reach("different");
        break;
    }
    }
    return 0;
}
