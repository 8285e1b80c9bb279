// C15: for statements.  A step of the oracle is the ALGOL 60 definition: assign, test, body, add.
#include "xp.h"
static char txt[1500];
static size_t len;
static void w(const char *s) { while (*s) txt[len++] = *s++; }
static ll out[80];
static unsigned nout;
static void put(ll v) { if (nout < 60) out[nout] = v; nout++; }
static const unsigned LIMIT = 14; // times a body runs before the program is left by a goto
// The program counts the runs of its body and leaves by a jump after LIMIT of them.
static bool more(unsigned &count) { return ++count < LIMIT; }

enum Kind { GLOBAL, LOCAL, FORMAL, ELEMENT, REALVAR, OUTER };
// begin ... controlled variable of some kind, the for list given, body prints the variable
static void program(Kind k, const char *list, const char *body, const char *decl = "")
{
    len = 0;
    const char *v = k == ELEMENT ? "h[2]" : "i";
    w("_b_e_g_i_n _i_n_t_e_g_e_r a, b, c, d, n; ");
    w(decl);
    if (k == GLOBAL) w("_i_n_t_e_g_e_r i; ");
    if (k == REALVAR) w("_r_e_a_l i; ");
    auto loop = [&]() {
        w("_f_o_r "); w(v); w(" := "); w(list); w(" _d_o _b_e_g_i_n print("); w(v); w("); "); w(body);
        w(" n := n + 1; _i_f n = 14 _t_h_e_n _g_o_t_o out _e_n_d; ");
    };
    static const char get[] = "a := read; b := read; c := read; d := read; n := 0; ";
    switch (k) {
    case GLOBAL: case REALVAR: w(get); loop(); break;
    case LOCAL: w("_p_r_o_c_e_d_u_r_e p; _b_e_g_i_n _i_n_t_e_g_e_r i; "); loop(); w("_e_n_d; "); w(get); w("p; "); break;
    case OUTER: w("_p_r_o_c_e_d_u_r_e p; _b_e_g_i_n _i_n_t_e_g_e_r i; _p_r_o_c_e_d_u_r_e q; _b_e_g_i_n _i_n_t_e_g_e_r z; z := 0; "); loop(); w("_e_n_d; q _e_n_d; "); w(get); w("p; "); break;
    case FORMAL: w("_i_n_t_e_g_e_r x; _p_r_o_c_e_d_u_r_e p(i); _i_n_t_e_g_e_r i; _b_e_g_i_n "); loop(); w("_e_n_d; "); w(get); w("p(x); "); break;
    case ELEMENT: w(get); w("_b_e_g_i_n _i_n_t_e_g_e_r _a_r_r_a_y h[1:3]; "); loop(); w("_e_n_d; "); break;
    }
    w("print(n); out: print(-99) _e_n_d\n");
    txt[len] = 0;
}
static void finish(bool left, unsigned n)
{
    if (!left) put(n);
    put(-99);
    CHECK(go(txt, 6000) == R_DONE, "the program ends");
    CHECK(xc_printed.n == nout, "as many numbers as the iterations give");
    for (unsigned i = 0; i < nout && i < xc_printed.n; i++) {
        const Stack_Cell &c = xc_printed.c[i];
        observe_cell("p", c);
        if (c.is_real_value()) CHECK(x1_to_ieee(c.value) == (long double)out[i], "the value of the controlled variable");
        else CHECK(is_int(c, out[i]), "the value of the controlled variable");
    }
    sym_reach("loop");
}

// A small integer every value of which is a path of its own (real arithmetic on it is then concrete).
static ll each(const char *n, ll lo, ll hi)
{
    ll v = (ll)choose(n, (ull)(hi - lo + 1)) + lo;
    give_int(v);
    return v;
}
extern "C" int harness(int arg)
{
    nout = 0;
    unsigned n = 0;
    bool left = false;
    if (arg < 12) { // a step b until c, any kind of variable; even arg: constant step and limit in the program's variables
        Kind k = (Kind)(arg / 2);
        bool r = k == REALVAR;
        ll a = r ? each("a", -2, 1) : small("a", -4, 3), b = r ? each("b", -2, 2) : small("b", -3, 3), c = r ? each("c", -2, 3) : small("c", -4, 4), d = r ? each("d", 0, 1) : small("d", 0, 1);
        if (arg & 1) sym_assume(d == 0);
        program(k, arg & 1 ? "a _s_t_e_p b _u_n_t_i_l c" : "a _s_t_e_p b _u_n_t_i_l c, 77, a, c _s_t_e_p -2 _u_n_t_i_l a - d", "");
        ll v;
        for (v = a; b > 0 ? v <= c : b < 0 ? v >= c : true; v += b) {
            put(v);
            if (!more(n)) { left = true; break; }
        }
        if (!(arg & 1)) {
            if (!left) { put(77); left = !more(n); }
            if (!left) { put(a); left = !more(n); }
            for (v = c; !left && v >= a - d; v -= 2) { put(v); left = !more(n); }
        }
        finish(left, n);
        return 0;
    }
    switch (arg) {
    case 12: { // the body changes step and limit
        ll a = small("a", -1, 2), b = each("b", 1, 2), c = small("c", 0, 5), d = each("d", -1, 1);
        static const Kind some[3] = {GLOBAL, FORMAL, OUTER};
        Kind k = some[choose("kind", 3)];
        program(k, "a _s_t_e_p b _u_n_t_i_l c", "b := b + d; c := c - 1;");
        for (ll v = a; b > 0 ? v <= c : b < 0 ? v >= c : true; v += b) {
            put(v);
            b += d; c -= 1;
            if (!more(n)) { left = true; break; }
        }
        finish(left, n);
        break;
    }
    case 13: { // the body changes the controlled variable
        bool g = choose("kind", 2);
        ll a = g ? small("a", -2, 3) : each("a", -1, 1), b = g ? small("b", 1, 2) : each("b", 1, 2), c = g ? small("c", 0, 6) : each("c", 0, 4), d = g ? small("d", 0, 2) : each("d", 0, 2);
        program(g ? GLOBAL : REALVAR, "a _s_t_e_p b _u_n_t_i_l c", "i := i + d;");
        for (ll v = a; v <= c; v += b) {
            put(v);
            v += d;
            if (!more(n)) { left = true; break; }
        }
        finish(left, n);
        break;
    }
    case 14: { // while elements among others
        ll a = small("a", -2, 2), b = small("b", 1, 2), c = small("c", 0, 7), d = small("d", 0, 4);
        Kind k = (Kind)choose("kind", 4);
        program(k, k == ELEMENT ? "a, h[2] + b _w_h_i_l_e h[2] < c, d, h[2] - 1 _w_h_i_l_e h[2] > c, 5" : "a, i + b _w_h_i_l_e i < c, d, i - 1 _w_h_i_l_e i > c, 5", "");
        ll v = a;
        put(v); left = !more(n);
        if (!left) for (v = v + b; v < c; v = v + b) { put(v); if (!more(n)) { left = true; break; } }
        if (!left) { v = d; put(v); left = !more(n); }
        if (!left) for (v = v - 1; v > c; v = v - 1) { put(v); if (!more(n)) { left = true; break; } }
        if (!left) { put(5); left = !more(n); }
        finish(left, n);
        break;
    }
    case 15: { // step-until, then while, then step-until again; the elements use n
        ll a = small("a", 0, 3), b = small("b", -1, 1), c = small("c", 0, 4), d = small("d", 0, 3);
        program((Kind)choose("kind", 4), "a _s_t_e_p 1 _u_n_t_i_l c, n _w_h_i_l_e n < d + 3, c _s_t_e_p b _u_n_t_i_l a, d", "");
        ll v;
        for (v = a; v <= c; v++) { put(v); if (!more(n)) { left = true; break; } }
        if (!left) for (v = n; n < d + 3; v = n) { put(v); if (!more(n)) { left = true; break; } }
        if (!left) for (v = c; b > 0 ? v <= a : b < 0 ? v >= a : true; v += b) { put(v); if (!more(n)) { left = true; break; } }
        if (!left) { put(d); left = !more(n); }
        finish(left, n);
        break;
    }
    case 16: { // nested, the inner limit is the outer variable
        ll a = small("a", 0, 2), b = small("b", 0, 3);
        small("c", 0, 0); small("d", 0, 0);
        len = 0;
        w("_b_e_g_i_n _i_n_t_e_g_e_r a, b, c, d, i, j; a := read; b := read; c := read; d := read;"
          "_f_o_r i := a _s_t_e_p 1 _u_n_t_i_l b _d_o _f_o_r j := i _s_t_e_p -1 _u_n_t_i_l 0, b _d_o print(10 \303\227 i + j); print(-99) _e_n_d\n");
        txt[len] = 0;
        for (ll i = a; i <= b; i++) {
            for (ll j = i; j >= 0; j--) put(10 * i + j);
            put(10 * i + b);
        }
        put(-99);
        CHECK(go(txt, 6000) == R_DONE, "the program ends");
        wants(out, nout, "nested loops");
        sym_reach("loop");
        break;
    }
    case 17: { // a procedure with its own loop called from the body, recursively
        ll a = small("a", 0, 3), b = small("b", 0, 2);
        len = 0;
        w("_b_e_g_i_n _i_n_t_e_g_e_r a, b; _p_r_o_c_e_d_u_r_e p(m); _v_a_l_u_e m; _i_n_t_e_g_e_r m; _b_e_g_i_n _i_n_t_e_g_e_r i;"
          "_f_o_r i := 1 _s_t_e_p 1 _u_n_t_i_l m _d_o _b_e_g_i_n print(10 \303\227 m + i); p(m - 1) _e_n_d _e_n_d;"
          "a := read; b := read; _f_o_r a := a, b _d_o p(a); print(-99) _e_n_d\n");
        txt[len] = 0;
        struct R { static void p(ll m) { for (ll i = 1; i <= m; i++) { put(10 * m + i); p(m - 1); } } };
        R::p(a);
        R::p(b);
        put(-99);
        CHECK(go(txt, 8000) == R_DONE, "the program ends");
        wants(out, nout, "recursive loops");
        sym_reach("loop");
        break;
    }
    case 18: case 19: { // real steps: quarters
        ll a = each("a", -2, 2), b = each("b", -2, 2), c = each("c", -2, 2);
        small("d", 0, 0);
        len = 0;
        w(arg == 18 ? "_b_e_g_i_n _i_n_t_e_g_e_r a, b, c, d, n; _r_e_a_l i; a := read; b := read; c := read; d := read; n := 0; _f_o_r i := a / 4 _s_t_e_p b / 4 _u_n_t_i_l c / 2 _d_o _b_e_g_i_n print(4 \303\227 i);"
                    : "_b_e_g_i_n _i_n_t_e_g_e_r a, b, c, d, n; _p_r_o_c_e_d_u_r_e p(i, s, l); _r_e_a_l i, s, l; _f_o_r i := a / 4 _s_t_e_p s _u_n_t_i_l l _d_o _b_e_g_i_n print(4 \303\227 i);");
        w(" n := n + 1; _i_f n = 14 _t_h_e_n _g_o_t_o out _e_n_d; ");
        if (arg == 19) w("_p_r_o_c_e_d_u_r_e q; _b_e_g_i_n _r_e_a_l x; p(x, b / 4, c / 2) _e_n_d; a := read; b := read; c := read; d := read; n := 0; q; ");
        w("out: print(-99) _e_n_d\n");
        txt[len] = 0;
        for (ll v = a; b > 0 ? v <= 2 * c : b < 0 ? v >= 2 * c : true; v += b) {
            put(v);
            if (!more(n)) break;
        }
        put(-99);
        CHECK(go(txt, 6000) == R_DONE, "the program ends");
        CHECK(xc_printed.n == nout, "as many numbers as the iterations give");
        for (unsigned i = 0; i + 1 < nout && i < xc_printed.n; i++)
            CHECK(cell_value(xc_printed.c[i]) == (long double)out[i], "the value of the controlled variable");
        sym_reach("loop");
        break;
    }
    }
    return 0;
}
