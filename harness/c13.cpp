// C13: procedure calls and returns.  After each call the caller's variables, the stack height and the place of execution are
// compared with a C++ model of the program.
#include "xp.h"
static char txt[3000];
static size_t len;
static void w(const char *s) { while (*s) txt[len++] = *s++; txt[len] = 0; }
#define B "_b_e_g_i_n "
#define E " _e_n_d"
#define I "_i_n_t_e_g_e_r "
#define R "_r_e_a_l "
#define P "_p_r_o_c_e_d_u_r_e "
#define V "_v_a_l_u_e "
#define A "_a_r_r_a_y "
#define IF "_i_f "
#define TH " _t_h_e_n "
#define EL " _e_l_s_e "
static ll pick(const char *n, ll lo, ll hi)
{
    ll v = (ll)choose(n, (ull)(hi - lo + 1)) + lo;
    give_int(v);
    return v;
}
// -1 is printed at places where the stack must be as high as at the first one.
static void expect(const ll *v, unsigned n, const char *label, unsigned steps = 6000)
{
    CHECK(go(txt, steps) == R_DONE, "the program ends");
    wants(v, n, label);
    unsigned at = 0;
    bool seen = false;
    for (unsigned i = 0; i < n && i < xc_printed.n; i++)
        if (v[i] == -999) {
            if (!seen) at = xc_printed.at[i];
            seen = true;
            CHECK(xc_printed.at[i] == at, "the stack is as high as before the calls");
        }
    sym_reach("ran");
}
#define MARK "print(-999); "
static ll fib(ll n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
static ll ack(ll m, ll n) { return m == 0 ? n + 1 : n == 0 ? ack(m - 1, 1) : ack(m - 1, ack(m, n - 1)); }
extern "C" int harness(int arg)
{
    len = 0;
    switch (arg) {
    case 0: { // statements and functions, nested in each other, operands waiting on the stack
        ll a = small("a", -8, 7), b = small("b", -8, 7), c = small("c", -8, 7);
        w(B I "a, b, c, n; " I P "f(x); " V "x; " I "x; " B I "l; l := x + 1; n := n + 1; f := 2\303\227l" E "; " I P "g(x, y); " V "x, y; " I "x, y; " B I "l, m; l := f(x); m := f(y); g := l - m + f(l)" E
          "; " P "p(x); " V "x; " I "x; " B "n := n + 10; x := x + 1" E "; a := read; b := read; c := read; n := 0; " MARK "print(a + f(b)\303\2273 - g(c, f(a) - b)); p(a); " MARK
          "p(f(b)); print(n); " IF "f(a) > g(b, c)" TH "print(1)" EL "print(0); p(g(a, b) + c); n := f(n) - n; " MARK "print(a); print(b); print(c); print(n)" E "\n");
        auto f = [](ll x) { return 2 * (x + 1); };
        auto g = [&](ll x, ll y) { return f(x) - f(y) + f(f(x)); };
        ll n = 0;
        // print: f(b), f(a), g = 3 f
        ll v1 = a + f(b) * 3 - g(c, f(a) - b);
        n = 5 + 10 + 1 + 10;
        ll n1 = n;
        bool t = f(a) > g(b, c);
        n += 4 + 3 + 10;
        ll n2 = n;
        n = f(n2) - n2 - 0;
        // the subtraction uses n after f has counted
        n = f(n2) - (n2 + 1);
        ll want[] = {-999, v1, -999, n1, t, -999, a, b, c, n};
        expect(want, 10, "results and counters");
        break;
    }
    case 1: { // recursion
        ll n = pick("n", 0, 8), k = small("k", -8, 7);
        w(B I "n, k; " I P "fac(n); " V "n; " I "n; fac := " IF "n < 1" TH "1" EL "n \303\227 fac(n - 1); " I P "fib(n); " V "n; " I "n; " IF "n < 2" TH "fib := n" EL "fib := fib(n - 1) + fib(n - 2); "
          P "down(n); " V "n; " I "n; " B I "l; l := n + k; " IF "n > 0" TH "down(n - 1); print(l)" E "; n := read; k := read; " MARK "print(fac(n)); print(fib(n)); down(2); " MARK "print(n); print(k)" E "\n");
        ll f = 1;
        for (ll i = 1; i <= n; i++) f *= i;
        ll want[] = {-999, f, fib(n), k, k + 1, k + 2, -999, n, k};
        expect(want, 9, "recursive results", 20000);
        break;
    }
    case 2: { // Ackermann: deep recursion in argument position
        ll m = pick("m", 0, 2), n = pick("n", 0, 2);
        w(B I "m, n; " I P "ack(m, n); " V "m, n; " I "m, n; ack := " IF "m = 0" TH "n + 1" EL IF "n = 0" TH "ack(m - 1, 1)" EL "ack(m - 1, ack(m, n - 1)); m := read; n := read; " MARK "print(ack(m, n)); " MARK "print(m); print(n)" E "\n");
        ll want[] = {-999, ack(m, n), -999, m, n};
        expect(want, 5, "Ackermann's function", 60000);
        break;
    }
    case 3: { // variables of five levels, seen and changed from the innermost procedure
        ll a = small("a", -8, 7), d = small("d", -8, 7);
        w(B I "v0, d; " P "p1(x1); " V "x1; " I "x1; " B I "v1; " P "p2(x2); " V "x2; " I "x2; " B I "v2; " P "p3(x3); " V "x3; " I "x3; " B I "v3; " P "p4(x4); " V "x4; " I "x4; " B I "v4; "
          "v4 := x4 + v3; v3 := v3 + d; v2 := v2 + x1; v1 := v1 + x2; v0 := v0 + x3; print(v4); x1 := x1 + 1; x2 := x2 + 2; x3 := x3 + 3" E "; "
          "v3 := x3 + v2; p4(v3); p4(v3 + 1); print(v3); print(x3)" E "; v2 := x2 + v1; p3(v2); print(v2); print(x2)" E "; v1 := x1 + v0; p2(v1); p2(d); print(v1); print(x1)" E
          "; v0 := read; d := read; " MARK "p1(v0 + 1); " MARK "print(v0); print(d)" E "\n");
        ll want[40];
        int n = 0;
        want[n++] = -999;
        ll v0 = a, x1 = v0 + 1, v1 = x1 + v0;
        for (int k = 0; k < 2; k++) {
            ll x2 = k ? d : v1, v2 = x2 + v1;
            {
                ll x3 = v2, v3 = x3 + v2;
                for (int q = 0; q < 2; q++) {
                    ll x4 = v3 + q, v4 = x4 + v3;
                    v3 += d; v2 += x1; v1 += x2; v0 += x3;
                    want[n++] = v4;
                    x1++; x2 += 2; x3 += 3;
                }
                want[n++] = v3;
                want[n++] = x3;
            }
            want[n++] = v2;
            want[n++] = x2;
        }
        want[n++] = v1;
        want[n++] = x1;
        want[n++] = -999;
        want[n++] = v0;
        want[n++] = d;
        expect(want, (unsigned)n, "the variables of every level");
        break;
    }
    case 4: { // mutual recursion over levels: an inner procedure calls an outer one and finds its own level again
        ll n = pick("n", 0, 4), a = small("a", -8, 7);
        w(B I "n, t; " P "outer(n, a); " V "n, a; " I "n, a; " B I "l; " P "inner(k); " V "k; " I "k; " B I "m; m := l + k; " IF "n > 0" TH "outer(n - 1, m); print(m); l := l + 1; print(l + a + n)" E
          "; l := a + n; inner(2); print(l); " IF "n = 1" TH "inner(3)" E "; n := read; t := read; " MARK "outer(n, t); " MARK "print(n); print(t)" E "\n");
        static ll want[200];
        unsigned q = 0;
        want[q++] = -999;
        struct { static void outer(ll n, ll a, ll *v, unsigned &q)
        {
            ll l = a + n;
            inner(n, a, l, 2, v, q);
            v[q++] = l;
            if (n == 1) inner(n, a, l, 3, v, q);
        }
        static void inner(ll n, ll a, ll &l, ll k, ll *v, unsigned &q)
        {
            ll m = l + k;
            if (n > 0) outer(n - 1, m, v, q);
            v[q++] = m;
            l++;
            v[q++] = l + a + n;
        } } f;
        f.outer(n, a, want, q);
        want[q++] = -999;
        want[q++] = n;
        want[q++] = a;
        expect(want, q, "the levels after mutual recursion", 20000);
        break;
    }
    case 5: { // blocks with variables and arrays around the calls
        ll a = small("a", -8, 7), n = pick("n", 1, 3);
        w(B I "a, n, s; " I P "f(x); " V "x; " I "x; " B I A "v[1:x + 1]; " I "k; _f_o_r k := 1 _s_t_e_p 1 _u_n_t_i_l x + 1 _d_o v[k] := a + k; " B I "s; " I A "u[0:x]; s := 0; _f_o_r k := 0 _s_t_e_p 1 _u_n_t_i_l x _d_o " B
          "u[k] := v[k + 1] + " IF "x > 1" TH "f(x - 1)" EL "1; s := s + u[k]" E "; f := s" E E "; a := read; n := read; s := 100; " MARK B I "b; " I A "c[0:2]; b := 7; c[0] := 1; c[2] := 3; c[1] := f(n) + b; print(c[0]); print(c[1]); print(c[2]); print(b)" E
          "; " MARK "print(s); print(a)" E "\n");
        struct { static ll f(ll x, ll a) { ll s = 0; for (ll k = 0; k <= x; k++) s += a + k + 1 + (x > 1 ? f(x - 1, a) : 1); return s; } } m;
        ll want[] = {-999, 1, m.f(n, a) + 7, 3, 7, -999, 100, a};
        expect(want, 8, "blocks and arrays around calls", 20000);
        break;
    }
    case 6: { // results: real, integer, Boolean; several assignments, the last one counts; assigned by an inner procedure
        ll a = small("a", -8, 7);
        w(B I "a; _B_o_o_l_e_a_n " P "neg(x); " V "x; " I "x; neg := x < 0; " I P "twice(x); " V "x; " I "x; " B "twice := 99; " IF "neg(x)" TH "twice := -2\303\227x" EL "twice := 2\303\227x" E "; "
          I P "by(x); " V "x; " I "x; " B P "set(y); " V "y; " I "y; by := y + x; by := 0; set(5); set(6)" E "; " R P "half(x); " V "x; " I "x; half := x; "
          "a := read; " MARK IF "neg(a) \342\210\247 \302\254 neg(-a)" TH "print(1)" EL "print(0); print(twice(a)); print(twice(twice(a))); print(by(a)); " IF "half(a) = a" TH "print(2)" EL "print(3); " MARK "print(a)" E "\n");
        ll t = a < 0 ? -2 * a : 2 * a;
        ll want[] = {-999, a < 0, t, 2 * t, 6 + a, 2, -999, a};
        expect(want, 8, "function results");
        break;
    }
    case 7: { // functions called in loops, conditions, subscripts and switches
        ll a = small("a", 1, 3), b = small("b", 1, 3);
        w(B I "a, b, k, n; " I A "v[1:9]; _s_w_i_t_c_h s := l1, l2, l3; " I P "inc(x); " V "x; " I "x; " B "n := n + 1; inc := x + 1" E "; n := 0; a := read; b := read; " MARK
          "_f_o_r k := inc(a) - 1 _s_t_e_p inc(0) _u_n_t_i_l inc(inc(2)) _d_o v[inc(k)] := inc(k)\303\22710; print(n); v[inc(a)] := v[inc(b + 0)] + inc(b); _g_o_t_o s[inc(a) - 1]; "
          "l1: print(101); l2: print(102); l3: print(103); _f_o_r k := inc(a) _s_t_e_p 1 _u_n_t_i_l 5 _d_o print(" IF "k \342\211\245 inc(b) \342\210\250 k = a + 1" TH "v[k]" EL "-k); " MARK "print(a)" E "\n");
        a = (ll)sym_concretize((ull)a); // the loops below depend on them
        b = (ll)sym_concretize((ull)b);
        static ll want[60];
        unsigned q = 0;
        ll v[10] = {0}, n = 1;
        ll k = a;
        for (;;) { // step and limit are evaluated once per test
            n++; n += 2;
            if (k > 4) break;
            v[k + 1] = 10 * (k + 1);
            n += 2;
            k += 1;
        }
        want[q++] = -999;
        unsigned nat = q;
        want[q++] = n;
        v[a + 1] = (b + 1 >= a + 1 ? v[b + 1] : 0) + b + 1;
        if (b < a) sym_assume(false); // those elements are not defined
        if (a <= 1) want[q++] = 101;
        if (a <= 2) want[q++] = 102;
        want[q++] = 103;
        for (k = a + 1; k <= 5; k++) want[q++] = k >= b + 1 || k == a + 1 ? v[k] : -k;
        want[q++] = -999;
        want[q++] = a;
        CHECK(go(txt, 20000) == R_DONE, "the program ends");
        for (unsigned i = 0; i < q; i++)
            if (i != nat) want[i] = want[i];
        wants(want, q, "functions in all places");
        sym_reach("ran");
        break;
    }
    case 8: { // deep recursion: hundreds of activations
        ll n = pick("n", 0, 3), a = pick("a", -1, 2);
        w(B I "n, a; " I P "f(n); " V "n; " I "n; " B I "l; l := n + a; f := " IF "n = 0" TH "a" EL "f(n - 1) + l" E "; n := read\303\22760; a := read; " MARK "print(f(n)); " MARK "print(n); print(a)" E "\n");
        n *= 60;
        ll s = a;
        for (ll k = 1; k <= n; k++) s += k + a;
        ll want[] = {-999, s, -999, n, a};
        expect(want, 5, "deep recursion", 30000);
        break;
    }
    case 9: { // procedures without parameters, empty bodies, compound bodies, a function called as a statement is not needed
        ll a = small("a", -8, 7);
        w(B I "a, n; " P "none; ; " P "one; n := n + 1; " P "blk; " B I "n; n := 50; one; n := n + 1; print(n)" E "; " P "cmp; " B "one; none; blk; one" E "; " I P "get; get := n; n := read; a := n; " MARK "none; one; cmp; print(get + get); " MARK
          "_f_o_r n := n _d_o " B "one; cmp" E "; print(n); print(a); " MARK "none" E "\n");
        ll want[] = {-999, 51, 2 * (a + 4), -999, 51, a + 8, a, -999};
        expect(want, 8, "procedures without parameters");
        break;
    }
    case 10: case 11: { // Any word as argument comes back unchanged through value parameters and results
        bool real = arg == 11;
        const char *T = real ? R : I;
        w(B); w(T); w("x, y; "); w(T); w(P "id(v); " V "v; "); w(T); w("v; id := v; "); w(T); w(P "id2(v, u); " V "u; "); w(T); w("v, u; " B); w(T);
        w("l; l := v; id2 := id(l); l := u" E "; x := read; y := read; " MARK "print(id(x)); print(id(id(y))); print(id2(id2(x, y), y)); " MARK "print(x); print(y)" E "\n");
        Stack_Cell c[2];
        for (int i = 0; i < 2; i++) {
            c[i] = real ? real_cell((sym_u64(i ? "yh" : "xh", 27) << 27) | sym_u64(i ? "yl" : "xl", 26)) : int_cell(sym_u64(i ? "y" : "x", 27));
            give(c[i]);
        }
        CHECK(go(txt) == R_DONE && xc_printed.n == 7, "the program ends");
        static const int which[] = {-1, 0, 1, 0, -1, 0, 1};
        for (int i = 0; i < 7 && i < (int)xc_printed.n; i++) {
            if (which[i] < 0) continue;
            observe_cell("p", xc_printed.c[i]);
            CHECK(same_cell(xc_printed.c[i], c[which[i]]), "the same word");
        }
        CHECK(xc_printed.at[0] == xc_printed.at[4], "the stack is as high as before the calls");
        sym_reach("ran");
        break;
    }
    }
    return 0;
}
