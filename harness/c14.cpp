// C14: parameters called by name and by value.  Values are symbolic; the oracle is the copy rule, written out in C++.
#include "xp.h"
static char txt[3000];
static size_t len;
static void w(const char *s) { while (*s) txt[len++] = *s++; txt[len] = 0; }
#define B "_b_e_g_i_n "
#define E " _e_n_d"
#define I "_i_n_t_e_g_e_r "
#define R "_r_e_a_l "
#define P "_p_r_o_c_e_d_u_r_e "
#define V "_v_a_l_u_e "
#define A "_a_r_r_a_y "
static ll pick(const char *n, ll lo, ll hi)
{
    ll v = (ll)choose(n, (ull)(hi - lo + 1)) + lo;
    give_int(v);
    return v;
}
static void expect(const char *src, const ll *v, unsigned n, const char *label, unsigned steps = 5000, bool lib = false)
{
    CHECK(go(src, steps, lib) == R_DONE, "the program ends");
    wants(v, n, label);
    sym_reach("ran");
}
extern "C" int harness(int arg)
{
    len = 0;
    switch (arg) {
    case 0: { // Jensen's device, global controlled variable
        ll a[4], s = 0, b = 0;
        for (int k = 0; k < 4; k++) { const char n[] = {(char)('a' + k), 0}; a[k] = small(n, -8, 7); }
        ll lo = pick("lo", 1, 3), hi = pick("hi", 1, 4), c = small("c", -2, 1);
        for (ll k = lo; k <= hi; k++) s += a[k - 1];
        for (ll k = lo; k <= hi; k++) b += k + a[k - 1] + c;
        ll want[] = {s, b, lo > hi ? lo : hi + 1};
        w(B I "i, lo, hi, c; " I A "a[1:4]; " I P "sum(i, lo, hi, x); " V "lo, hi; " I "i, lo, hi, x; " B I "s; s := 0; _f_o_r i := lo _s_t_e_p 1 _u_n_t_i_l hi _d_o s := s + x; sum := s" E "; "
          "_f_o_r i := 1, 2, 3, 4 _d_o a[i] := read; lo := read; hi := read; c := read; print(sum(i, lo, hi, a[i])); print(sum(i, lo, hi, i + a[i] + c)); print(i)" E "\n");
        expect(txt, want, 3, "the sum over the elements");
        break;
    }
    case 1: { // the same with a local variable, nested sums
        ll c = small("c", -4, 3), d = small("d", -4, 3);
        ll s = 0;
        for (ll i = 1; i <= 2; i++) for (ll j = 1; j <= 3; j++) s += i * c + j * d + i;
        ll want[] = {s};
        w(B I "c, d; " I P "sum(i, n, x); " V "n; " I "i, n, x; " B I "s; s := 0; _f_o_r i := 1 _s_t_e_p 1 _u_n_t_i_l n _d_o s := s + x; sum := s" E "; "
          P "p; " B I "i, j; print(sum(i, 2, sum(j, 3, i\303\227c + j\303\227d + i)))" E "; c := read; d := read; p" E "\n");
        expect(txt, want, 1, "the double sum");
        break;
    }
    case 2: { // exchange: the subscript changes between evaluations
        ll i = small("i", 1, 3), a[4] = {0, 0, 0, 0};
        for (int k = 1; k <= 3; k++) { const char n[] = {(char)('a' + k), 0}; a[k] = small(n, 1, 3); }
        // t := i; i := a[i]; a[i] := t
        ll t = i, ni = a[sym_concretize((ull)i)];
        ll b[4] = {0, a[1], a[2], a[3]};
        b[sym_concretize((ull)ni)] = t;
        ll want[] = {ni, b[1], b[2], b[3]};
        w(B I "i; " I A "a[1:3]; " P "swap(x, y); " I "x, y; " B I "t; t := x; x := y; y := t" E "; i := read; a[1] := read; a[2] := read; a[3] := read; swap(i, a[i]); print(i); print(a[1]); print(a[2]); print(a[3])" E "\n");
        expect(txt, want, 4, "assignments through name parameters");
        break;
    }
    case 3: { // how often an actual is evaluated
        ll a = small("a", 0, 15);
        ll want[] = {a + 1 + a + 2, a + 2, 2 * (a + 3), a + 3, 7, a + 3, 7, a + 4};
        w(B I "n; " I P "f; " B "n := n + 1; f := n" E "; " P "name(x); " I "x; print(x + x); " P "value(x); " V "x; " I "x; print(x + x); " P "unused(x); " I "x; print(7); " P "unusedv(x); " V "x; " I "x; print(7); "
          "n := read; name(f); print(n); value(f); print(n); unused(f); print(n); unusedv(f); print(n)" E "\n");
        expect(txt, want, 8, "name parameters are evaluated at each use, value parameters once");
        break;
    }
    case 4: { // the same with expressions, in conditions and as controlled limit
        ll a = small("a", 0, 7);
        ll want[] = {a + 1 + 1 + (a + 2 + 1), a + 2, 2 * (a + 3 + 1), a + 3, 3, a + 6, 1, a + 7};
        w(B I "n; " I P "f; " B "n := n + 1; f := n" E "; " P "name(x); " I "x; print(x + x); " P "value(x); " V "x; " I "x; print(x + x); "
          P "limit(x); " I "x; " B I "k, m; m := 0; _f_o_r k := n + 1 _s_t_e_p 2 _u_n_t_i_l x _d_o " B "m := m + 1; _i_f m = 3 _t_h_e_n _g_o_t_o out" E "; out: print(m)" E "; "
          P "once(x); " V "x; " I "x; " B I "k, m; m := 0; _f_o_r k := x _s_t_e_p 1 _u_n_t_i_l x _d_o m := m + 1; print(m)" E "; "
          "n := read; name(f + 1); print(n); value(f + 1); print(n); limit(f + f); print(n); once(f - 1); print(n)" E "\n");
        // limit: each test evaluates f + f
        {
            ll n = a + 3, k = n + 1, m = 0;
            for (;;) { ll x = (n + 1) + (n + 2); n += 2; if (k > x) break; if (++m == 3) break; k += 2; }
            want[4] = m;
            want[5] = n;
            want[7] = n + 1;
        }
        expect(txt, want, 8, "name parameters are evaluated at each use, value parameters once");
        break;
    }
    case 5: case 6: { // assignments: to value parameters do not reach the actual, to name parameters do; all kinds of actuals
        bool value = arg == 6;
        ll a = small("a", -16, 15), b = small("b", -16, 15), d = value ? 0 : b;
        auto r = [&](ll x) { return value ? x : x + d; };
        ll want[20];
        int n = 0;
        for (int k = 0; k < 5; k++) { want[n++] = a + k + b; want[n++] = r(a + k); }
        w(B I "g, b, a; " I A "ga[1:2]; " P "p(x); ");
        if (value) w(V "x; ");
        w(I "x; " B "x := x + b; print(x)" E "; " P "q(o); " I "o; " B I "l; " I A "la[0:1]; " P "inner; " B I "z; z := 0; p(l); print(l); p(la[1]); print(la[1]); p(o); print(o)" E "; "
          "l := a + 2; la[1] := a + 3; inner" E "; a := read; b := read; g := a; p(g); print(g); ga[2] := a + 1; p(ga[2]); print(ga[2]); g := a + 4; q(g)" E "\n");
        expect(txt, want, 10, value ? "assignments to a value parameter do not reach the actual" : "assignments to a name parameter reach the actual");
        break;
    }
    case 7: case 8: case 9: case 10: { // through chains: name or value at each of the last two places
        bool v2 = (arg - 7) & 1, v3 = (arg - 7) & 2;
        ll a = small("a", -16, 15), b = small("b", -16, 15);
        // r: y := y + b; g1 := g1 + 1 in between: visible through names only
        w(B I "g, h, b; " P "r(y); ");
        if (v3) w(V "y; ");
        w(I "y; " B "g := g + 1; print(y); y := y + b; print(y)" E "; " P "q(x); ");
        if (v2) w(V "x; ");
        w(I "x; " B I "t; t := 5; r(x); print(x)" E "; " P "p(z); " I "z; " B I "s; q(z); print(z)" E "; " P "top; " B I "l; l := g; p(l); print(l)" E "; g := read; b := read; h := g; p(g); print(g); g := h; top" E "\n");
        ll want[20];
        int n = 0;
        for (int k = 0; k < 2; k++) {
            bool global = k == 0;
            ll actual = a, x = a, y = a;
            // cells: actual; x if by value; y if by value
            if (global) actual++;
            ll cx = v2 ? x : actual, cy = v3 ? y : cx;
            want[n++] = cy;
            cy += b;
            want[n++] = cy;
            if (!v3) cx = cy;
            want[n++] = cx;
            if (!v2) actual = cx;
            want[n++] = actual;
            want[n++] = actual;
        }
        expect(txt, want, 10, "parameters passed on");
        break;
    }
    case 11: { // identifiers of the actual belong to the place of the call
        ll i = small("i", -16, 15), j = small("j", -16, 15);
        ll want[] = {i + j + 100, i + j + 100 + 1000, i + j + 1, i + j};
        w(B I "i, j; " P "p(x); " I "x; " B I "i, j; i := 100; j := 1000; print(x + i); " B I "i; i := 100; print(x + i + j)" E "; i := x; print(i + 1); print(x)" E "; i := read; j := read; p(i + j)" E "\n");
        expect(txt, want, 4, "the actual keeps its meaning");
        break;
    }
    case 12: { // each activation of a recursive procedure: names refer to the calling one
        ll n = pick("n", 0, 4), v = small("v", -8, 7);
        ll s = v;
        for (ll k = 1; k <= n; k++) s += k;
        ll want[] = {s, s + 1};
        w(B I "n, v; " P "p(n, x); " V "n; " I "n, x; " B I "y; y := n; _i_f n > 0 _t_h_e_n p(n - 1, x + y) _e_l_s_e " B "print(x); v := v + 1; print(x)" E E "; n := read; v := read; p(n, v)" E "\n");
        expect(txt, want, 2, "expressions of earlier activations");
        break;
    }
    case 13: { // assignments reach the variable of the right activation
        ll n = pick("n", 0, 3), v = small("v", -8, 7);
        w(B I "n, v; " P "p(n, x); " V "n; " I "n, x; " B I "y; y := 10\303\227n; _i_f n > 0 _t_h_e_n p(n - 1, y); x := x + y + 1; print(y)" E "; n := read; v := read; p(n, v); print(v)" E "\n");
        ll y[5], want[6];
        int q = 0;
        for (ll k = 0; k <= n; k++) y[k] = 10 * k;
        for (ll k = 0; k <= n; k++) {
            if (k < n) y[k + 1] += y[k] + 1;
            else v += y[k] + 1;
            want[q++] = y[k];
        }
        want[q++] = v;
        expect(txt, want, (unsigned)q, "the variable of the calling activation");
        break;
    }
    case 14: { // man or boy
        ll k = pick("k", 0, 7);
        static const ll known[] = {1, 0, -2, 0, 1, 0, 1, -1};
        w(B R P "A(k, x1, x2, x3, x4, x5); " V "k; " I "k, x1, x2, x3, x4, x5; " B R P "B; " B "k := k - 1; B := A := A(k, B, x1, x2, x3, x4)" E "; _i_f k \342\211\244 0 _t_h_e_n A := x4 + x5 _e_l_s_e B" E "; print(A(read, 1, -1, -1, 1, 0))" E "\n");
        CHECK(go(txt, 60000) == R_DONE && xc_printed.n == 1, "the program ends");
        observe_cell("p", xc_printed.c[0]);
        CHECK(xc_printed.c[0].is_real_value() ? x1_to_ieee(xc_printed.c[0].value) == (long double)known[k] : is_int(xc_printed.c[0], known[k]), "man or boy");
        sym_reach("ran");
        break;
    }
    case 15: { // conversions: a real value parameter of an integer, an integer one of a real
        ll q = (ll)choose("quarters", 64) - 32;
        ll i = pick("i", -3, 3);
        bool neg = q < 0;
        ull m = (ull)(neg ? -q : q);
        int e = 0;
        while (m && !(m >> 39)) { m <<= 1; e++; }
        give(real_cell(m ? ref_make(neg, m, 38 - e) : 0));
        w(B I "i; " R "x; " P "pi(k); " V "k; " I "k; print(k); " P "pr(y); " V "y; " R "y; print(y); i := read; x := read; pi(x); pi(x + i); pi(i); pr(i); pr(x); pr(i - 1)" E "\n");
        auto round = [](ll v) { return v < 0 ? -((2 - v) / 4) : (v + 2) / 4; };
        CHECK(go(txt) == R_DONE && xc_printed.n == 6, "the program ends");
        want(0, round(q), "a real rounded to an integer value parameter");
        want(1, round(q + 4 * i), "a real rounded to an integer value parameter");
        want(2, i, "an integer");
        ll f[3] = {4 * i, q, 4 * (i - 1)};
        for (int k = 0; k < 3; k++) {
            const Stack_Cell &c = xc_printed.c[3 + k];
            observe_cell("r", c);
            CHECK(c.is_real_value() || c.value == 0, "a real value parameter is a real");
            CHECK((c.is_real_value() ? x1_to_ieee(c.value) : 0) * 4 == (long double)f[k], "the value of the actual");
        }
        sym_reach("ran");
        break;
    }
    case 16: { // functions as actuals for procedures, with their own surroundings
        ll y = small("y", -16, 15), k = small("k", -16, 15);
        ll want[] = {y + k, y + k + 1, y + 2, y + k + 4, y + 5};
        w(B I "k; " I P "app(f, x); " I P "f; " I "x; app := f(x); " I P "app2(f, x); " I P "f; " I "x; " B I "t; t := 77; app2 := app(f, x)" E "; " P "run(p); " P "p; " B I "z; z := 9; p" E "; "
          P "r(y); " V "y; " I "y; " B I P "s(k); " I "k; s := y + k; " P "t; " B "y := y + 1; print(y + 1)" E "; print(app(s, k)); print(app2(s, k + 1)); run(t); print(app2(s, app(s, 3) - y)); run(t)" E "; k := read; r(read)" E "\n");
        in[0] = int_cell(ref_enc_int(k)); in[1] = int_cell(ref_enc_int(y));
        want[3] = (y + 1) + (y + 1 + 3) - (y + 1);
        want[4] = y + 3;
        expect(txt, want, 5, "a procedure parameter keeps its surroundings");
        break;
    }
    case 17: { // the same through recursion: which activation
        w(B P "p(q, k); " V "k; " P "q; " I "k; " B P "s; print(k); _i_f k = 3 _t_h_e_n p(s, 2) _e_l_s_e _i_f k = 2 _t_h_e_n p(q, 1) _e_l_s_e q" E "; " P "dummy; ; " I "k; k := read; p(dummy, k); print(-1)" E "\n");
        ll k = pick("k", 1, 3);
        ll want3[] = {3, -1}, want1[] = {-1};
        // k = 3: p(s3, 2) -> p(s3, 1) -> s3 prints 3; k = 2: p(dummy, 1) -> dummy; k = 1: dummy
        if (k == 3) expect(txt, want3, 2, "the activation the procedure was passed in");
        else expect(txt, want1, 1, "the activation the procedure was passed in");
        break;
    }
    case 18: { // conditional actuals, Boolean parameters, arrays by name
        ll a = small("a", -2, 1), b = small("b", -2, 1);
        w(B I "a, b; " I A "v[1:2]; " P "p(x, t, u); " I "x; _B_o_o_l_e_a_n t; " I A "u; " B "print(x); _i_f t _t_h_e_n u[1] := x _e_l_s_e u[2] := x; a := a + 1; print(x); _i_f t _t_h_e_n u[1] := u[1] + x _e_l_s_e u[2] := u[2] + 10" E
          "; a := read; b := read; v[1] := 50; v[2] := 60; p(_i_f a < b _t_h_e_n 20 + a _e_l_s_e 30 + b, a > 0 \342\210\250 b = 0, v); print(v[1]); print(v[2])" E "\n");
        ll v1 = 50, v2 = 60, x0 = a < b ? 20 + a : 30 + b, x1 = a + 1 < b ? 20 + a + 1 : 30 + b;
        bool t0 = a > 0 || b == 0, t1 = a + 1 > 0 || b == 0;
        if (t0) v1 = x0; else v2 = x0;
        if (t1) v1 += x1; else v2 += 10;
        ll want[] = {x0, x1, v1, v2};
        expect(txt, want, 4, "conditional expressions and arrays as actuals");
        break;
    }
    case 19: { // several parameters: each formal has its own actual
        ll a = small("a", -16, 15), b = small("b", -16, 15), c = small("c", -16, 15);
        ll want[] = {a, b, c, a + b, b + 7, c, a, a + b, b + 7, c + 1};
        w(B I "a, b, c; " P "p(x, y, z, u, v); " V "x, z, v; " I "x, y, z, u, v; " B "print(x); print(y); print(z); print(u); print(v); x := x + 1; z := z + 1; v := v + 1; y := y + 1; c := c + 1; print(c - 1)" E
          "; a := read; b := read; c := read; p(a, b, c, a + b, b + 7); print(a); print(a + b - 1); print(b + 6); print(c)" E "\n");
        expect(txt, want, 10, "each formal has its own actual");
        break;
    }
    case 20: { // deep in the stack, where addresses have 16 bits
        w(B I "n, v; n := 33000; v := read; " B I A "a[1:n]; " I "y; " P "q(x); " I "x; " B "print(x); x := x + 1" E "; " P "q1(x); " I "x; print(x); " P "qq(x); " I "x; q(x); "
          P "p; " B I "z; z := v + 7; q(z); qq(z); q1(z + 1)" E "; y := v + 3; q(y); qq(y); q1(y + 1); a[2] := v; q(a[2]); p" E E "\n");
        ll v = small("v", -4, 3);
        ll want[] = {v + 3, v + 4, v + 6, v, v + 7, v + 8, v + 10};
        expect(txt, want, 7, "parameters deep in the stack", 5000);
        break;
    }
    case 21: { // read as actual: evaluated at each use, once by value; standard functions and procedures as actuals
        w(B I "k; " P "p(x); " I "x; print(x + 2\303\227x); " P "q(x, y, z); " V "y; " I "x, y, z; print(x + 2\303\227y + 4\303\227z); " I P "app(f, x); " I P "f; " I "x; app := f(x) + f(x + 1); "
          P "two(f); " P "f; " B "f; print(5); f; print(k)" E "; " P "out(f, x); " P "f; " I "x; " B "f(x); print(x + 1); f(3); print(4)" E "; "
          "k := read; p(read); q(read, read, read); q(k, read, k); print(entier(app(abs, k))); print(app(sign, k)); two(NLCR); out(print, k); out(SPACE, 2)" E "\n");
        ll v[7];
        static const char *const nm[] = {"k", "a", "b", "c", "d", "e", "f"};
        for (int i = 0; i < 7; i++) v[i] = small(nm[i], -4, 3);
        ll k = v[0];
        auto abs = [](ll x) { return x < 0 ? -x : x; };
        auto sgn = [](ll x) { return x < 0 ? -1ll : x > 0 ? 1ll : 0ll; };
        // q(read, read, read): y first, then x and z
        ll want[] = {v[1] + 2 * v[2], v[4] + 2 * v[3] + 4 * v[5], k + 2 * v[6] + 4 * k, abs(k) + abs(k + 1), sgn(k) + sgn(k + 1), 5, k, k, k + 1, 3, 4, 3, 4};
        expect(txt, want, 13, "standard functions and procedures as actuals");
        break;
    }
    }
    return 0;
}
