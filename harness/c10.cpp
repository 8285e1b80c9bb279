// C10: arrays.  Subscripts are whole symbolic words; bounds are concrete (a menu) or small symbolic integers.
#include "xp.h"
static char txt[2000];
static size_t len;
static void w(const char *s) { while (*s) txt[len++] = *s++; txt[len] = 0; }
static void wn(ll v)
{
    char b[24];
    int i = 0;
    if (v < 0) { w("-"); v = -v; }
    do { b[i++] = (char)('0' + v % 10); v /= 10; } while (v);
    while (i) { txt[len++] = b[--i]; txt[len] = 0; }
}
static ll word(const char *n) // any integer word, minus zero included
{
    ull v = sym_u64(n, 27);
    give(int_cell(v));
    return ref_int(v);
}
static const ll bounds[][2] = {{0, 3}, {3, 6}, {-2, 1}, {-9, -6}, {100, 103}, {32766, 32769}, {100000, 100003}, {-100000, -99997}, {1048575, 1048578}, {-1048576, -1048573}, {8388607, 8388610}};
enum { NB = sizeof bounds / sizeof *bounds };
static const char *const ty[] = {"_i_n_t_e_g_e_r ", "_r_e_a_l "};
// A global array has its bounds written in the program; a local one gets them in variables.
static ll lo, hi;
static int n; // elements
static void one_dim(bool local, bool real, bool symbolic)
{
    if (symbolic) {
        lo = (ll)choose("lo", 8) - 4;
        give_int(lo);
        ll k = (ll)choose("size", 4);
        give_int(k);
        hi = lo + k;
    } else {
        int b = (int)choose("bounds", NB);
        lo = bounds[b][0], hi = bounds[b][1];
    }
    w("_b_e_g_i_n _i_n_t_e_g_e_r before, i, j, k, lo, hi, t; ");
    if (!local) { w(ty[real]); w("_a_r_r_a_y a["); wn(lo); w(":"); wn(hi); w("]; "); }
    w("_i_n_t_e_g_e_r after; before := 71; after := 72; ");
    if (symbolic) w("lo := read; k := read; hi := lo + k; ");
    else { w("lo := "); wn(lo); w("; hi := "); wn(hi); w("; "); }
    w("i := read; j := read; ");
    if (local) { w("_b_e_g_i_n _i_n_t_e_g_e_r in; "); w(ty[real]); w("_a_r_r_a_y a[lo:hi]; _i_n_t_e_g_e_r in2; in := 73; in2 := 74; "); }
    w("_f_o_r k := lo _s_t_e_p 1 _u_n_t_i_l hi _d_o a[k] := k - lo + 10; a[i] := 20; print(1); ");
    w("_f_o_r k := lo _s_t_e_p 1 _u_n_t_i_l hi _d_o print(a[k]); print(a[j]); ");
    if (local) w("print(in); print(in2) _e_n_d; ");
    w("print(before); print(after) _e_n_d\n");
}
static bool is_num(const Stack_Cell &c, bool real, ll v)
{
    if (!real) return is_int(c, v);
    // a small integer as a real
    ull m = (ull)v;
    int e = 0;
    while (!(m >> 39)) { m <<= 1; e++; }
    return c.is_real_value() & (c.value == ref_make(false, m, 40 - e));
}
static void check_one(bool local, bool real)
{
    ll i = word("i"), j = word("j");
    Ran r = go(txt, 3000);
    if (i < lo || i > hi) {
        CHECK(r == R_ERROR && xc_printed.n == 0, "storing outside the bounds is an error");
        sym_reach("store outside");
        return;
    }
    n = (int)sym_concretize((ull)(hi - lo + 1));
    if (j < lo || j > hi) {
        CHECK(r == R_ERROR && xc_printed.n == 1u + n, "fetching outside the bounds is an error");
        sym_reach("fetch outside");
        return;
    }
    CHECK(r == R_DONE && xc_printed.n == 1u + n + 1 + (local ? 4 : 2), "subscripts within the bounds are accepted");
    unsigned p = 1;
    for (int k = 0; k < n; k++, p++) {
        observe_cell("e", xc_printed.c[p]);
        CHECK(is_num(xc_printed.c[p], real, lo + k == i ? 20 : 10 + k), "exactly the element stored to has changed");
    }
    observe_cell("f", xc_printed.c[p]);
    ll v = j - lo;
    if (real) v = (ll)sym_concretize((ull)v);
    CHECK(is_num(xc_printed.c[p], real, lo + v == i ? 20 : 10 + v), "the element fetched");
    p++;
    if (local) { want(p++, 73, "the variable before"); want(p++, 74, "the variable behind"); }
    want(p++, 71, "the variable before");
    want(p++, 72, "the variable behind");
    sym_reach("within");
}
// More dimensions: the bounds are concrete, the subscripts symbolic.
static const ll md[][6] = {{0, 1, 0, 2, 0, 0}, {-1, 0, 2, 4, 0, 0}, {3, 4, -5, -3, 0, 0}, {-7, -5, -1, 0, 0, 0}, {1000, 1001, 100, 102, 0, 0}, {-3000, -2999, 2000, 2001, 0, 0},
                           {0, 1, 0, 1, 0, 1}, {-1, 0, 1, 2, -2, -1}, {5, 5, -3, -2, 100, 101}, {70, 71, 0, 0, -90, -89}};
static void multi(bool local, bool real, int dims, bool wild)
{
    int b = wild ? (int)choose("bounds", 2) * (dims == 2 ? 4 : 2) + (dims == 2 ? 1 : 7) : (int)choose("bounds", dims == 2 ? 6 : 4) + (dims == 2 ? 0 : 6);
    const ll *B = md[b];
    static const char *const v[] = {"i", "j", "k"}, *const u[] = {"p", "q", "r"};
    w("_b_e_g_i_n _i_n_t_e_g_e_r before, i, j, k, p, q, r, t, one; ");
    auto decl = [&]() {
        w(ty[real]); w("_a_r_r_a_y a[");
        for (int d = 0; d < dims; d++) {
            if (d) w(",");
            wn(B[2 * d]);
            if (local) w("+one-1");
            w(":");
            wn(B[2 * d + 1]);
            if (local) w("\303\227one");
        }
        w("]; ");
    };
    if (!local) decl();
    w("_i_n_t_e_g_e_r after; before := 71; after := 72; one := 1; ");
    for (int d = 0; d < dims; d++) { w(v[d]); w(" := read; "); }
    for (int d = 0; d < dims; d++) { w(u[d]); w(" := read; "); }
    if (local) { w("_b_e_g_i_n _i_n_t_e_g_e_r in; "); decl(); w("in := 73; "); }
    auto at = [&](const char *const *s) { w("a["); for (int d = 0; d < dims; d++) { if (d) w(","); w(s[d]); } w("]"); };
    auto loops = [&]() {
        static const char *const l[] = {"x", "y", "z"};
        for (int d = 0; d < dims; d++) {
            w("_f_o_r "); w(l[d]); w(" := "); wn(B[2 * d]); w(" _s_t_e_p 1 _u_n_t_i_l "); wn(B[2 * d + 1]); w(" _d_o ");
        }
        w("_b_e_g_i_n ");
    };
    static const char *const xyz[] = {"x", "y", "z"};
    w("_b_e_g_i_n _i_n_t_e_g_e_r x, y, z; t := 10; ");
    loops(); at(xyz); w(" := t; t := t + 1 _e_n_d; ");
    at(v); w(" := 99; print(1); ");
    loops(); w("print("); at(xyz); w(") _e_n_d; ");
    w("print("); at(u); w(") _e_n_d; ");
    if (local) w("print(in) _e_n_d; ");
    w("print(before); print(after) _e_n_d\n");

    int way = wild ? (int)choose("wild", 2 * dims) + 1 : 0; // which subscript may be any word
    ll s[6], ext[3], lin[2] = {0, 0};
    bool inb[2] = {true, true};
    static const char *const nm[] = {"i", "j", "k", "p", "q", "r"};
    for (int d = 0; d < dims; d++) ext[d] = B[2 * d + 1] - B[2 * d] + 1;
    for (int k = 0; k < 2; k++) {
        ll stride = 1;
        for (int d = 0; d < dims; d++) {
            int x = 3 * k + d;
            if (wild && way == 1 + x) s[x] = word(nm[x]);
            else s[x] = small(nm[x], B[2 * d], B[2 * d + 1]);
            inb[k] &= s[x] >= B[2 * d] && s[x] <= B[2 * d + 1];
            lin[k] += (s[x] - B[2 * d]) * stride; // any order of the elements is as good; see below
            stride *= ext[d];
        }
    }
    ll total = 1;
    for (int d = 0; d < dims; d++) total *= ext[d];
    Ran r = go(txt, 4000);
    if (wild) {
        // Only subscripts whose cell lies outside the array have to be refused.
        for (int k = 0; k < 2; k++)
            if (lin[k] < 0 || lin[k] >= total) {
                CHECK(r == R_ERROR && xc_printed.n == (k ? 1u + (unsigned)total : 0), "a subscript list that leads outside the array is an error");
                sym_reach("outside");
                return;
            }
    }
    if (!wild || (inb[0] && inb[1])) {
        CHECK(r == R_DONE && xc_printed.n == 1u + total + 1 + (local ? 3 : 2), "subscripts within the bounds are accepted");
        unsigned p = 1;
        ll want_f = 0;
        // the program's loops run with the last subscript fastest
        for (ll e = 0; e < total; e++, p++) {
            ll f = e, x[3];
            for (int d = dims - 1; d >= 0; d--) { x[d] = B[2 * d] + f % ext[d]; f /= ext[d]; }
            bool stored = true, fetched = true;
            for (int d = 0; d < dims; d++) { stored &= s[d] == x[d]; fetched &= s[3 + d] == x[d]; }
            observe_cell("e", xc_printed.c[p]);
            if (stored) CHECK(is_num(xc_printed.c[p], real, 99), "the element stored to");
            else CHECK(is_num(xc_printed.c[p], real, 10 + e), "no other element has changed");
            if (fetched) want_f = stored ? 99 : 10 + e;
        }
        observe_cell("f", xc_printed.c[p]);
        CHECK(is_num(xc_printed.c[p], real, want_f), "the element fetched");
        p++;
        if (local) want(p++, 73, "the variable inside");
        want(p++, 71, "the variable before");
        want(p++, 72, "the variable behind");
        sym_reach("within");
    }
}
extern "C" int harness(int arg)
{
    len = 0;
    if (arg < 8) { // local? real? symbolic bounds?
        bool local = arg & 1, real = arg & 2, symbolic = arg & 4;
        one_dim(local, real, symbolic && local);
        check_one(local, real);
        return 0;
    }
    if (arg < 24) {
        bool local = arg & 1, real = arg & 2;
        multi(local, real, arg & 4 ? 3 : 2, arg >= 16);
        return 0;
    }
    switch (arg) {
    case 24: case 25: case 26: case 27: { // several arrays declared together and separately
        bool local = arg & 1, real = arg & 2;
        w("_b_e_g_i_n _i_n_t_e_g_e_r i, j, k, l, m, n, x; ");
        const char *d = local ? "i := read; j := read; k := read; l := read; m := read; n := 2; _b_e_g_i_n " : "";
        w(d);
        w(ty[real]); w(local ? "_a_r_r_a_y a, b[1:n], c[-n:n-3], d[n:4]; " : "_a_r_r_a_y a, b[1:2], c[-2:-1], d[2:4]; ");
        w(ty[!real]); w(local ? "_a_r_r_a_y e[n:3,0:1]; " : "_a_r_r_a_y e[2:3,0:1]; ");
        if (!local) w("i := read; j := read; k := read; l := read; m := read; ");
        w("_f_o_r x := 1, 2 _d_o _b_e_g_i_n a[x] := x; b[x] := 10 + x; c[-x] := 20 + x; d[x+1] := 30 + x; d[x+2] := 40 + x; e[x+1,0] := 50 + x; e[x+1,1] := 60 + x _e_n_d; ");
        w("a[i] := 101; b[j] := 102; c[k] := 103; d[l] := 104; e[m,m-2] := 105; ");
        w("_f_o_r x := 1, 2 _d_o _b_e_g_i_n print(a[x]); print(b[x]); print(c[-x]); print(d[x+1]); print(d[x+2]); print(e[x+1,0]); print(e[x+1,1]) _e_n_d ");
        if (local) w("_e_n_d ");
        w("_e_n_d\n");
        ll i = small("i", 1, 2), j = small("j", 1, 2), k = small("k", -2, -1), l = small("l", 2, 4), m = small("m", 2, 3);
        CHECK(go(txt, 3000) == R_DONE && xc_printed.n == 14, "the program runs");
        for (ll x = 1; x <= 2; x++) {
            ll v[7] = {i == x ? 101 : x, j == x ? 102 : 10 + x, k == -x ? 103 : 20 + x, l == x + 1 ? 104 : 30 + x, l == x + 2 ? 104 : x == 1 ? 32 : 42,
                       m == x + 1 && m == 2 ? 105 : 50 + x, m == x + 1 && m == 3 ? 105 : 60 + x};
            for (int q = 0; q < 7; q++) {
                const Stack_Cell &c = xc_printed.c[7 * (x - 1) + q];
                ll e = v[q];
                bool rl = q < 5 ? real : !real;
                if (rl) e = (ll)sym_concretize((ull)e);
                observe_cell("e", c);
                CHECK(is_num(c, rl, e), "each array has its own elements");
            }
        }
        sym_reach("several");
        break;
    }
    case 28: { // real subscripts are rounded
        w("_b_e_g_i_n _i_n_t_e_g_e_r k; _r_e_a_l x; _i_n_t_e_g_e_r _a_r_r_a_y a[-3:4]; _f_o_r k := -3 _s_t_e_p 1 _u_n_t_i_l 4 _d_o a[k] := k; x := read; print(a[x]) _e_n_d\n");
        ll q = (ll)choose("quarters", 64) - 32; // x = q / 4
        bool neg = q < 0;
        ull m = (ull)(neg ? -q : q);
        int e = 0;
        while (m && !(m >> 39)) { m <<= 1; e++; }
        give(real_cell(m ? ref_make(neg, m, 38 - e) : 0));
        Ran r = go(txt);
        ll v = neg ? -((2 - q) / 4) : (q + 2) / 4; // the nearest one
        if (v < -3 || v > 4) CHECK(r == R_ERROR, "outside the bounds");
        else {
            CHECK(r == R_DONE && xc_printed.n == 1, "the program runs");
            want(0, v, "the element at the nearest integer");
            sym_reach("rounded");
        }
        break;
    }
    case 29: { // each activation of a recursive procedure has its own array, and the storage is given back
        w("_b_e_g_i_n _i_n_t_e_g_e_r n, s; _p_r_o_c_e_d_u_r_e p(k); _v_a_l_u_e k; _i_n_t_e_g_e_r k; _b_e_g_i_n _i_n_t_e_g_e_r _a_r_r_a_y a[k:k+2]; a[k] := k; a[k+1] := 10\303\227k; a[k+2] := 100\303\227k; "
          "_i_f k > 0 _t_h_e_n p(k-1); print(a[k]); print(a[k+1]); print(a[k+2]) _e_n_d; n := read; print(-1); p(n); print(-1); p(n); print(-1) _e_n_d\n");
        ll k = (ll)choose("n", 4);
        give_int(k);
        CHECK(go(txt, 4000) == R_DONE, "the program runs");
        unsigned p = 0, at = xc_printed.at[0];
        want(p++, -1, "mark");
        for (int t = 0; t < 2; t++) {
            for (ll q = 0; q <= k; q++) { want(p++, q, "first"); want(p++, 10 * q, "second"); want(p++, 100 * q, "third"); }
            CHECK(xc_printed.at[p] == at, "the storage is given back");
            want(p++, -1, "mark");
        }
        CHECK(p == xc_printed.n, "nothing else is printed");
        sym_reach("recursion");
        break;
    }
    case 30: { // a formal array; the wrong number of subscripts is an error
        w("_b_e_g_i_n _i_n_t_e_g_e_r i, j; _i_n_t_e_g_e_r _a_r_r_a_y a[2:4], b[0:1,-1:1]; "
          "_p_r_o_c_e_d_u_r_e one(x); _i_n_t_e_g_e_r _a_r_r_a_y x; _b_e_g_i_n x[i] := x[i] + 5; print(1) _e_n_d; _p_r_o_c_e_d_u_r_e two(x); _i_n_t_e_g_e_r _a_r_r_a_y x; _b_e_g_i_n x[i,j] := 6; print(2) _e_n_d; "
          "a[2] := 32; a[3] := 33; a[4] := 34; _f_o_r i := 0, 1 _d_o _f_o_r j := -1, 0, 1 _d_o b[i,j] := 10\303\227i + j; i := read; j := read; ");
        int which = (int)choose("call", 4);
        static const char *const call[] = {"one(a)", "two(b)", "one(b)", "two(a)"};
        w(call[which]);
        w("; print(a[2]); print(a[3]); print(a[4]); _f_o_r i := 0, 1 _d_o _f_o_r j := -1, 0, 1 _d_o print(b[i,j]) _e_n_d\n");
        ll i = which == 1 ? small("i", 0, 1) : small("i", 2, 4), j = small("j", -1, 1);
        Ran r = go(txt, 3000);
        if (which >= 2) {
            CHECK(r == R_ERROR && xc_printed.n == 0, "the wrong number of subscripts is an error");
            sym_reach("number");
            break;
        }
        CHECK(r == R_DONE && xc_printed.n == 10, "the program runs");
        want(0, which + 1, "the call");
        for (int k = 0; k < 3; k++) want(1 + k, 32 + k + (which == 0 && i == 2 + k ? 5 : 0), "the elements of the actual array");
        for (int k = 0; k < 6; k++) want(4 + k, which == 1 && i == k / 3 && j == k % 3 - 1 ? 6 : 10 * (k / 3) + k % 3 - 1, "the elements of the actual array");
        sym_reach("formal");
        break;
    }
    case 31: { // assignment to elements and of elements converts; evaluation of subscripts first
        w("_b_e_g_i_n _i_n_t_e_g_e_r i; _i_n_t_e_g_e_r _a_r_r_a_y a[0:3]; _r_e_a_l _a_r_r_a_y b[0:3]; _i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e next; _b_e_g_i_n i := i + 1; next := i _e_n_d; "
          "_f_o_r i := 0, 1, 2, 3 _d_o _b_e_g_i_n a[i] := i; b[i] := 0 _e_n_d; i := read; a[i] := i := read; a[i] := a[next] + 10 \303\227 a[next]; b[0] := a[0]; b[3] := a[3]; a[2] := b[3]; "
          "print(i); _f_o_r i := 0, 1, 2, 3 _d_o print(a[i]); print(b[0]); print(b[3]) _e_n_d\n");
        ll i = small("i", 0, 3), j = small("j", 0, 1);
        CHECK(go(txt, 3000) == R_DONE && xc_printed.n == 7, "the program runs");
        ll a[4] = {0, 1, 2, 3}, v;
        i = (ll)sym_concretize((ull)i);
        j = (ll)sym_concretize((ull)j);
        a[i] = j;
        v = a[j + 1] + 10 * a[j + 2];
        a[j] = v;
        want(0, j + 2, "the controlled subscript");
        ll b0 = a[0], b3 = a[3];
        a[2] = b3;
        for (int k = 0; k < 4; k++) want(1 + k, a[k], "the elements");
        CHECK(b0 ? is_num(xc_printed.c[5], true, b0) : xc_printed.c[5].value == 0, "converted to real");
        CHECK(b3 ? is_num(xc_printed.c[6], true, b3) : xc_printed.c[6].value == 0, "converted to real");
        sym_reach("assignments");
        break;
    }
    }
    return 0;
}
