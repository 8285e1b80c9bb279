// C11: arrays given as value parameters.
#include "xq.h"
static const char *const ty[] = {"integer ", "real "};
static bool expected(const Stack_Cell &src, bool real, Stack_Cell &want, Stack_Cell &alt)
{
    if (src.is_real_value() == real) { want = alt = src; return true; }
    if (real) { Expect e = expect_real((long double)x1_to_integer((Word)src.value)); want = alt = e.c; return true; }
    ull m = ref_mant(src.value);
    bool neg = ref_neg(src.value);
    if (m == 0) { want = int_cell(0); alt = int_cell(M27); return true; }
    int exp = ref_exp(src.value);
    if (exp > 27) return false;
    if (exp < 0) { want = int_cell(0); alt = int_cell(M27); return true; }
    int sh = 40 - exp;
    ull q = m >> sh, rem = m & ((1ull << sh) - 1), half = 1ull << (sh - 1);
    ull up = q + (rem >= half), down = q + (rem > half);
    if (down > M26) return false;
    want = int_cell(ref_enc_int(neg ? -(ll)down : (ll)down));
    alt = up <= M26 ? int_cell(ref_enc_int(neg ? -(ll)up : (ll)up)) : int_cell(1ull << 40);
    return true;
}
static bool tie_overflow(const Stack_Cell &src) { return ref_exp(src.value) == 26 && ref_mant(src.value) == (M26 << 14 | 1 << 13); }
static Stack_Cell quarters(ll q) // q / 4 as a real
{
    bool neg = q < 0;
    ull m = (ull)(neg ? -q : q);
    int e = 0;
    while (m && !(m >> 39)) { m <<= 1; e++; }
    return real_cell(m ? ref_make(neg, m, 38 - e) : 0);
}
static Stack_Cell any(const char *n, bool real, bool wide, bool few = false)
{
    char b[8];
    snprintf(b, sizeof b, "%sh", n);
    if (!real) return int_cell(sym_u64(n, 27));
    if (!wide) return quarters(few ? (ll)choose(n, 4) * 3 - 5 : (ll)choose(n, 8) - 6);
    Stack_Cell c = real_cell(sym_u64(b, 54));
    sym_assume((ref_mant(c.value) == 0) | (int)(ref_mant(c.value) >> 39));
    return c;
}
static bool good(const Stack_Cell &got, const Stack_Cell &src, bool real)
{
    Stack_Cell a, b;
    if (!expected(src, real, a, b)) return false;
    // a number read or printed may be an integer zero where a real zero is meant
    if (real && src.is_real_value() && (src.value == 0)) return num_same(got, a) | (got.is_int_value() & (got.value == 0));
    return num_same(got, a) | num_same(got, b);
}
static Stack_Cell num(bool real, ll v) { return real ? quarters(4 * v) : int_cell(ref_enc_int(v)); }
static const ll bd[][2] = {{0, 2}, {1, 3}, {-1, 1}, {-5, -3}, {1000, 1002}, {-100000, -99998}, {8388606, 8388608}};
static void shown(unsigned p, const Stack_Cell &src, bool real, const char *label)
{
    CHECK(p < xc_printed.n, "enough numbers are printed");
    if (p >= xc_printed.n) return;
    observe_cell("p", xc_printed.c[p]);
    CHECK(good(xc_printed.c[p], src, real), label);
}
extern "C" int harness(int arg)
{
    len = 0;
    if (arg < 8) { // from | to << 1 | local << 2: one dimension, any words
        bool from = arg & 1, to = arg >> 1 & 1, local = arg >> 2 & 1;
        int b = (int)choose("bounds", 7), way = (int)choose("way", 3);
        ll lo = bd[b][0], hi = bd[b][1];
        if (from && b > 1 && way) sym_stop("enough");
        w("begin integer k, before, s, m; ");
        if (!local) { w(ty[from]); w("array Q["); wn(lo); w(":"); wn(hi); w("]; "); }
        else w("integer lo, hi; ");
        w("integer after; before := 71; after := 72; s := read; m := read; ");
        if (local) { w("lo := "); wn(lo); w("; hi := "); wn(hi); w("; begin "); w(ty[from]); w("array Q[lo:hi]; integer in; "); }
        auto loop = [&]() { w("for k := "); wn(lo); w(" step 1 until "); wn(hi); w(" do "); };
        w("procedure p(A, x); value x, A; integer x; "); w(ty[to]); w("array A; begin integer loc; loc := 5; "); loop(); w("print(A[k]); A[s] := 99; Q[m] := 98; print(A[m]); A[m] := A[m] + 1; ");
        loop(); w("print(A[k]); "); loop(); w("print(Q[k]); print(loc); print(x) end; ");
        if (local) w("in := 73; ");
        loop(); w("Q[k] := read; " MARK "p(Q, 6); " MARK); loop(); w("print(Q[k]); ");
        if (local) w("print(in) end; ");
        w("print(before); print(after) end\n");
        int s = way == 0 ? 0 : way == 1 ? 2 : 1, m = way == 0 ? 2 : way == 1 ? 1 : 1;
        give_int(lo + s);
        give_int(lo + m);
        Stack_Cell c[3];
        static const char *const nm[] = {"a", "b", "c"};
        for (int i = 0; i < 3; i++) c[i] = i == m ? num(from, 11) : any(nm[i], from, to == from, i > 0), give(c[i]);
        CHECK(go(txt) == R_DONE && xc_printed.n == 2 + 3 + 1 + 6 + 2 + 3 + 2 + (unsigned)local, "the program ends");
        want(0, -999, "marker");
        for (int i = 0; i < 3; i++) shown(1 + i, c[i], to, "every element of the copy is that of the actual array, converted");
        ll copym = s == m ? 99 : 11;
        shown(4, num(to, copym), to, "writing to the actual array does not change the copy");
        for (int i = 0; i < 3; i++) shown(5 + i, i == m ? num(to, copym + 1) : i == s ? num(to, 99) : c[i], to, "the copy is changed where it was written to");
        for (int i = 0; i < 3; i++) shown(8 + i, i == m ? num(from, 98) : c[i], from, "writing to the copy does not change the actual array");
        want(11, 5, "a local variable");
        want(12, 6, "the other parameter");
        want(13, -999, "marker");
        CHECK(xc_printed.at[0] == xc_printed.at[13], "the stack is as high as before");
        for (int i = 0; i < 3; i++) shown(14 + i, i == m ? num(from, 98) : c[i], from, "the actual array afterwards");
        unsigned p = 17;
        if (local) want(p++, 73, "a variable behind the array");
        want(p++, 71, "a variable before the array");
        want(p++, 72, "a variable behind the array");
        sym_reach("ran");
        return 0;
    }
    if (arg < 16) { // two and three dimensions; the same bounds and strides in the copy
        bool from = arg & 1, to = arg >> 1 & 1, local = arg >> 2 & 1;
        static const ll mb[][6] = {{0, 1, 1, 2, 0, 0}, {-2, -1, 5, 7, 0, 0}, {100, 101, -100, -99, 0, 0}, {0, 1, 0, 1, 0, 1}, {-1, 0, 3, 4, -9, -8}, {5, 5, -3, -2, 10, 11}};
        int b = (int)choose("bounds", 6);
        const ll *B = mb[b];
        int dims = b < 3 ? 2 : 3;
        ll z = from || to ? (ll)choose("z", 8) - 4 : small("z", -8, 7);
        if (from || to) give_int(z);
        w("begin integer z, t, i, j, k, one; ");
        auto decl = [&]() {
            w(ty[from]);
            w("array Q[");
            for (int d = 0; d < dims; d++) { if (d) w(","); wn(B[2 * d]); if (local) w("+one-one"); w(":"); wn(B[2 * d + 1]); if (local) w("*one"); }
            w("]; ");
        };
        if (!local) decl();
        w("one := 1; z := read; begin integer in; ");
        if (local) decl();
        static const char *const v[] = {"i", "j", "k"};
        auto loops = [&](bool down) {
            for (int d = 0; d < dims; d++) { w("for "); w(v[d]); w(" := "); wn(B[2 * d + down]); w(down ? " step -1 until " : " step 1 until "); wn(B[2 * d + !down]); w(" do "); }
        };
        auto at = [&](const char *a) { w(a); w(dims == 2 ? "[i, j]" : "[i, j, k]"); };
        w("procedure p(n, A); value A, n; integer n; "); w(ty[to]); w("array A; begin "); loops(true); w("print("); at("A"); w("); "); loops(false); w("begin "); at("A"); w(" := "); at("A"); w(" + n * n; n := n + 1 end; ");
        loops(true); w("print("); at("A"); w(") end; in := 73; t := 0; "); loops(false); w("begin "); at("Q"); w(" := z + t; t := t + 1 end; p(3, Q); "); loops(false); w("print("); at("Q"); w("); print(in) end end\n");
        int cells = 1;
        for (int d = 0; d < dims; d++) cells *= (int)(B[2 * d + 1] - B[2 * d] + 1);
        CHECK(go(txt) == R_DONE && xc_printed.n == (unsigned)(3 * cells + 1), "the program ends");
        unsigned p = 0;
        auto see = [&](bool real, ll x) {
            const Stack_Cell &c = xc_printed.c[p++];
            observe_cell("p", c);
            if (!real) CHECK(is_int(c, x), "every element is where it is in the actual array");
            else CHECK(num_same(c, quarters(4 * (ll)sym_concretize((ull)x))) | (c.is_int_value() & (c.value == 0) & (x == 0)), "every element is where it is in the actual array");
        };
        for (int i = cells; i--;) see(to, z + i);
        for (int i = cells; i--;) see(to, z + i + (3 + i) * (3 + i));
        for (int i = 0; i < cells; i++) see(from, z + i);
        want(p, 73, "a variable behind the array");
        sym_reach("ran");
        return 0;
    }
    switch (arg) {
    case 16: { // a copy passed on by name, by value, to recursive activations: each its own
        ll z = small("z", -8, 7), d = pick("d", 0, 3);
        w("begin integer z, d; procedure nm(B, i); integer array B; integer i; B[i] := B[i] + 1; procedure rec(A, d); value A, d; integer array A; integer d; begin integer i; i := d; nm(A, 2); if d > 0 then rec(A, d - 1); "
          "print(A[1]); print(A[2]); A[1] := A[1] + 10; if d = 1 then rec(A, 0); print(A[1]) end; "
          "procedure thru(B, d); value d; integer array B; integer d; begin rec(B, d); B[1] := B[1] + 100 end; "
          "z := read; d := read; begin integer array Q[1:2]; Q[1] := z; Q[2] := 2 * z; " MARK "rec(Q, d); " MARK "thru(Q, d); " MARK "print(Q[1]); print(Q[2]) end; " MARK "end\n");
        struct Rec { static void go(ll a1, ll a2, ll d) { a2++; if (d > 0) go(a1, a2, d - 1); ex(a1); ex(a2); a1 += 10; if (d == 1) go(a1, a2, 0); ex(a1); } };
        mark(); Rec::go(z, 2 * z, d); mark(); Rec::go(z, 2 * z, d); mark(); ex(z + 100); ex(2 * z);
        // the last mark is outside the block: one array lower
        ex(-999);
        CHECK(go(txt, 12000) == R_DONE, "the program ends");
        wants(exp_v, exp_n, "each activation has its own copy");
        CHECK(xc_printed.at[0] == xc_printed.at[xc_printed.n - 4], "the stack is as high as before");
        sym_reach("ran");
        break;
    }
    case 17: case 18: { // subscripts of a copy: any integer word, within and outside the bounds of the actual array
        bool real = arg == 18;
        int b = (int)choose("bounds", 5);
        ll lo = bd[b][0], hi = bd[b][1];
        w("begin integer i, j, t, k; "); w(ty[real]); w("array Q["); wn(lo); w(":"); wn(hi); w("]; procedure p(A); value A; "); w(ty[!real]); w("array A; begin A[i] := 20; print(1); print(A[j]) end; i := read; j := read; for k := ");
        wn(lo); w(" step 1 until "); wn(hi); w(" do Q[k] := k - ("); wn(lo); w(") + 10; p(Q); for k := "); wn(lo); w(" step 1 until "); wn(hi); w(" do print(Q[k]) end\n");
        ull wi = sym_u64("i", 27), wj = sym_u64("j", 27);
        give(int_cell(wi)), give(int_cell(wj));
        ll i = ref_int(wi), j = ref_int(wj);
        Ran r = go(txt);
        if (i < lo || i > hi) { CHECK(r == R_ERROR && xc_printed.n == 0, "storing outside the bounds of a copy is an error"); sym_reach("store outside"); break; }
        if (j < lo || j > hi) { CHECK(r == R_ERROR && xc_printed.n == 1, "fetching outside the bounds of a copy is an error"); sym_reach("fetch outside"); break; }
        CHECK(r == R_DONE && xc_printed.n == 5, "subscripts within the bounds are accepted");
        ll x = i == j ? 20 : j - lo + 10;
        if (real) want(1, x, "the element of the copy");
        else shown(1, num(true, (ll)sym_concretize((ull)x)), true, "the element of the copy");
        for (int k = 0; k < 3; k++) shown(2 + (unsigned)k, num(real, 10 + k), real, "the actual array is unchanged");
        sym_reach("within");
        break;
    }
    case 19: { // several value arrays and value parameters in any order, used together
        ll z = small("z", -8, 7), q = pick("q", 0, 1);
        w("begin integer z, q; integer array I[0:2]; real array Rr[1:2]; procedure p(a, X, b, Y, Z); value Y, b, Z, a, X; integer array X, Y; integer a, b; real array Z; begin integer array W[a:b]; integer l; l := 4; "
          "W[b] := X[a] + Y[b]; X[0] := 1000; Y[b] := W[b] + 1; Z[1] := 7; if q = 1 then begin q := 0; p(a, Y, b, X, Z) end; print(W[b]); print(X[a]); print(Y[b]); print(entier(Z[1] + Z[2])); print(l); print(a); print(b) end; "
          "z := read; q := read; I[0] := 3; I[1] := z; I[2] := 2 * z; Rr[1] := 2; Rr[2] := 5; " MARK "p(1, I, 2, I, Rr); " MARK "print(I[0]); print(I[1]); print(I[2]); print(entier(Rr[1])) end\n");
        mark();
        ll W = z + 2 * z, Y2 = W + 1;
        if (q) { // p(1, Y, 2, X, Z): X' = Y: (3, z, W + 1), Y' = X: (1000, z, 2 z)
            ll W2 = z + 2 * z;
            ex(W2); ex(z); ex(W2 + 1); ex(12); ex(4); ex(1); ex(2);
        }
        ex(W); ex(z); ex(Y2); ex(12); ex(4); ex(1); ex(2);
        mark(); ex(3); ex(z); ex(2 * z); ex(2);
        expect("several value arrays");
        break;
    }
    case 20: { // integers to reals and back through two copies; an array whose elements were not all assigned
        ll z = pick("z", -4, 3);
        w("begin integer z, k; procedure pi(A); value A; integer array A; begin for k := 1 step 1 until 3 do print(A[k]); A[2] := 7 end; procedure pr(A); value A; real array A; begin A[1] := A[1] + 0.25; A[2] := A[2] - 0.25; A[3] := A[3] * 1.5; pi(A); pi(A) end; "
          "procedure some(A, B); value A, B; integer array A, B; print(A[4] + B[4]); z := read; begin integer array Q[1:3], U[-3:7]; Q[1] := z; Q[2] := z; Q[3] := z; U[4] := z; " MARK "pr(Q); pi(Q); some(U, U); " MARK "print(U[4]); begin real array Q[1:3]; integer array V[3:5]; Q[1] := z + 0.75; Q[2] := z; Q[3] := z; V[4] := 1; some(U, V); pi(Q) end end end\n");
        auto half = [](ll v) { return v < 0 ? -((1 - v) / 2) : (v + 1) / 2; }; // v / 2 rounded
        auto quarter = [](ll v) { return v < 0 ? -((2 - v) / 4) : (v + 2) / 4; };
        mark();
        for (int i = 0; i < 2; i++) { ex(z); ex(z); ex(half(3 * z)); }
        ex(z); ex(z); ex(z);
        ex(2 * z);
        mark(); ex(z);
        ex(z + 1);
        ex(quarter(4 * z + 3)); ex(z); ex(z);
        expect("conversions there and back");
        break;
    }
    case 21: { // one element, any real to an integer array: rounded or an error
        Stack_Cell c = any("x", true, true);
        give(c);
        w("begin real array Q[5:5]; procedure p(A); value A; integer array A; print(A[5]); Q[5] := read; p(Q); print(1) end\n");
        Ran r = go(txt);
        Stack_Cell a, b;
        if (!expected(c, false, a, b)) { CHECK(r == R_ERROR, "a number that is no integer word is an error"); sym_reach("error"); break; }
        if (r != R_DONE) { CHECK(tie_overflow(c), "a number that fits is no error"); break; }
        CHECK(xc_printed.n == 2, "the program ends");
        shown(0, c, false, "the element rounded");
        sym_reach("ran");
        break;
    }
    }
    return 0;
}
