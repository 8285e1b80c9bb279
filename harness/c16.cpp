// C16: goto statements, labels and switches, in compiled programs compared with a C++ model of each.
#include "xq.h"
extern "C" int harness(int arg)
{
    len = 0;
    switch (arg) {
    case 0: { // every index of a switch whose elements are labels, conditional and other switches
        ll n = pick("n", 1, 5), m = small("m", -8, 7), c = small("c", -8, 7);
        w("begin integer n, m, c, k; switch s := a, if m > c then b else c1, c1, t[n], d; switch t := d, s[n - 1], a, b, if m = c then s[1] else if m < c then t[1] else s[3]; "
          "n := read; m := read; c := read; k := 0; " MARK "goto s[n]; print(8); "
          "a: print(1); goto e; b: print(2); goto e; c1: print(3); goto e; d: print(4); e: " MARK "k := k + 1; if k = 1 then goto t[n]; print(m) end\n");
        auto S = [&](ll i) -> int { return i == 1 ? 1 : i == 2 ? (m > c ? 2 : 3) : i == 3 ? 3 : i == 5 ? 4 : n == 1 ? 4 : n == 4 ? 2 : 99; };
        // s[4] = t[n] with n = 4: b.  t[n]: n = 1: d; 2: s[1]; 3: a; 4: b; 5: by m, c
        mark(); ex(S(n)); mark();
        ex(n == 1 ? 4 : n == 2 ? 1 : n == 3 ? 1 : n == 4 ? 2 : m == c ? 1 : m < c ? 4 : 3);
        mark(); ex(m);
        expect("the switch element at the index");
        break;
    }
    case 1: { // switches and labels as parameters, out of procedures and blocks with arrays
        ll n = pick("n", 1, 3), r = pick("r", 1, 3), z = small("z", -8, 7);
        w("begin integer n, r, z, i; procedure p(sw, l); switch sw; label l; begin integer k; k := 1; if n = 1 then goto sw[n] else if n = 2 then goto sw[k + 1] else goto l end; "
          "procedure q(l); label l; begin integer array A[1:5]; A[3] := 7; p(s, l) end; switch s := a, b; "
          "n := read; r := read; z := read; i := 0; " MARK "again: i := i + 1; begin real array Z[1:20]; integer m; m := n; Z[n] := 5; q(c); print(66) end; "
          "a: print(1 + z); goto e; b: print(2 + z); goto e; c: print(3 + z); e: " MARK "if i < r then goto again; print(i); print(z) end\n");
        mark();
        for (int i = 0; i < r; i++) { ex(n + z); mark(); }
        ex(r); ex(z);
        expect("labels and switches given as parameters");
        break;
    }
    case 2: { // switch elements given as label parameters are evaluated where they were written
        ll n = pick("n", 1, 3), z = small("z", -8, 7);
        w("begin integer i, j, z, t; switch s := a, b, c; procedure p(l); label l; begin integer i, j; i := 2; j := i; goto l end; "
          "procedure q(k); integer k; begin integer z, j; z := 5; j := 1; p(s[k]); print(77) end; procedure q2(k); value k; integer k; begin integer z; z := 5; p(s[k]); print(77) end; "
          "procedure q3(sw, k); switch sw; integer k; begin integer i; i := 1; p(sw[k]); print(77) end; procedure q4(l); label l; begin integer s; s := 3; p(l) end; "
          "i := read; j := i; z := read; t := 0; " MARK
          "x: t := t + 1; if t = 1 then q(i) else if t = 2 then q2(j) else if t = 3 then q3(s, i) else if t = 4 then begin integer i; i := j; q(i) end else if t = 5 then q4(s[j]) "
          "else if t = 6 then begin integer array L[1:4]; L[2] := j; q4(s[L[2]]) end else if t = 7 then p(if j = 1 then a else s[j]) else goto e; print(88); "
          "a: print(1 + z); goto f; b: print(2 + z); goto f; c: print(3 + z); f: " MARK "print(i); goto x; e: " MARK "print(j) end\n");
        mark();
        for (int t = 1; t <= 7; t++) { ex(n + z); mark(); ex(n); }
        mark(); ex(n);
        expect("switch elements given as label parameters");
        break;
    }
    case 3: { // out of a function in the middle of an expression in the middle of for statements
        ll lim = pick("lim", 1, 3), z = small("z", -8, 7), top = pick("top", 2, 3);
        w("begin integer i, k, lim, z, top, r; integer procedure f(x); value x; integer x; begin integer y; y := x; if x > lim then goto out; f := y + z end; "
          "lim := read; z := read; top := read; r := 0; " MARK "again: k := 0; for i := 1 step 1 until top do begin integer j; for j := 1, 2 do begin k := k + 1; print(f(j) + 2 * f(i)) end end; i := 100; "
          "out: " MARK "print(k); print(i); r := r + 1; if r = 1 then goto again; begin real array Q[1:3]; Q[1] := 1; k := 5; goto inn; print(88); inn: print(k); Q[2] := 4; print(entier(Q[1])) end; " MARK "print(z) end\n");
        mark();
        for (int r = 0; r < 2; r++) {
            ll k = 0, ri = 100;
            for (ll i = 1; i <= top && ri == 100; i++)
                for (ll j = 1; j <= 2; j++) {
                    k++;
                    if (j > lim || i > lim) { ri = i; break; }
                    ex(3 * z + j + 2 * i);
                }
            mark(); ex(k); ex(ri);
        }
        ex(5); ex(1); mark(); ex(z);
        expect("goto out of a function within an expression within for statements");
        break;
    }
    case 4: { // labels of particular activations of a recursive procedure
        ll n = pick("n", 0, 5), h = pick("h", 0, 5), z = small("z", -8, 7);
        w("begin integer n, h, z; procedure rec(k, l); value k; integer k; label l; begin integer d; d := k + z; if k = 0 then goto l; if k = h then rec(k - 1, hh) else rec(k - 1, l); print(66); hh: print(d) end; "
          "n := read; h := read; z := read; " MARK "rec(n, fin); " MARK "print(5); goto e; fin: " MARK "print(-1); e: print(z) end\n");
        mark();
        if (n >= h && h > 0) {
            ex(h + z);
            for (ll k = h + 1; k <= n; k++) { ex(66); ex(k + z); }
            mark(); ex(5);
        } else { mark(); ex(-1); }
        ex(z);
        expect("label of an activation of a recursive procedure");
        break;
    }
    case 5: { // out of recursive procedures with local arrays, the arrays of the others intact
        ll k = pick("k", 2, 4), d = pick("d", 1, 4), z = small("z", -8, 7);
        w("begin integer k, d, z; procedure p(k, v); value k, v; integer k, v; begin integer array A[1:k]; procedure q(j); value j; integer j; begin integer array B[-j:j]; B[j] := j; B[-j] := v; if j = 1 then goto l; q(j - 1); print(44) end; "
          "A[k] := v; A[1] := k; if k > 2 then p(k - 1, v + 1); A[1] := A[1] + 1; q(d); print(33); l: print(A[k]); print(A[1]) end; "
          "k := read; d := read; z := read; " MARK "p(k, z); " MARK "print(z) end\n");
        mark();
        for (ll j = 2; j <= k; j++) { ex(z + k - j); ex(j + 1); }
        mark(); ex(z);
        expect("goto out of recursive procedures with local arrays");
        break;
    }
    case 6: { // from every depth of nested blocks to every enclosing one
        ll to = pick("to", 0, 4), z = small("z", -8, 7), c = pick("c", 1, 3);
        w("begin integer to, z, c, n, a0; procedure jump(x); value x; integer x; begin integer q; q := x; n := n + 1 end; "
          "to := read; z := read; c := read; n := 0; a0 := z; "
          "l0: " MARK "begin integer a1; integer array A[1:c]; a1 := a0 + 1; A[c] := a1; "
          "l1: begin integer a2; real array Bb[0:c, 1:2]; a2 := A[c] + 1; Bb[c, 2] := a2; "
          "l2: begin integer a3; integer array Cc[1:c + 1]; a3 := a2 + 1; Cc[c + 1] := a3; "
          "l3: begin integer a4; a4 := a3 + 1; "
          "l4: jump(a4); if n > 3 then begin print(a4); goto fin end; A[c] := A[c] + 10; a2 := a2 + 100; "
          "if to = 0 then goto l0 else if to = 1 then goto l1 else if to = 2 then goto l2 else if to = 3 then goto l3 else goto l4 end end end end; "
          "fin: " MARK "print(a0); print(n) end\n");
        // a model of the blocks
        ll n = 0, a0 = z, a1 = 0, a2 = 0, a3 = 0, a4 = 0, A = 0;
        int at = 0;
        while (true) {
            if (at == 0) { mark(); a1 = a0 + 1; A = a1; }
            if (at <= 1) a2 = A + 1;
            if (at <= 2) a3 = a2 + 1;
            if (at <= 3) a4 = a3 + 1;
            n++;
            if (n > 3) { ex(a4); break; }
            A += 10; a2 += 100;
            at = (int)to;
        }
        mark(); ex(a0); ex(n);
        expect("goto to an enclosing block");
        break;
    }
    case 7: { // conditional designational expressions, nested and in parentheses, with conditions on symbolic values
        ll a = small("a", -8, 7), b = small("b", -8, 7), n = pick("n", 1, 2);
        w("begin integer a, b, n, k; boolean p; switch s := l1, l2; switch s2 := f; a := read; b := read; n := read; k := 0; p := a < b; " MARK
          "goto if a = b then s[n] else (if p and a > 0 then l3 else (s[3 - n])); print(7); "
          "l1: k := k + 1; l2: k := k + 10; l3: k := k + 100; " MARK "print(k); if not p then goto (l4); goto if a > 3 then (if b > 5 then l4 else l5) else if b = 0 then l5 else s2[1]; print(7); "
          "l4: print(4); goto f; l5: print(5); f: " MARK "print(a) end\n");
        mark();
        bool p = a < b;
        int lab = a == b ? (int)n : p && a > 0 ? 3 : 3 - (int)n;
        mark(); ex(lab == 1 ? 111 : lab == 2 ? 110 : 100);
        int l2 = !p ? 4 : a > 3 ? (b > 5 ? 4 : 5) : b == 0 ? 5 : 0;
        if (l2) ex(l2);
        mark(); ex(a);
        expect("conditional designational expressions");
        break;
    }
    case 8: { // the same label name in different blocks and procedures, forwards and backwards
        ll x = pick("x", 1, 3), z = small("z", -8, 7);
        w("begin integer x, z, n; procedure p(x); value x; integer x; begin l: x := x - 1; n := n + 1; if x > 0 then goto l; begin integer q; q := z; goto l; print(77); l: print(q) end; m: end; "
          "x := read; z := read; n := 0; " MARK "goto l; print(77); m: p(x); goto k; l: print(1); begin integer n; n := 0; l: n := n + 1; if n < x then goto l; begin integer dd; l: n := n + 100 end; print(n); if z > 0 then goto m; m: n := n + z; print(n) end; goto m; "
          "k: " MARK "print(n); begin integer dd; goto k; print(77); k: print(2) end; if n < 2 * x then begin p(1); n := n + 50; goto k end; " MARK "print(z) end\n");
        mark(); ex(1); ex(x + 100); ex(x + 100 + z); ex(z);
        ll n = x;
        while (true) {
            mark(); ex(n); ex(2);
            if (n >= 2 * x) break;
            ex(z); n += 51;
        }
        mark(); ex(z);
        expect("labels of the same name");
        break;
    }
    case 9: { // out of actual parameters called by name, and out of subscripts, bounds, for lists and conditions
        ll way = pick("way", 1, 8), z = small("z", -8, 7);
        w("begin integer way, z, i, t; integer array A[1:5]; integer procedure g(x); value x; integer x; begin integer loc; loc := z; g := x; if way < 9 then goto out end; "
          "procedure byname(x, y); integer x, y; begin integer array L[1:3]; L[2] := 1; y := L[2] + x; print(77) end; procedure byvalue(x, y); value x; integer x, y; begin print(77) end; "
          "way := read; z := read; t := 0; for i := 1 step 1 until 5 do A[i] := i; " MARK
          "again: t := t + 1; if way = 1 then byname(g(1), i) else if way = 2 then byvalue(z + g(1), i) else if way = 3 then A[g(2)] := 5 else if way = 4 then i := z + A[1] * A[g(3)] "
          "else if way = 5 then begin integer array C[1:g(4)]; print(77) end else if way = 6 then for i := 1 step g(1) until 3 do print(77) else if way = 7 then begin if A[2] + g(1) > 0 then print(77) else print(78) end "
          "else byname(i, A[g(1)]); print(88); out: " MARK "print(t); if t < 3 then goto again; for i := 1 step 1 until 5 do print(A[i]); print(z) end\n");
        mark();
        for (int t = 1; t <= 3; t++) { mark(); ex(t); }
        for (int i = 1; i <= 5; i++) ex(i);
        ex(z);
        expect("goto out of expressions in all places");
        break;
    }
    case 10: { // labels through chains of procedures at different levels, used by an inner procedure
        ll way = pick("way", 0, 3), z = small("z", -8, 7);
        w("begin integer way, z, v; procedure p1(l, m); label l, m; begin integer a1; procedure p2(k, n); value n; integer n; label k; begin integer a2; procedure p3(j); label j; begin integer a3; a3 := 3; "
          "if way = 0 then goto j else if way = 1 then goto k else if way = 2 then goto l else goto m end; a2 := 2; if n > 0 then p2(k, n - 1) else begin p3(in2); print(77) end; in2: v := v + a2 + a1 end; "
          "a1 := z; p2(in1, 2); print(v); goto e1; in1: print(a1 + 1000); e1: end; way := read; z := read; v := 0; " MARK
          "begin integer b; b := z + 1; p1(in0, out); print(b); goto e; in0: print(b + 2000); e: end; " MARK "goto f; out: " MARK "print(3000); f: print(z) end\n");
        mark();
        if (way == 0) { ex(6 + 3 * z); ex(z + 1); }
        else if (way == 1) { ex(z + 1000); ex(z + 1); }
        else if (way == 2) ex(z + 2001);
        if (way < 3) mark();
        else { mark(); ex(3000); }
        ex(z);
        expect("labels through chains of procedures");
        break;
    }
    case 11: { // switches local to procedures and blocks: elements evaluated where the switch is declared, in that activation
        ll k = pick("k", 1, 3), z = small("z", -8, 7);
        w("begin integer n, z, k; procedure use(sw, n); switch sw; integer n; begin integer k, z; k := 3; z := 99; goto sw[n]; print(77) end; "
          "procedure p(d); value d; integer d; begin integer k; switch s := la, t[k], lc; switch t := lb, lc, la; k := d; if d = 2 then p(1); use(s, d); "
          "la: print(1 + z); goto e; lb: print(2 + z); goto e; lc: print(3 + z); e: print(k) end; "
          "k := read; z := read; n := 1; " MARK "p(k); " MARK "begin switch s := x, if z > 0 then x else y; n := n + 1; use(s, n); print(77); x: print(10); y: print(20) end; " MARK "print(z); print(k) end\n");
        mark();
        auto once = [&](ll d) { ll r = d == 1 ? 1 : d == 3 ? 3 : 3; ex(r + z); ex(d); };
        // s[2] = t[k] with k = 2: lc
        if (k == 2) once(1);
        once(k);
        mark();
        if (z > 0) ex(10);
        ex(20); mark(); ex(z); ex(k);
        expect("switches of procedures and blocks");
        break;
    }
    case 12: { // a real index is rounded
        ll t = pick("t", 0, 9);
        w("begin integer t; real x; switch s := a, b, c; t := read; x := t; x := 0.75 + x / 4; " MARK "goto s[x]; print(7); a: print(1); goto e; b: print(2); goto e; c: print(3); e: " MARK "print(t) end\n");
        // 0.75 + t / 4 rounded: halves exactly at 1.5 and 2.5 are rounded up
        ll r = (t + 3 + 2) / 4;
        mark(); ex(r); mark(); ex(t);
        expect("real switch index");
        break;
    }
    case 13: { // many times: the store used does not grow
        ll n = pick("n", 1, 12), z = small("z", -8, 7);
        w("begin integer n, i, z; procedure p(l, d); value d; integer d; label l; begin integer array A[1:10]; procedure q; begin real x; x := 1; goto l end; for A[1] := 1 step 1 until 5 do if d = 0 then q else p(l, d - 1) end; "
          "n := read; z := read; i := 0; " MARK "r: " MARK "i := i + 1; p(m, 2); print(77); m: if i < n then goto r; " MARK "print(i); print(z) end\n");
        mark();
        for (ll i = 0; i < n; i++) mark();
        mark(); ex(n); ex(z);
        expect("leaving many times", 20000);
        break;
    }
    case 14: { // after a goto the display is that of the label's block: variables and procedures of every level
        ll to = pick("to", 1, 3), z = small("z", -8, 7), cc = pick("c", 0, 1);
        w("begin integer to, z, g, c; procedure s0; g := g + 1; procedure a(x); value x; integer x; begin integer va; procedure sa; va := va + 10; "
          "procedure b(y); value y; integer y; begin integer vb; procedure sb; vb := vb + 100; procedure cx(t); value t; integer t; begin integer vc; vc := 7; if c = 1 and t = 0 then begin c := 0; a(z + 5) end; "
          "if t > 0 then cx(t - 1) else if to = 1 then goto la else if to = 2 then goto lb else goto lc; lc: vc := vc + t; print(vc); sb end; "
          "vb := y; cx(2); lb: sb; sa; print(vb) end; va := x; b(x + 1); la: sa; s0; print(va) end; "
          "to := read; z := read; c := read; g := 0; " MARK "a(z); " MARK "print(g) end\n");
        mark();
        auto one = [&](ll x) {
            ll va = x, vb = x + 1;
            if (to == 3) { ex(7); ex(8); ex(9); vb += 300; }
            if (to >= 2) { vb += 100; va += 10; ex(vb); }
            va += 10; ex(va);
        };
        // with c = 1 the innermost activation first calls a from within
        if (cc) one(z + 5);
        one(z);
        mark(); ex(1 + cc);
        expect("the label's block is current again");
        break;
    }
    }
    return 0;
}
