// C04: one operator, its right operand reached in every way a program can name it.
#include "xp.h"
static Machine N;
static char txt[900];
static size_t len;
static void w(const char *s) { while (*s) txt[len++] = *s++; }
static const char *const opt[] = {"+", "-", "\303\227", "/"};
static const unsigned opc[] = {OPC_ADD, OPC_SUB, OPC_MUL, OPC_DIV};

extern "C" int harness(int form)
{
    bool ra = choose("left_real", 2), rb = choose("right_real", 2);
    int op = (int)choose("operator", 5); // 4: just fetch it
    const char *ta = ra ? "_r_e_a_l " : "_i_n_t_e_g_e_r ", *tb = rb ? "_r_e_a_l " : "_i_n_t_e_g_e_r ";
    Stack_Cell a = sym_cell("a", ra), b = sym_cell("b", rb);
    // Reals are normalised.  What the operation gives falls into one of the classes ordinary, overflow, division by
    // zero (C03 looks at all results; here only equality between the forms matters, which no class can hide).
    int cls = 0;
    if (op < 4 && (ra || rb || op == 3)) {
        cls = (int)choose("class", op == 3 ? 4 : 3);
        if (cls == 3) b = rb ? real_cell(choose("minus_zero", 2) ? M54 : 0) : int_cell(choose("minus_zero", 2) ? M27 : 0);
        if (ra) sym_assume(ref_mant(a.value) >> 39 && !ref_neg(a.value) && (a.value >> 26 & 1) == 0);
        else sym_assume(!(a.value >> 26 & 1));
        if (cls < 3) {
            bool neg = rb ? ref_neg(b.value) : b.value >> 26 & 1;
            sym_assume(neg == (cls == 1));
            if (rb) sym_assume(ref_mant(b.value) >> 39 && (b.value >> 26 & 1) == (ull)neg);
            else sym_assume(ref_int(b.value) != 0);
#ifndef NATIVE
            long double x = cell_value(a), y = cell_value(b), v = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
            LD d = ld_bits(v);
            sym_assume(d.neg == (cls == 1) && d.m >> 63 && (cls == 2 ? d.e > 16383 + 2100 && d.e < 0x7fff : d.e > 16383 - 2000 && d.e < 16383 + 2000));
#endif
        }
    } else if (rb) sym_assume(ref_mant(b.value) == 0 ? b.value == 0 || b.value == M54 : ref_mant(b.value) >> 39 && (b.value >> 26 & 1) == ref_neg(b.value));
    give(a);
    give(b);
    len = 0;
    auto expr = [&](const char *r) {
        w("print(");
        if (op < 4) { w("a"); w(opt[op]); }
        w(r); w("); print("); w(r); w(")");
    };
    auto proc_q = [&](bool value) {
        w("_p_r_o_c_e_d_u_r_e q(f); ");
        if (value) w("_v_a_l_u_e f; ");
        w(tb); w("f; _b_e_g_i_n "); expr("f"); w(" _e_n_d; ");
    };
    auto proc_s = [&]() { w("_p_r_o_c_e_d_u_r_e s(g); "); w(tb); w("g; q(g); "); };
    auto local_call = [&](const char *p) {
        w("_p_r_o_c_e_d_u_r_e r; _b_e_g_i_n "); w(tb); w("l; l := b; "); w(p); w("(l) _e_n_d; ");
    };
    static const char get[] = "a := read; b := read; ";
    w("_b_e_g_i_n "); w(ta); w("a; "); w(tb); w("b; ");
    switch (form) {
    case 0: w(get); expr("b"); break;
    case 1: w("_p_r_o_c_e_d_u_r_e r; _b_e_g_i_n "); w(tb); w("l; l := b; "); expr("l"); w(" _e_n_d; "); w(get); w("r"); break;
    case 2: w("_p_r_o_c_e_d_u_r_e r; _b_e_g_i_n "); w(tb); w("l; _p_r_o_c_e_d_u_r_e t; _b_e_g_i_n _i_n_t_e_g_e_r k; k := 5; "); expr("l"); w(" _e_n_d; l := b; t _e_n_d; "); w(get); w("r"); break;
    case 3: proc_q(false); w(get); w("q(b)"); break;
    case 4: proc_q(false); local_call("q"); w(get); w("r"); break;
    case 5: proc_q(false); w(get); w("q(_i_f _t_r_u_e _t_h_e_n b _e_l_s_e b)"); break;
    case 6: proc_q(false); w(get); w("_b_e_g_i_n "); w(tb); w("_a_r_r_a_y h[1:3]; h[2] := b; q(h[2]) _e_n_d"); break;
    case 7: proc_q(false); proc_s(); w(get); w("s(b)"); break;
    case 8: proc_q(false); proc_s(); local_call("s"); w(get); w("r"); break;
    case 9: proc_q(true); w(get); w("q(b)"); break;
    case 10: w(tb); w("_p_r_o_c_e_d_u_r_e g; g := b; "); w(get); expr("g"); break;
    case 11: w(get); w("_b_e_g_i_n "); w(tb); w("_a_r_r_a_y h[0:2]; h[1] := b; "); expr("h[1]"); w(" _e_n_d"); break;
    case 12: proc_q(false); proc_s(); w(get); w("s(_i_f _t_r_u_e _t_h_e_n b _e_l_s_e b)"); break;
    case 13: proc_q(false); w("_p_r_o_c_e_d_u_r_e r; _b_e_g_i_n "); w(tb); w("l; l := b; q(_i_f _t_r_u_e _t_h_e_n l _e_l_s_e l) _e_n_d; "); w(get); w("r"); break;
    case 14: proc_q(true); proc_s(); local_call("s"); w(get); w("r"); break;
    case 15: proc_q(false); w(get); w("_b_e_g_i_n "); w(tb); w("_p_r_o_c_e_d_u_r_e g; g := b; q(g) _e_n_d"); break;
    case 16: w(get); w("print("); if (op < 4) { w("a"); w(opt[op]); } w("(_i_f _t_r_u_e _t_h_e_n b _e_l_s_e b)); print(b)"); break; // the operand from the stack
    }
    w(" _e_n_d\n");
    txt[len] = 0;
    // What the order that takes both operands from the stack does.
    Stack_Cell r = b;
    bool good = true;
    if (op < 4) {
        N.cpu.stack.push(a);
        N.cpu.stack.push(b);
        good = exec_opc(N, opc[op]) == OK;
        if (good) r = N.cpu.stack.top();
    }
    Ran ran = go(txt, 300);
    CHECK((ran == R_DONE) == good && ran != R_LIMIT, "an error in every form or in none");
    if (!good) { sym_reach("error"); return 0; }
    CHECK(xc_printed.n == 2, "two values");
    observe_cell("r", xc_printed.c[0]);
    observe_cell("b", xc_printed.c[1]);
    CHECK(same_cell(xc_printed.c[0], r), "the same result and type");
    CHECK(same_cell(xc_printed.c[1], b), "the operand keeps its value");
    CHECK(xc_printed.at[0] == xc_printed.at[1], "exactly one value was on the stack");
    CHECK(nread == nin, "both values read");
    sym_reach("result");
    return 0;
}
