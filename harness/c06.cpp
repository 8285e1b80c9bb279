// C06: Boolean operators (arg 0..5), conditional orders (arg 16 + 2*order + variant).
#include "x1.h"
static Machine M, N;
static Word bool_word(bool v) { return v ? X1_TRUE : X1_FALSE; }

static const struct { unsigned op; int kind; } orders[] = {
    // kind: 0 immediate address, 1 memory address, 2 memory address + B, else a fixed address
    {000220, 0}, {000244, 077774}, {000320, 0}, {000350, 077777}, {000400, 061}, {000400, 062}, {000600, 1}, {000640, 077774},
    {001200, 1}, {001220, 0}, {001240, 2}, {001600, 1}, {003620, 0}, {004020, 0}, {004200, 1}, {004220, 0}, {004240, 2},
    {004600, 1}, {005100, 1}, {005220, 0}, {005404, 0}, {006714, 3}, {007700, 3},
    {0, OPC_ADD}, {0, OPC_TIRS}, {0, OPC_TRRS}, {0, OPC_TIAS}, {0, OPC_TRAS}, {0, OPC_NON}, {0, OPC_SSI}, {0, OPC_STOP}, {0, OPC_NEG}, {0, OPC_LES}, {0, OPC_CAC},
};
static const int NORD = sizeof orders / sizeof orders[0];

static bool ordinary(ull a) { return a < 077771 || a == 077777; }

static void setup(Machine &m, ull a, ull b, ull s, bool c, const Stack_Cell &x, const Stack_Cell &y)
{
    m.cpu.set_a((Word)a);
    m.cpu.set_b((unsigned)b);
    m.cpu.set_s((Word)s);
    m.cpu.set_c(c);
    m.cpu.stack.push(x);
    m.cpu.stack.push(y);
}
static void block(Machine &m) // a frame, so that orders working on the current block have one
{
    m.cpu.set_a(0);
    m.cpu.set_b(02000);
    CHECK(exec_opc(m, OPC_ETMP) == OK, "frame");
    m.cpu.set_b(1);
    CHECK(exec_opc(m, OPC_SCC) == OK, "frame");
}

extern "C" int harness(int arg)
{
    if (arg < 5) {
        static const unsigned opc[] = {OPC_NON, OPC_AND, OPC_OR, OPC_IMP, OPC_QVL};
        bool a = sym_u64("a", 1), b = sym_u64("b", 1);
        Stack_Cell below = int_cell(sym_u64("below", 27));
        M.cpu.stack.push(below);
        if (arg) M.cpu.stack.push_int_value(bool_word(a));
        M.cpu.stack.push_int_value(bool_word(b));
        CHECK(exec_opc(M, opc[arg]) == OK, "a Boolean operator never fails on Booleans");
        bool want = arg == 0 ? !b : arg == 1 ? a && b : arg == 2 ? a || b : arg == 3 ? !a || b : a == b;
        CHECK(M.cpu.stack.count() == 2 && same_cell(M.cpu.stack.get(0), below), "the operands are consumed, nothing else");
        CHECK(same_cell(M.cpu.stack.top(), int_cell(bool_word(want))), "truth table, canonical result");
        sym_reach("bool");
        return 0;
    }
    if (arg == 5) { // Boolean -> condition -> conditional jumps
        bool a = sym_u64("a", 1), old = sym_u64("old", 1);
        Stack_Cell below = int_cell(sym_u64("below", 27));
        ull n = sym_u64("n", 15);
        M.cpu.stack.push(below);
        M.cpu.stack.push_int_value(bool_word(a));
        M.cpu.set_c(old);
        CHECK(exec_opc(M, OPC_CAC) == OK, "CAC");
        CHECK(M.cpu.get_c() == a, "the condition is the Boolean");
        CHECK(M.cpu.stack.count() == 1 && same_cell(M.cpu.stack.get(0), below), "the Boolean is consumed");
        CHECK(exec(M, 0200, (05220u | 2) << 15 | (unsigned)n) == OK, "conditional jump");
        CHECK(M.cpu.get_ot() == (a ? n : 0201), "Y jump taken exactly when true");
        CHECK(exec(M, 0200, (05220u | 3) << 15 | (unsigned)n) == OK, "conditional jump");
        CHECK(M.cpu.get_ot() == (a ? 0201 : n), "N jump taken exactly when false");
        CHECK(M.cpu.get_c() == a, "a jump keeps the condition");
        sym_reach(a ? "true" : "false");
        return 0;
    }
    int k = (arg - 16) / 2, no = (arg - 16) & 1;
    if (k >= NORD) return 0;
    unsigned op = orders[k].op;
    int kind = orders[k].kind;
    ull a = sym_u64("A", 27), b = sym_u64("B", 15), s = sym_u64("S", 27), n = sym_u64("n", 15);
    bool c = sym_u64("C", 1);
    Stack_Cell x = int_cell(sym_u64("x", 27)), y = int_cell(sym_u64("y", 27));
    sym_memory(M, "mem");
    sym_memory(N, "mem");
    if (op == 0) { sym_assume(ordinary(b) && ordinary(b + 1) && b != 0500 && b != 0477); n = kind; }
    else if (kind == 1) sym_assume(ordinary(n) && n != 0500);
    else if (kind == 2) { sym_assume(ordinary((n + b) & 077777) && ((n + b) & 077777) != 0500); if (op == 004240) sym_assume(n != 5); }
    else if (kind == 3) sym_assume(n < 0100 && (n & 037) <= 27);
    else if (kind) n = kind;
    if (op == 000400) { sym_assume(a <= 3); block(M); block(N); }
    setup(M, a, b, s, c, x, y);
    setup(N, a, b, s, c, x, y);
    ull p = sym_u64("p", 15);
    sym_assume(ordinary(p) && p != 0500);
    Word before = M.mem_load(p);
    unsigned cnt = M.cpu.stack.count();
    // M: the conditional order; N: the plain order
    Outcome om = exec(M, 0500, op << 15 | (no ? 3u : 2u) << 15 | (unsigned)n);
    bool go = c != (bool)no;
    if (!go) {
        sym_reach("skipped");
        CHECK(om == OK, "a skipped order does not fail or stop");
        CHECK(M.cpu.get_ot() == 0501, "a skipped order is passed over");
        CHECK(M.cpu.get_a() == a && M.cpu.get_b() == b && M.cpu.get_s() == s && M.cpu.get_c() == c, "a skipped order leaves the registers");
        CHECK(M.cpu.stack.count() == cnt && same_cell(M.cpu.stack.get(cnt - 1), y) && same_cell(M.cpu.stack.get(cnt - 2), x), "a skipped order leaves the stack");
        CHECK(M.mem_load(p) == before, "a skipped order leaves memory");
        return 0;
    }
    Outcome on = exec(N, 0500, op << 15 | (unsigned)n);
    if (on == ERROR) { CHECK(om == ERROR, "an executed order fails as the plain one"); return 0; }
    sym_reach("executed");
    CHECK(om == on, "an executed order ends as the plain one");
    CHECK(M.cpu.get_ot() == N.cpu.get_ot(), "order counter");
    CHECK(M.cpu.get_a() == N.cpu.get_a() && M.cpu.get_b() == N.cpu.get_b() && M.cpu.get_s() == N.cpu.get_s() && M.cpu.get_c() == N.cpu.get_c(), "registers");
    unsigned cm = M.cpu.stack.count();
    CHECK(cm == N.cpu.stack.count(), "stack height");
    CHECK(same_cell(M.cpu.stack.get(cm - 1), N.cpu.stack.get(cm - 1)), "stack top");
    CHECK(M.mem_load(p) == N.mem_load(p), "memory");
    return 0;
}
