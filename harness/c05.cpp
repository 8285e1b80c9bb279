// C05: relations.  arg = 2*(left is real) + (right is real)
#include "x1.h"
static Machine M;
static int rel(unsigned opc, const Stack_Cell &a, const Stack_Cell &b, const Stack_Cell &below)
{
    while (M.cpu.stack.count() > 0) M.cpu.stack.pop();
    M.cpu.stack.push(below);
    M.cpu.stack.push(a);
    M.cpu.stack.push(b);
    CHECK(exec_opc(M, opc) == OK, "a relation never fails");
    CHECK(M.cpu.stack.count() == 2 && same_cell(M.cpu.stack.get(0), below), "both operands are consumed, nothing else");
    Stack_Cell r = M.cpu.stack.top();
    CHECK(r.is_int_value() && (r.value == X1_TRUE || r.value == X1_FALSE), "the result is a Boolean");
    return r.value == X1_TRUE;
}
// Order of two numbers, from their bits: -1, 0, 1.
struct Mag { bool neg; ull m; int e; };         // m normalised to 40 bits, value m * 2^(e-40); m = 0: zero
static Mag mag(const Stack_Cell &c)
{
    Mag r;
    ull m;
    int e;
    if (c.is_int_value()) {
        ll v = ref_int(c.value);
        r.neg = v < 0;
        m = (ull)(v < 0 ? -v : v);
        e = 40;
    } else {
        r.neg = ref_neg(c.value);
        m = ref_mant(c.value);
        e = ref_exp(c.value);
    }
    int lz = m ? __builtin_clzll(m) - 24 : 0;
    r.m = m << lz;
    r.e = m ? e - lz : -100000;
    if (!m) r.neg = false;
    return r;
}
extern "C" int harness(int arg)
{
    Stack_Cell a = sym_cell("a", arg >> 1 & 1), b = sym_cell("b", arg & 1), below = int_cell(sym_u64("below", 27));
    Mag x = mag(a), y = mag(b);
    bool mag_lt = (x.e < y.e) | ((x.e == y.e) & (x.m < y.m)), mag_eq = (x.e == y.e) & (x.m == y.m);
    bool eq = mag_eq & (x.neg == y.neg);
    bool lt = (x.neg & !y.neg) | (!x.neg & !y.neg & mag_lt) | (x.neg & y.neg & !mag_lt & !mag_eq);
    bool gt = !lt & !eq;
    int l = rel(OPC_LES, a, b, below), le = rel(OPC_MST, a, b, below), q = rel(OPC_EQU, a, b, below), ge = rel(OPC_LST, a, b, below),
        g = rel(OPC_MOR, a, b, below), ne = rel(OPC_UQU, a, b, below);
    CHECK((l != 0) == lt, "<");
    CHECK((q != 0) == eq, "=");
    CHECK((g != 0) == gt, ">");
    CHECK((le != 0) == !gt, "<= is the complement of >");
    CHECK((ge != 0) == !lt, ">= is the complement of <");
    CHECK((ne != 0) == !eq, "/= is the complement of =");
    if (l) sym_reach("less");
    if (q) sym_reach("equal");
    if (g) sym_reach("more");
    return 0;
}
