// C03: + - * / on every pair of numbers.  arg = op*4 + 2*(left is real) + (right is real)
#include "x1.h"
static Machine M;
extern "C" int harness(int arg)
{
    int op = arg >> 2;
    Stack_Cell a = sym_cell("a", arg >> 1 & 1), b = sym_cell("b", arg & 1), below = int_cell(sym_u64("below", 27));
    M.cpu.stack.push(below);
    M.cpu.stack.push(a);
    M.cpu.stack.push(b);
    Expect e = expect_op(op, a, b);
    Outcome o = exec_opc(M, OPC_ADD + op);
    CHECK(o == e.o, "an error is reported exactly when the result does not exist or does not fit");
    if (o != OK) { sym_reach("error"); return 0; }
    sym_reach("result");
    CHECK(M.cpu.stack.count() == 2, "two operands are replaced by one result");
    Stack_Cell r = M.cpu.stack.top();
    CHECK(r.type == e.c.type, "the type of the result");
    CHECK(num_same(r, e.c), "the value of the result");
    CHECK(same_cell(M.cpu.stack.get(0), below), "the cell below the operands is unchanged");
    observe_cell("r", r);
    return 0;
}
