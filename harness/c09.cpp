// C09: abs, sign, entier, unary minus, and the arguments handed to the mathematical functions.
// arg = function | real << 4
#include "x1.h"
static Machine M;

extern "C" int harness(int arg)
{
    static const unsigned opc[] = {OPC_abs, OPC_sign, OPC_entier, OPC_NEG, OPC_sqrt, OPC_ln, OPC_sin, OPC_cos, OPC_arctan, OPC_exp};
    int f = arg & 15;
    bool real = arg >> 4 & 1;
    if (f > 9) return 0;
    Stack_Cell below = int_cell(sym_u64("below", 27)), a = sym_cell("a", real);
    if (real) sym_assume((ref_mant(a.value) == 0) | (int)(ref_mant(a.value) >> 39)); // normalised
    M.cpu.stack.push(below);
    M.cpu.stack.push(a);
    Outcome o = exec_opc(M, opc[f]);
    long double v = cell_value(a);
    bool neg = v < 0, zero = v == 0;
    if (o == OK) {
        CHECK(M.cpu.stack.count() == 2 && same_cell(M.cpu.stack.get(0), below), "the argument is replaced by one result");
        observe_cell("r", M.cpu.stack.top());
    }
    Stack_Cell r = o == OK ? M.cpu.stack.top() : int_cell(0);
    switch (f) {
    case 0:
        CHECK(o == OK, "abs never fails");
        CHECK(r.is_real_value(), "abs is a real");
        CHECK(real ? r.value == (ref_neg(a.value) ? ~a.value & M54 : a.value) : num_same(r, expect_real(neg ? -v : v).c), "the same number without its sign");
        sym_reach(neg ? "negative" : "positive");
        break;
    case 1:
        CHECK(o == OK && r.is_int_value() && r.value <= M27, "sign is an integer");
        CHECK(ref_int(r.value) == (zero ? 0 : neg ? -1 : 1), "-1, 0 or 1");
        sym_reach(neg ? "negative" : zero ? "zero" : "positive");
        break;
    case 2: {
        if (!real) { CHECK(o == OK && r.is_int_value() && ref_int(r.value) == ref_int(a.value), "entier of an integer"); sym_reach("entier"); break; }
        ull m = ref_mant(a.value);
        bool n = ref_neg(a.value);
        int e = ref_exp(a.value);
        if (m == 0) { CHECK(o == OK && r.is_int_value() && ref_int(r.value) == 0, "entier of zero"); break; }
        if (e > 27) { CHECK(o == ERROR, "an integer that does not fit is reported"); sym_reach("error"); break; }
        ll want;
        if (e <= 0) want = n ? -1 : 0;
        else {
            ull q = m >> (40 - e), rem = m & ((1ull << (40 - e)) - 1);
            want = n ? -(ll)(q + (rem != 0)) : (ll)q;
        }
        bool fits = ref_int_fits(want);
        CHECK((o == OK) == fits, "an error exactly when no word can hold it");
        if (o == OK) { CHECK(r.is_int_value() && r.value <= M27, "an integer"); CHECK(ref_int(r.value) == want, "the largest integer not exceeding the argument"); sym_reach("entier"); }
        else sym_reach("error");
        break;
    }
    case 3:
        CHECK(o == OK && r.type == a.type, "unary minus keeps the type");
        CHECK(r.value == (~a.value & (real ? M54 : M27)), "all bits complemented");
        sym_reach("minus");
        break;
    case 4:
        if (neg) { CHECK(o == ERROR, "square root of a negative number is reported"); sym_reach("error"); break; }
        { Expect e = expect_real(sqrtl(v));
          CHECK(o == e.o, "square root of a non-negative number is defined");
          if (o == OK) { CHECK(r.is_real_value() && num_same(r, e.c), "the square root as a real"); sym_reach("ok"); } }
        break;
    case 5:
        if (v <= 0) { CHECK(o == ERROR, "logarithm of a non-positive number is reported"); sym_reach("error"); break; }
        { Expect e = expect_real(logl(v));
          CHECK(o == e.o, "logarithm of a positive number is defined");
          if (o == OK) { CHECK(num_same(r, e.c), "the logarithm as a real"); sym_reach("ok"); } }
        break;
    default: {
        long double y = f == 6 ? sinl(v) : f == 7 ? cosl(v) : f == 8 ? atanl(v) : expl(v);
        Expect e = expect_real(y);
        CHECK(o == e.o, "an error exactly when the result does not fit");
        if (o == OK) { CHECK(r.is_real_value() && num_same(r, e.c), "the function value as a real"); sym_reach("ok"); }
    }
    }
    return 0;
}
