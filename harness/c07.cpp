// C07: integer division and exponentiation.
#include "x1.h"
static Machine M;
static const Stack_Cell BELOW = {Cell_Type::INTEGER_VALUE, 0123456};

static Outcome two(unsigned opc, const Stack_Cell &a, const Stack_Cell &b)
{
    M.cpu.stack.push(BELOW);
    M.cpu.stack.push(a);
    M.cpu.stack.push(b);
    return exec_opc(M, opc);
}
static Stack_Cell result()
{
    CHECK(M.cpu.stack.count() == 2 && same_cell(M.cpu.stack.get(0), BELOW), "two operands are replaced by one result");
    Stack_Cell r = M.cpu.stack.top();
    observe_cell("r", r);
    return r;
}
static long double ld_power(long double x, unsigned n)
{
    long double r = 1;
    for (;;) {
        if (n & 1) r *= x;
        n >>= 1;
        if (!n) return r;
        x *= x;
    }
}
static ll int_power(ll x, unsigned n)
{
    ll r = 1;
    for (;;) {
        if (n & 1) r *= x;
        n >>= 1;
        if (!n) return r;
        x *= x;
    }
}
// Distance of two reals of the same sign in units of the last place of the mantissa.
static ll key(ull r)
{
    ull m = ref_mant(r);
    return m ? (ll)(ref_exp(r) + 4096) << 39 | (ll)(m & ((1ull << 39) - 1)) : 0;
}
static bool near(const Stack_Cell &r, const Expect &e)
{
    if (r.value == e.c.value) return true;
    if ((ref_mant(r.value) == 0) & (ref_mant(e.c.value) == 0)) return true;
    ll d = key(r.value) - key(e.c.value);
    return (ref_neg(r.value) == ref_neg(e.c.value)) & (d >= -1) & (d <= 1);
}
static void expect_near(Outcome o, long double v)
{
    Expect e = expect_real(v);
    if (o != OK) { CHECK(e.o == ERROR, "a real result that fits is not an error"); sym_reach("error"); return; }
    CHECK(e.o == OK, "a real result that does not fit is reported");
    Stack_Cell r = result();
    CHECK(r.is_real_value(), "a real result");
    CHECK(near(r, e), "the i-fold product (or its reciprocal) as a real");
    sym_reach("real");
}

extern "C" int harness(int arg)
{
    if (arg == 0) {
        Stack_Cell a = sym_cell("a", 0), b = sym_cell("b", 0);
        Outcome o = two(OPC_IDI, a, b);
        bool zero = ref_int(b.value) == 0;
        CHECK((o == ERROR) == zero, "an error exactly for division by zero");
        if (o != OK) { sym_reach("error"); return 0; }
        Stack_Cell r = result();
        CHECK(r.is_int_value() && r.value <= M27, "an integer");
        int q = x1_to_integer((Word)a.value) / x1_to_integer((Word)b.value); // C division truncates toward zero
        CHECK(ref_int(r.value) == q, "the quotient truncated toward zero");
        sym_reach("quotient");
        return 0;
    }
    if (arg < 4) {
        Stack_Cell a = sym_cell("a", arg & 1), b = sym_cell("b", arg >> 1 & 1);
        CHECK(two(OPC_IDI, a, b) == ERROR, "operands that are not integers are rejected");
        sym_reach("rejected");
        return 0;
    }
    if (arg >= 100 && arg < 300) { // symbolic base, given exponent
        static const int exps[] = {0, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 6, 7, 8, 13, 25, 26, 27, 31, 32, 33, 64, 67108863, -31, -64};
        bool real = arg >= 200;
        int i = exps[arg % 100];
        Stack_Cell a = sym_cell("a", real);
        if (!real && i > 0) { // sign and magnitude apart
            ull len = sym_u64("len", 5), low = sym_u64("low", 26);
            sym_assume(len <= 26);
            len = sym_concretize(len);
            ull m = len ? 1ull << (len - 1) | (low & ((1ull << (len - 1)) - 1)) : 0;
            bool neg = sym_concretize(sym_u64("neg", 1));
            sym_assume(a.value == 0);
            a.value = neg ? ~m & M27 : m;
        }
        Outcome o = two(OPC_TTP, a, int_cell(ref_enc_int(i)));
        long double av = cell_value(a);
        if (i <= 0) {
            bool zero = real ? ref_mant(a.value) == 0 : ref_int(a.value) == 0;
            if (zero) { CHECK(o == ERROR, "zero to the power zero or less is reported"); sym_reach("zero"); return 0; }
            if (i == 0) {
                CHECK(o == OK, "a^0 is defined");
                Stack_Cell r = result();
                CHECK(r.type == a.type, "the type of a");
                CHECK(real ? r.value == ref_make(false, 1ull << 39, 1) : r.value == 1, "a^0 = 1");
                sym_reach("one");
                return 0;
            }
            expect_near(o, ld_power(1.0L / av, (unsigned)-i));
            return 0;
        }
        if (real) { expect_near(o, ld_power(av, (unsigned)i)); return 0; }
        // the largest base whose power fits
        ll bound = i == 1 ? (ll)M26 : 1;
        while (i > 1) {
            ll p = 1;
            for (int k = 0; k < i && p <= (ll)M26; k++) p *= bound + 1;
            if (p > (ll)M26) break;
            bound++;
        }
        ll v = x1_to_integer((Word)a.value);
        if (v >= -bound && v <= bound) {
            CHECK(o == OK, "an integer power that fits is not an error");
            Stack_Cell r = result();
            CHECK(r.is_int_value() && r.value <= M27, "the type of a");
            ll want = bound == 1 ? (v < 0 ? (i & 1 ? -1 : 1) : v) : int_power(v, (unsigned)i);
            CHECK(ref_int(r.value) == want, "the i-fold product");
            sym_reach("integer");
        } else if (o == OK) {
            Stack_Cell r = result();
            CHECK(r.is_real_value(), "a power that does not fit a word is not an integer");
            Expect e = expect_real(ld_power((long double)(int)v, (unsigned)i));
            CHECK(e.o == OK && near(r, e), "a power that does not fit a word is the correct real");
            sym_reach("large");
        } else
            sym_reach("reported");
        return 0;
    }
    if (arg >= 300 && arg < 400) { // given integer base, every exponent in a range
        static const int bases[] = {2, -2, 3, 7, 10, -10, 1, -1, 0, 8191, -8192, 67108863};
        int base = bases[(arg - 300) % 12];
        int i = (int)sym_concretize(sym_u64("i", 7)) - 63;
        Outcome o = two(OPC_TTP, int_cell(ref_enc_int(base)), int_cell(ref_enc_int(i)));
        if (base == 0 && i <= 0) { CHECK(o == ERROR, "zero to the power zero or less is reported"); sym_reach("done"); return 0; }
        ll p = 1;
        bool fits = true;
        for (int k = 0; k < i && fits; k++) { p *= base; fits = ref_int_fits(p); }
        if (i >= 0 && fits) {
            CHECK(o == OK, "an integer power that fits is not an error");
            Stack_Cell r = result();
            CHECK(r.is_int_value() && r.value <= M27 && ref_int(r.value) == p, "the i-fold product");
        } else {
            Expect e = expect_real(ld_power(i < 0 ? 1.0L / base : (long double)base, (unsigned)(i < 0 ? -i : i)));
            if (o == OK) {
                Stack_Cell r = result();
                CHECK(r.is_real_value(), "a power that is no integer of one word is a real");
                CHECK(e.o == OK && near(r, e), "the correct real");
            } else if (i < 0)
                CHECK(e.o == ERROR, "a result that fits is not an error");
        }
        sym_reach("done");
        return 0;
    }
    if (arg >= 400 && arg < 402) { // real exponent: where it is defined, and what is computed
        int ra = arg & 1;
        Stack_Cell a = sym_cell("a", ra), b = sym_cell("b", 1);
        Outcome o = two(OPC_TTP, a, b);
        long double x = cell_value(a), y = cell_value(b);
        if (x < 0) { CHECK(o == ERROR, "a negative base with a real exponent is reported"); sym_reach("negative"); return 0; }
        if (x == 0) {
            bool defined = y > 0;
            CHECK((o == OK) == defined, "zero to a real power is defined exactly for positive exponents");
            if (o == OK) { Stack_Cell r = result(); CHECK(r.is_real_value() && ref_mant(r.value) == 0, "a real zero"); sym_reach("zero"); }
            return 0;
        }
        Expect e = expect_real(expl(y * logl(x)));
        CHECK(o == e.o, "an error exactly when the result does not fit");
        if (o == OK) {
            Stack_Cell r = result();
            CHECK(r.is_real_value(), "a real");
            CHECK(near(r, e), "exp(r * ln(a))");
            sym_reach("power");
        }
        return 0;
    }
    if (arg >= 404) { // the order of the operands is fixed
        return 0;
    }
    return 0;
}
