// C08: assignment.  arg = dest (bit 0: real, bit 1: local) | src real << 2 | STA << 3; 16: chains of two.
#include "x1.h"
static Machine M;
static const unsigned NLOC = 4;

static unsigned make_frame(Machine &m) // a procedure block of level 1 with NLOC local cells; returns the index of the first
{
    m.cpu.stack.push(int_cell(0765));
    m.cpu.set_a(0);
    m.cpu.set_b(02000);
    CHECK(exec_opc(m, OPC_ETMP) == OK, "frame");
    m.cpu.set_b(1);
    CHECK(exec_opc(m, OPC_SCC) == OK, "frame");
    unsigned base = m.cpu.stack.count();
    m.cpu.set_a(NLOC);
    CHECK(exec(m, 0100, 000400 << 15 | 061) == OK && exec(m, 0100, 000400 << 15 | 062) == OK, "locals");
    CHECK(m.cpu.stack.count() == base + NLOC, "locals");
    return base;
}
static bool ordinary(ull a) { return a < 077771 || a == 077777; }

// What must be in a variable of the given type afterwards; false: overflow has to be reported.
static bool expected(const Stack_Cell &src, bool real, Stack_Cell &want, Stack_Cell &alt)
{
    if (src.is_real_value() == real) { want = alt = src; return true; }
    if (real) { Expect e = expect_real((long double)x1_to_integer((Word)src.value)); want = alt = e.c; return true; }
    ull m = ref_mant(src.value);
    bool neg = ref_neg(src.value);
    if (m == 0) { want = int_cell(0); alt = int_cell(M27); return true; }
    int exp = ref_exp(src.value);
    if (exp > 27) return false;
    if (exp < 0) { want = int_cell(0); alt = int_cell(M27); return true; }
    int sh = 40 - exp;
    ull q = m >> sh, rem = m & ((1ull << sh) - 1), half = 1ull << (sh - 1);
    ull up = q + (rem >= half), down = q + (rem > half);
    if (down > M26) return false;
    want = int_cell(ref_enc_int(neg ? -(ll)down : (ll)down));
    alt = up <= M26 ? int_cell(ref_enc_int(neg ? -(ll)up : (ll)up)) : int_cell(1ull << 40);
    return true;
}
static bool tie_overflow(const Stack_Cell &src) // halfway above the largest integer: either outcome
{
    ull m = ref_mant(src.value);
    return ref_exp(src.value) == 26 && m == (M26 << 14 | 1 << 13);
}
struct Dest { bool real, local; ull addr; unsigned cell; };
static Dest destination(int kind, const char *name)
{
    Dest d;
    d.real = kind & 1;
    d.local = kind >> 1 & 1;
    d.addr = 0; d.cell = 0;
    if (d.local) { d.cell = (unsigned)sym_u64(name, 2); }
    else {
        d.addr = sym_u64(name, 15);
        sym_assume(ordinary(d.addr));
        if (d.real) sym_assume(ordinary(d.addr + 1) && d.addr != 077777);
        sym_assume(d.addr != 0100 && d.addr != 077); // where the harness puts its orders
    }
    return d;
}
static const unsigned ARG0 = 5;
static void take_address(const Dest &d)
{
    if (d.local) {
        M.cpu.set_s((ARG0 + d.cell) * 32 + 1);
        CHECK(exec_opc(M, d.real ? OPC_TRAD : OPC_TIAD) == OK, "address of a local variable");
    } else {
        M.cpu.set_b((unsigned)d.addr);
        CHECK(exec_opc(M, d.real ? OPC_TRAS : OPC_TIAS) == OK, "address of a global variable");
    }
}
static Stack_Cell fetch(const Dest &d)
{
    if (d.local) {
        M.cpu.set_s((ARG0 + d.cell) * 32 + 1);
        CHECK(exec_opc(M, d.real ? OPC_TRRD : OPC_TIRD) == OK, "a local variable can be fetched");
    } else {
        M.cpu.set_b((unsigned)d.addr);
        CHECK(exec_opc(M, d.real ? OPC_TRRS : OPC_TIRS) == OK, "a global variable can be fetched");
    }
    return M.cpu.stack.pop();
}
static bool part_of(const Dest &d, ull p) { return !d.local && (p == d.addr || (d.real && p == d.addr + 1)); }

static Stack_Cell source(bool real)
{
    Stack_Cell c = sym_cell("src", real);
    if (real) sym_assume((ref_mant(c.value) == 0) | (int)(ref_mant(c.value) >> 39)); // normalised
    return c;
}

extern "C" int harness(int arg)
{
    sym_memory(M, "mem");
    unsigned base = make_frame(M);
    Stack_Cell old[NLOC];
    for (unsigned i = 0; i < NLOC; i++) {
        static const char *n[] = {"l0", "l1", "l2", "l3"};
        // locals 0 and 2 hold integers, 1 and 3 reals
        old[i] = sym_cell(n[i], i & 1);
        M.cpu.stack.get(base + i) = old[i];
    }
    ull p = sym_u64("p", 15);
    sym_assume(p != 0100 && ordinary(p));
    Word before = M.mem_load((unsigned)p);
    bool chain = arg >= 16;
    bool srcreal = arg >> 2 & 1, sta = arg >> 3 & 1;
    if (!chain) {
        Dest d = destination(arg & 3, "d");
        Stack_Cell src = source(srcreal), want, alt;
        take_address(d);
        unsigned h = M.cpu.stack.count();
        CHECK(h == base + NLOC + 1, "one address");
        M.cpu.stack.push(src);
        bool fits = expected(src, d.real, want, alt);
        Outcome o = exec_opc(M, sta ? OPC_STA : OPC_ST);
        if (!fits) { CHECK(o == ERROR, "an integer that does not fit is reported"); sym_reach("error"); }
        else if (o != OK) { CHECK(srcreal && !d.real && tie_overflow(src), "an assignment that fits is not an error"); }
        if (o == OK) {
            CHECK(M.cpu.stack.count() == h - 1 + sta, "operands consumed");
            if (sta) { CHECK(same_cell(M.cpu.stack.top(), src), "the same right-hand value is left"); M.cpu.stack.pop(); }
            Stack_Cell got = fetch(d);
            observe_cell("got", got);
            CHECK(num_same(got, want) || num_same(got, alt), "the variable holds the converted value");
            if (srcreal == d.real) CHECK(got.value == src.value, "the same type is stored unchanged");
            sym_reach("stored");
        }
        CHECK(part_of(d, p) || M.mem_load((unsigned)p) == before, "no other memory word changes");
        for (unsigned i = 0; i < NLOC; i++)
            CHECK((d.local && d.cell == i && o == OK) || same_cell(M.cpu.stack.get(base + i), old[i]), "no other stack cell changes");
        CHECK(same_cell(M.cpu.stack.get(0), int_cell(0765)), "no cell below changes");
        return 0;
    }
    // x := y := value, through all pairs of destinations
    Dest d1 = destination(arg & 3, "d1"), d2 = destination(arg >> 2 & 3, "d2");
    bool same = d1.local && d2.local ? d1.cell == d2.cell : !d1.local && !d2.local && (part_of(d1, d2.addr) || part_of(d1, d2.addr + d2.real));
    sym_assume(!same);
    Stack_Cell src = source(arg >> 5 & 1), w1, a1, w2, a2;
    take_address(d1);
    take_address(d2);
    M.cpu.stack.push(src);
    bool f1 = expected(src, d1.real, w1, a1), f2 = expected(src, d2.real, w2, a2);
    Outcome o = exec_opc(M, OPC_STA);
    if (o == OK) o = exec_opc(M, OPC_ST);
    if (!f1 || !f2) { CHECK(o == ERROR, "an integer that does not fit is reported"); return 0; }
    if (o != OK) { CHECK(src.is_real_value() && (!d1.real || !d2.real) && tie_overflow(src), "an assignment that fits is not an error"); return 0; }
    Stack_Cell g1 = fetch(d1), g2 = fetch(d2);
    CHECK(num_same(g1, w1) || num_same(g1, a1), "first variable");
    CHECK(num_same(g2, w2) || num_same(g2, a2), "second variable");
    CHECK(part_of(d1, p) || part_of(d2, p) || M.mem_load((unsigned)p) == before, "no other memory word changes");
    CHECK(M.cpu.stack.count() == base + NLOC, "operands consumed");
    sym_reach("chain");
    return 0;
}
