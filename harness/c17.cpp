// C17: one routine or order from a state with arbitrary contents: it ends, with a result or a reported error, and
// touches nothing outside the machine (every access is checked by the engine).
// arg = routine + 1000 * situation (0: no block entered, 1: inside a block, 2: a block left with a bad link,
// 3: inside an implicit subroutine); 900: any machine order; 901..: the stack grows up to its limit.
#include "x1.h"
#include <time.h>
#include <sys/time.h>
static Machine M;
// The clock and the random numbers are C21's.
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
static struct tm loc;
extern "C" struct tm *localtime(const time_t *) noexcept { return &loc; }
extern "C" struct tm *localtime_r(const time_t *, struct tm *r) noexcept { *r = loc; return r; }
static bool ordinary(ull a) { return (a & 077777) < 077750; }
static const unsigned LIMIT = 0x100000;
static std::istringstream input("12.5 7 'x'\n");
static std::ostringstream output;

static ull choose(const char *n, ull count)
{
    ull v = sym_u64(n, 5);
    sym_assume(v < count);
    return sym_concretize(v);
}
// What the routines do with numbers is decided by C01-C09, C18 and C19 for all numbers: real numbers here are all the
// same, and routines whose operands are all numbers are left to those.
static int operands(int opc)
{
    switch (opc) {
    case OPC_FIXT: case OPC_ABSFIXT: return 3;
    case OPC_TTP: case OPC_IDI: case OPC_FLOT: return 2;
    case OPC_SPACE: return 1;
    }
    return opc >= OPC_ADRD && opc <= OPC_DIF ? 1 : opc >= OPC_ADD && opc <= OPC_UQU ? 2 : opc >= OPC_abs && opc <= OPC_entier ? 1 : 0;
}
static bool dynamic(int opc) // S is a dynamic address
{
    switch (opc) {
    case OPC_TRAD: case OPC_TIAD: case OPC_TFA: case OPC_TRRD: case OPC_TIRD: case OPC_TFR: case OPC_FTMR: case OPC_FTMP: case OPC_LAP: case OPC_VAP: case OPC_RVA: case OPC_IVA:
    case OPC_ADRD: case OPC_ADID: case OPC_ADF: case OPC_SURD: case OPC_SUID: case OPC_SUF: case OPC_MURD: case OPC_MUID: case OPC_MUF: case OPC_DIRD: case OPC_DIID: case OPC_DIF: return true;
    }
    return false;
}
static unsigned deepest(int opc)
{
    switch (opc) {
    case OPC_FIXT: case OPC_ABSFIXT: case OPC_FLOT: case OPC_FOR6: case OPC_FOR7: case OPC_LAP: case OPC_VAP: case OPC_RSF: case OPC_ISF: return 3;
    }
    return dynamic(opc) ? 1 : 2;
}
static bool sized(int opc) { return opc == OPC_LAP || opc == OPC_VAP || opc == OPC_IND; } // loops as long as the operands say, products
static Stack_Cell a_cell(unsigned i, int opc)
{
    static const char *T[] = {"t0", "t1", "t2"}, *V[] = {"v0", "v1", "v2"};
    Stack_Cell c;
    c.type = (Cell_Type)choose(T[i], 5);
    c.value = c.is_null() ? 0 : c.is_real_value() ? 0034345671203504001 : sym_u64(V[i], 27);
    if (c.is_int_addr() || c.is_real_addr()) sym_assume(ordinary(c.value));
    if (sized(opc) && c.is_int_value()) sym_assume((c.value < 4) | ((c.value > M27 - 4) & (c.value <= M27)) | (c.value == 21) | (c.value == 12) | (c.value == M26));
    return c;
}
static bool number(const Stack_Cell &c) { return c.is_int_value() || c.is_real_value(); }
static bool counts_a(int opc) { return opc >= OPC_ETMR && opc <= OPC_FTMP; } // A: number of parameters

static void block(Machine &m, unsigned nargs, unsigned level)
{
    m.cpu.set_a(nargs);
    m.cpu.set_b(02000);
    CHECK(exec_opc(m, OPC_ETMP) == OK, "a block is entered");
    m.cpu.set_b(level);
    CHECK(exec_opc(m, OPC_SCC) == OK, "a block is entered");
}

extern "C" int harness(int arg)
{
    int opc = arg % 1000, where = arg / 1000;
    std::cin.rdbuf(input.rdbuf());
    std::cout.rdbuf(output.rdbuf());
    sym_memory(M, "mem");
    if (opc == 900) { // the orders that move the stack pointer
        bool frame = choose("frame", 2);
        if (frame) block(M, 1, 1);
        ull a = sym_u64("A", 27), n = sym_u64("n", 15);
        sym_assume((a < 4) | (n != 061));
        M.cpu.set_a((Word)a);
        Outcome o = exec(M, 0100, (unsigned)(000400 << 15 | n));
        if (n != 061 && n != 062) CHECK(o == ERROR, "no such order");
        sym_reach(o == OK ? "done" : "error");
        if (o == OK && choose("next", 2)) { // what comes next has to bear it
            M.cpu.set_b((unsigned)choose("B", 3));
            static const unsigned next[] = {OPC_print, OPC_SCC, OPC_RET, OPC_EIS, OPC_IND, OPC_RSF, OPC_ETMP};
            M.cpu.set_a(1);
            M.cpu.set_s(1);
            exec_opc(M, next[choose("order", 7)]);
        }
        CHECK(M.cpu.stack.count() <= LIMIT, "the stack keeps to its limit");
        return 0;
    }
    if (opc == 901) { // a stack that is nearly full: only its size matters, so it is put into place at once
        struct { Stack_Cell *begin, *end, *room; } v, old;
        if (sizeof(M.cpu.stack) != sizeof v) sym_limit("the stack is no vector of cells");
        if (M.cpu.stack.count() == 0) M.cpu.stack.push(int_cell(0));
        memcpy((void *)&old, (void *)&M.cpu.stack, sizeof v);
        v.begin = (Stack_Cell *)calloc(LIMIT + 64, sizeof(Stack_Cell));
        unsigned left = (unsigned)choose("left", 9);
        v.end = v.begin + LIMIT - left;
        v.room = v.begin + LIMIT + 64;
        memcpy((void *)&M.cpu.stack, (void *)&v, sizeof v);
        if (M.cpu.stack.count() != LIMIT - left) sym_limit("the stack is no vector of cells");
        unsigned how = (unsigned)choose("how", 4);
        M.cpu.set_a((Word)(how == 0 ? 4 : 12));
        M.cpu.set_b(0);
        Outcome o = OK;
        if (how == 0) o = exec_opc(M, OPC_ETMP);
        else if (how == 1) o = exec(M, 0100, 000400 << 15 | 061);
        else for (int i = 0; i < 12 && o == OK; i++) o = exec_opc(M, how == 2 ? OPC_TIRS : OPC_TRRS);
        CHECK(o == ERROR, "a full stack is reported");
        CHECK(M.cpu.stack.count() <= LIMIT, "the stack keeps to its limit");
        sym_observe("outcome", o);
        sym_reach("full");
        memcpy((void *)&M.cpu.stack, (void *)&old, sizeof v);
        return 0;
    }
    // ---- the stack
    unsigned depth, base = 0;
    if (where) {
        block(M, 2, 1);
        base = M.cpu.stack.count();
        // the frame: link, return address, stack base, level, display, two parameters
        static const char *FV[] = {"link", "return", "base", "level", "display", "p1", "d1", "p2", "d2"};
        if (where == 2) { // one of these words is spoilt
            unsigned i = (unsigned)choose("spoilt", 9);
            ull v = sym_u64(FV[i], 27);
            // longer chains of displays: nothing new, and much work
            if (i == 3) sym_assume((v < 3) | (v > 31));
            if (i == 6 || i == 8) sym_assume(((v >> 20) < 3) | ((v >> 20) > 31));
            sym_assume(ordinary(v));
            if (i == 1) sym_assume((M.mem_load((unsigned)v - 3 & 077777) >> 15 & 077) != 006);
            if (i == 1) sym_assume((M.mem_load((unsigned)v - 4 & 077777) >> 15 & 077) != 006);
            M.cpu.stack.get(base - 9 + i).value = v;
        }
    }
    depth = (unsigned)choose("depth", deepest(opc) + 1);
    for (unsigned i = 0; i < depth; i++) M.cpu.stack.push(a_cell(i, opc));
    unsigned n = (unsigned)operands(opc), numbers = 0;
    while (numbers < n && numbers < depth && number(M.cpu.stack.get(M.cpu.stack.count() - 1 - numbers))) numbers++;
    if (n && numbers == n) return 0;
    // ---- registers
    ull a = sym_u64("A", 27);
    if (counts_a(opc)) sym_assume(a < 4);
    M.cpu.set_a((Word)a);
    ull b = sym_u64("B", 15);
    sym_assume(ordinary(b));
    if (where && opc == OPC_SCC) sym_assume((b < 3) | (b > 31));
    M.cpu.set_b((unsigned)b);
    if (!dynamic(opc)) {
        ull v = sym_u64("S", 27);
        if (opc == OPC_RSF || opc == OPC_ISF) sym_assume(v < 4);
        M.cpu.set_s((Word)v);
    }
    else { // a dynamic address: block level and place in its frame
        static const unsigned level[] = {1, 0, 31, 1, 2, 1, 1, 0}, place[] = {5, 0, 5, 9, 5, 7, 077757, 5};
        ull k = choose("address", sized(opc) ? 4 : opc == OPC_ADF || opc == OPC_SUF || opc == OPC_MUF || opc == OPC_DIF ? 3 : 8);
        M.cpu.set_s((unsigned)(place[k] << 5 | level[k]));
        static const char *D[] = {"w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7"};
        if (where == 1)
            for (unsigned i = 0; i < 7; i++) { // a formal parameter given as formal parameter: one of these again
                ull d = sym_u64(D[i], 27), l = d >> 22, q = d & 077777;
                sym_assume(ordinary(d));
                sym_assume(((d >> 15 & 077) != 006) | (((l < 3) | (l == 31)) & ((q == 5) | (q == 7) | (q == 0))));
                M.mem_store(0101 - 3 - (place[i] - 5) / 2 & 077777, (Word)d);
            }
    }
    M.cpu.set_c(sym_u64("C", 1));
    Outcome o = exec_opc(M, (unsigned)opc);
    CHECK(o == OK || o == ERROR || o == DONE, "an order ends");
    CHECK(M.cpu.stack.count() <= LIMIT, "the stack keeps to its limit");
    sym_reach(o == ERROR ? "error" : "done");
    sym_observe("outcome", o);
    sym_observe("count", M.cpu.stack.count());
    return 0;
}
