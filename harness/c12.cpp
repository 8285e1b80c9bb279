// C12: one machine order from an arbitrary state.  arg: number of the order; 100: any unsupported order; 101: any
// order whose condition is not met.
#include "x1.h"
static Machine M;

static bool ordinary(ull a) { return a < 077771 || a == 077777; }

// Supported orders (operation part, that is, function letter/digit, address mode, condition bits).
static const unsigned known[] = {
    0, 000220, 000244, 000320, 000350, 000400, 000600, 000640, 001200, 001220, 001240, 001600, 003431, 003620, 004020,
    004200, 004220, 004240, 004600, 005100, 005220, 005404, 006700, 006714, 007700,
};
static const unsigned NKNOWN = sizeof known / sizeof known[0];

struct Regs { ull a, b, s, ot; bool c; };
static bool supported(unsigned op, unsigned n)
{
    switch (op) {
    case 000244: case 000640: return n == 077774;
    case 000350: return n == 077777;
    case 000400: return n == 061 || n == 062;
    case 006700: return false; // reports the failed type check
    case 006714: case 007700: return n < 0100;
    }
    for (unsigned i = 0; i < NKNOWN; i++) if (known[i] == op) return true;
    return false;
}

extern "C" int harness(int arg)
{
    Regs r;
    r.a = sym_u64("A", 27); r.b = sym_u64("B", 15); r.s = sym_u64("S", 27); r.c = sym_u64("C", 1);
    ull at = sym_u64("at", 15);
    sym_assume(ordinary(at) && at != 077777);
    sym_memory(M, "mem");
    Stack_Cell y0, y;
    y0 = int_cell(sym_u64("y0", 27));
    static const Cell_Type types[] = {Cell_Type::INTEGER_VALUE, Cell_Type::REAL_VALUE, Cell_Type::INTEGER_ADDRESS, Cell_Type::REAL_ADDRESS};
    int t = arg == 4 ? (int)sym_concretize(sym_u64("type", 2)) : 0;
    y.type = types[t];
    y.value = sym_u64("y", t == 1 ? 54 : 27);
    ull n = sym_u64("n", 15), opcode = 0;
    if (arg == 100 || arg == 101) {
        opcode = sym_u64("op", 12);
        if (arg == 101) sym_assume((opcode & 3) == (r.c ? 3 : 2));
        else {
            sym_assume((opcode & 3) != (r.c ? 3u : 2u));      // not merely skipped
            unsigned op = (unsigned)(opcode & 2 ? opcode & ~3ull : opcode);
            for (unsigned i = 0; i < NKNOWN; i++) {
                unsigned k = known[i];
                if (k == 000244 || k == 000640) sym_assume(!(op == k && n == 077774));
                else if (k == 000350) sym_assume(!(op == k && n == 077777));
                else if (k == 000400) sym_assume(!(op == k && (n == 061 || n == 062)));
                else if (k == 006714 || k == 007700) sym_assume(!(op == k && n < 0100));
                else if (k != 006700) sym_assume(op != k);
            }
        }
    } else if (arg > 0 && arg < (int)NKNOWN)
        opcode = known[arg];
    else
        return 0;
    // ---- restrictions of this check (devices: C21, routines: other properties)
    bool store = opcode == 000600 || opcode == 001600 || opcode == 004600;
    bool load = opcode == 001200 || opcode == 004200 || opcode == 005100;
    ull ea = n;
    if (opcode == 001240 || opcode == 004240) { ea = (n + r.b) & 077777; load = true; if (opcode == 004240) sym_assume(n != 5); }
    if (load || store) sym_assume(ordinary(ea));
    bool shift = opcode == 006714 || opcode == 007700;
    if (arg < 100 && opcode != 0) {
        if (opcode == 000244 || opcode == 000640) n = 077774;
        else if (opcode == 000350) n = 077777;
        else if (opcode == 006700) n = 040000;
        else if (opcode == 000400) return 0; // C10, C13, C17
        else if (shift) sym_assume(n < 0100 && (n & 037) <= 27);
    }
    M.cpu.stack.push(y0);
    M.cpu.stack.push(y);
    bool L = false;
    if (shift) { // the sign of the last condition-setting order: load A from the stack first
        ull l = sym_u64("L", 27);
        M.cpu.stack.push(int_cell(l));
        CHECK(exec(M, 0300, 000244u << 15 | 077774) == OK, "load A from the stack");
        M.cpu.stack.pop();
        L = l >> 26 & 1;
    }
    M.cpu.set_a((Word)r.a);
    M.cpu.set_b((unsigned)r.b);
    M.cpu.set_s((Word)r.s);
    M.cpu.set_c(r.c);
    ull word = opcode << 15 | n;
    M.mem_store((unsigned)at, (Word)word);
    ull p = sym_u64("p", 15);
    sym_assume(ordinary(p));
    Word before = M.mem_load((unsigned)p);
    Word m = load ? M.mem_load((unsigned)ea) : 0, m0 = M.mem_load(0);
    M.cpu.set_ot((unsigned)at);
    Outcome o = run_step(M);

    // ---- what it has to be
    Regs w = r;
    w.ot = at + 1;
    bool werr = arg == 100 || opcode == 006700;
    ull changed = ~0ull, newval = 0;
    Stack_Cell wtop = y;
    bool checkA = true;
    if (arg < 100) switch (opcode) {
    case 000220: w.a = n; break;
    case 000320: w.a = ~n & M27; break;
    case 000244: w.a = y.value; w.c = !(y.value >> 26 & 1); break;
    case 000350: w.c = t == 0; checkA = false; break;
    case 000600: changed = n; newval = r.a; break;
    case 001600: changed = n; newval = r.s; break;
    case 004600: changed = n; newval = r.b; break;
    case 000640: wtop.value = r.a; break;
    case 001200: case 001240: w.s = m; break;
    case 001220: w.s = n; break;
    case 003431: w.c = r.s == n; break;
    case 003620: w.s = r.s & n; break;
    case 004020: w.b = r.b + n; break;
    case 004200: w.b = m & 077777; break;
    case 004220: w.b = n; break;
    case 004240: w.b = m; break;
    case 005100: w.ot = at - m; break;
    case 005220: w.ot = n; break;
    case 005404: {
        changed = 0;
        newval = ref_enc_int(ref_int(m0) - 1);
        if (m0 == 0 || m0 == M27) newval = M27 - 1;   // -1
        if (m0 >> 26 & 1) sym_assume(m0 != 1ull << 26); // the smallest number wraps around
        if (!(m0 >> 26) && m0 > 1) w.ot = n;
        break;
    }
    case 006714: case 007700: {
        unsigned k = (unsigned)(n & 037);
        ull v = n >> 5 ? r.s : r.a, sign = v >> 26;
        ull out = (v | (opcode == 006714 ? v : sign ? M27 : 0) << 27) >> k & M27;
        (n >> 5 ? w.s : w.a) = out;
        if (opcode == 006714) w.c = (bool)(out >> 26) == L;
        break;
    }
    }
    CHECK((o == ERROR) == werr, werr ? "an order outside the supported set is reported" : "a supported order is no error");
    CHECK(o != DONE, "only the stop routine ends the program");
    if (checkA) CHECK(M.cpu.get_a() == w.a, "register A");
    else {
        ull a = M.cpu.get_a() & M27;
        CHECK(t == 0 ? a == 0 : t == 1 ? a != 0 && !(a >> 26) : a >> 26, "A tells the kind of the stack top");
    }
    CHECK(M.cpu.get_b() == w.b, "register B");
    CHECK(M.cpu.get_s() == w.s, "register S");
    CHECK(M.cpu.get_c() == w.c, "condition");
    if (!werr && !(opcode == 005404 && m0 >> 26)) CHECK(((M.cpu.get_ot() ^ w.ot) & 077777) == 0, "order counter");
    CHECK(M.cpu.stack.count() == 2 && same_cell(M.cpu.stack.get(0), y0) && same_cell(M.cpu.stack.get(1), wtop), "stack");
    ull want = p == changed ? newval : before;
    ull got = M.mem_load((unsigned)p);
    if (p == changed && opcode == 005404 && (newval == 0 || newval == M27)) CHECK(got == 0 || got == M27, "memory");
    else CHECK(got == want, "memory");
    sym_observe("a", M.cpu.get_a() & M27); sym_observe("s", M.cpu.get_s()); sym_observe("b", M.cpu.get_b()); sym_observe("c", M.cpu.get_c());
    sym_reach(o == ERROR ? "error" : "done");
    return 0;
}
