// C19: print of integers, SPACE, NLCR, TAB.
#include "x1.h"
static Machine M;
static const unsigned NLOC = 3;
static std::ostringstream *out;
static std::streambuf *old;
static std::string text;
static unsigned base;
static Stack_Cell below[64];
static Word before;
static ull probe;

// A procedure frame with NLOC integer locals of arbitrary values.
static void setup()
{
    sym_memory(M, "mem");
    M.cpu.stack.push(int_cell(0765));
    M.cpu.set_a(0);
    M.cpu.set_b(02000);
    CHECK(exec_opc(M, OPC_ETMP) == OK, "frame");
    M.cpu.set_b(1);
    CHECK(exec_opc(M, OPC_SCC) == OK, "frame");
    M.cpu.set_a(NLOC);
    CHECK(exec(M, 0100, 000400 << 15 | 061) == OK && exec(M, 0100, 000400 << 15 | 062) == OK, "locals");
    base = (unsigned)M.cpu.stack.count();
    for (unsigned i = 0; i < NLOC; i++) {
        char n[3] = {'l', (char)('0' + i), 0};
        M.cpu.stack.set(base - NLOC + i, int_cell(sym_u64(n, 27)));
    }
    for (unsigned i = 0; i < base; i++) below[i] = M.cpu.stack.get(i);
    probe = sym_u64("p", 15);
    sym_assume(probe < 077771 && probe != 0100);
    before = M.mem_load((unsigned)probe);
    out = new std::ostringstream;
    old = std::cout.rdbuf(out->rdbuf());
}
static void finish(unsigned opc)
{
    CHECK(exec_opc(M, opc) == OK, "it succeeds");
    std::cout.rdbuf(old);
    text = out->str();
    CHECK(M.cpu.stack.count() == base, "the arguments are consumed and nothing else");
    for (unsigned i = 0; i < base; i++) CHECK(same_cell(M.cpu.stack.get(i), below[i]), "the values below are unchanged");
    CHECK(M.mem_load((unsigned)probe) == before, "memory is unchanged");
}

extern "C" int harness(int arg)
{
    sym_exact(1);
    setup();
    if (arg < 8) { // arg numbers
        ull w[8];
        for (int i = 0; i < arg; i++) {
            char n[3] = {'v', (char)('0' + i), 0};
            w[i] = sym_u64(n, 27);
            if (i || arg == 3) sym_assume((ref_int(w[i]) > -1000) & (ref_int(w[i]) < 1000)); // one or two numbers: the first one has every length
            M.cpu.stack.push(int_cell(w[i]));
        }
        finish(OPC_print);
        size_t p = 0;
        for (int i = 0; i < arg; i++) {
            if (i) CHECK(p < text.size() && text[p++] == ' ', "one space between the numbers");
            bool neg = p < text.size() && text[p] == '-';
            if (neg) p++;
            ll r = 0;
            size_t start = p;
            while (p < text.size() && (text[p] >= '0') & (text[p] <= '9')) r = r * 10 + (text[p++] & 15);
            CHECK(p > start, "digits");
            CHECK(p == start + 1 || text[start] != '0', "no leading zeros");
            CHECK(neg ? w[i] >> 26 || w[i] == 0 : !(w[i] >> 26) || w[i] == M27, "a minus sign for negative numbers");
            CHECK(r == (ll)(w[i] >> 26 ? ~w[i] & M26 : w[i]), "the exact number");
        }
        CHECK(p == text.size(), "nothing else");
        sym_reach("printed");
    } else if (arg == 8) {
        ull w = sym_u64("n", 27);
        ll n = ref_int(w);
        sym_assume(n <= 40);
        M.cpu.stack.push(int_cell(w));
        finish(OPC_SPACE);
        CHECK((ll)text.size() == (n > 0 ? n : 0), "as many spaces as asked for");
        for (size_t i = 0; i < text.size(); i++) CHECK(text[i] == ' ', "spaces");
        sym_reach(n > 0 ? "spaces" : "none");
    } else if (arg == 9) {
        finish(OPC_NLCR);
        CHECK(text.size() == 1 && text[0] == '\n', "the line ends");
        sym_reach("line");
    } else if (arg == 10) {
        finish(OPC_TAB);
        CHECK(text.size() == 1 && text[0] == '\t', "a tab");
        sym_reach("tab");
    } else if (arg == 11) { // numbers of either type: which texts, and the separators
        ull k = sym_concretize(sym_u64("kinds", 3));
        Stack_Cell c[3];
        std::ostringstream want;
        for (int i = 0; i < 3; i++) {
            static const ull reals[] = {0, (1ull << 52) | 2049, (1ull << 52 | 1ull << 51 | 2051)};
            c[i] = k >> i & 1 ? real_cell(reals[i]) : int_cell((ull)(i * 1000 + 7));
            M.cpu.stack.push(c[i]);
            if (i) want << ' ';
            want << (k >> i & 1 ? (i == 0 ? "0" : i == 1 ? "1" : "6") : (i == 0 ? "7" : i == 1 ? "1007" : "2007"));
        }
        finish(OPC_print);
        CHECK(text == want.str(), "the numbers in order, single spaces between them");
        sym_reach("mixed");
    } else if (arg == 12) { // two prints and layout in sequence
        ull w = sym_u64("v", 27);
        sym_assume(w < 1000);
        M.cpu.stack.push(int_cell(w));
        CHECK(exec_opc(M, OPC_print) == OK && exec_opc(M, OPC_NLCR) == OK, "it succeeds");
        M.cpu.stack.push(int_cell(5));
        CHECK(exec_opc(M, OPC_print) == OK && exec_opc(M, OPC_TAB) == OK, "it succeeds");
        M.cpu.stack.push(int_cell(2));
        CHECK(exec_opc(M, OPC_SPACE) == OK, "it succeeds");
        M.cpu.stack.push(int_cell(6));
        finish(OPC_print);
        size_t n = text.size();
        CHECK(n >= 7 && text[n - 6] == '\n' && text.substr(n - 5) == "5\t  6", "everything in order");
        sym_reach("sequence");
    }
    return 0;
}
