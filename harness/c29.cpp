// C29: console switches.
#include "x1.h"
static Machine M;
static const Stack_Cell BELOW = {Cell_Type::INTEGER_VALUE, 0123456};

static std::string digits(const char *name, unsigned n, ull &v)
{
    std::string s;
    ull bits = sym_u64(name, 27);
    v = 0;
    for (unsigned i = 0; i < n; i++) {
        ull b = bits >> (n - 1 - i) & 1;
        v = v << 1 | b;
        s.push_back((char)('0' + b));
    }
    return s;
}
static Outcome xeen(ull n)
{
    M.cpu.stack.push(BELOW);
    M.cpu.stack.push(int_cell(n));
    return exec_opc(M, OPC_XEEN);
}
static void expect(Outcome o, ull n, ull sw, const char *label)
{
    ull mask = ref_int(n) == 0 ? M27 : n;
    CHECK(o == OK, "XEEN succeeds");
    CHECK(M.cpu.stack.count() == 2 && same_cell(M.cpu.stack.get(0), BELOW), "one value replaces the argument");
    Stack_Cell r = M.cpu.stack.top();
    observe_cell("r", r);
    CHECK(r.is_int_value(), "an integer");
    CHECK(r.value == (mask & sw), label);
    M.cpu.stack.pop();
    M.cpu.stack.pop();
}
// The characters that a line must not consist of: anything except a binary number.
static bool refused(const std::string &line)
{
    std::istringstream in(line);
    std::streambuf *old = std::cin.rdbuf(in.rdbuf());
    std::cin.clear();
    Outcome o = xeen(01234567);
    std::cin.rdbuf(old);
    return o == ERROR;
}

extern "C" int harness(int arg)
{
    std::ostringstream out;
    std::streambuf *oldout = std::cout.rdbuf(out.rdbuf());
    switch (arg) {
    case 0: { // lines of 1 to 27 digits, asked once, again after a stop
        ull k = sym_u64("len", 5), v, w, n1 = sym_u64("n1", 27), n2 = sym_u64("n2", 27), n3 = sym_u64("n3", 27);
        sym_assume(k >= 1 && k <= 27);
        k = sym_concretize(k);
        std::string a = digits("sw1", (unsigned)k, v), b = digits("sw2", 27, w);
        std::istringstream in(a + "\n" + b + "\n");
        std::streambuf *old = std::cin.rdbuf(in.rdbuf());
        expect(xeen(n1), n1, v, "the switches under the mask");
        expect(xeen(n2), n2, v, "the same switches without asking again");
        CHECK(exec_opc(M, OPC_stop) == OK, "stop");
        expect(xeen(n3), n3, w, "new switches after a stop");
        expect(xeen(n1), n1, w, "the new switches are kept");
        CHECK(M.cpu.stack.count() == 0, "the stack is as before");
        CHECK(exec_opc(M, OPC_stop) == OK && xeen(n2) == ERROR, "no more input is reported");
        std::cin.rdbuf(old);
        sym_reach("switches");
        break;
    }
    case 1: { // an unterminated last line, surrounding spaces
        ull v, w, n = sym_u64("n", 27);
        std::istringstream in("  " + digits("sw1", 9, v) + " \r\n" + digits("sw2", 27, w));
        std::streambuf *old = std::cin.rdbuf(in.rdbuf());
        expect(xeen(n), n, v, "the switches under the mask");
        CHECK(exec_opc(M, OPC_stop) == OK, "stop");
        expect(xeen(n), n, w, "the switches under the mask");
        std::cin.rdbuf(old);
        sym_reach("switches");
        break;
    }
    case 2: { // one wrong character at any place of a number of any length
        ull k = sym_u64("len", 5), p = sym_u64("pos", 5), c = sym_u64("c", 8), v;
        sym_assume(k >= 1 && k <= 27 && p < k);
        sym_assume(c != '0' && c != '1' && c != '\n' && c != ' ' && !(c >= 9 && c <= 13));
        k = sym_concretize(k); p = sym_concretize(p);
        std::string s = digits("sw1", (unsigned)k, v);
        s[p] = (char)c;
        CHECK(refused(s + "\n"), "what is no binary number is refused");
        sym_reach("refused");
        break;
    }
    case 3: { // 28 and more digits; nothing; a number in two groups
        ull k = sym_u64("k", 3), v, w;
        k = sym_concretize(k);
        std::string s;
        if (k < 4) s = digits("sw1", 27, v) + digits("sw2", k == 3 ? 27 : (unsigned)k + 1, w);
        else if (k == 4) s = "";
        else if (k == 5) s = "  ";
        else if (k == 6) s = digits("sw1", 5, v) + " " + digits("sw2", 5, w);
        else s = "-" + digits("sw1", 5, v);
        if (k < 4) sym_assume(v >> 26); // leading zeros beyond 27 digits: either
        CHECK(refused(s + "\n"), "what is no number of up to 27 binary digits is refused");
        sym_reach("refused");
        break;
    }
    case 4: { // a real argument is refused; the switches set by the operator do not change with it
        ull v, n = sym_u64("n", 27);
        std::istringstream in(digits("sw1", 27, v) + "\n");
        std::streambuf *old = std::cin.rdbuf(in.rdbuf());
        expect(xeen(n), n, v, "the switches under the mask");
        M.cpu.stack.push(int_cell(n));
        CHECK(exec_opc(M, OPC_NLCR) == OK && exec_opc(M, OPC_TAB) == OK, "other orders");
        M.cpu.stack.pop();
        sym_memory(M, "mem");
        ull c = sym_u64("c", 15);
        sym_assume(c < 077771 && c != 0100);
        Word before = M.mem_load((unsigned)c);
        expect(xeen(n), n, v, "the same switches");
        CHECK(M.mem_load((unsigned)c) == before, "memory is unchanged");
        std::cin.rdbuf(old);
        sym_reach("kept");
        break;
    }
    }
    std::cout.rdbuf(oldout);
    return 0;
}
