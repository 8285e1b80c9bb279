// C22: the object program loader.
#include "x1.h"
#include <fstream>
#include <unistd.h>
static Machine M, N;
static const char *FN = "c22obj.x1";
static bool ordinary(ull a) { return a < 077771 || a == 077777; }

// A decimal number of w symbolic digits.
static ull number(std::ostream &os, const char *name, unsigned w, bool lead0)
{
    ull v = 0;
    for (unsigned i = 0; i < w; i++) {
        char n[16];
        unsigned k = 0;
        for (; name[k]; k++) n[k] = name[k];
        n[k++] = (char)('0' + i);
        n[k] = 0;
        ull d = sym_u64(n, 4);
        sym_assume(d <= 9);
        if (i == 0 && w > 1 && !lead0) sym_assume(d != 0);
        os.put((char)('0' + d));
        v = v * 10 + d;
    }
    return v;
}
static unsigned pick(const char *name, unsigned lo, unsigned hi)
{
    ull v = sym_u64(name, 4);
    sym_assume(v <= hi - lo);
    return (unsigned)sym_concretize(v) + lo;
}
static void pad(std::ostream &os, unsigned width, unsigned field)
{
    for (; width < field; width++) os.put(' ');
}
static void entry_line(std::ostream &os) { os << " 1  2  3\n"; }
static bool load(Machine &m)
{
    try { m.load_object_program(FN); return true; }
    catch (const std::exception &) { return false; }
}
static ull word_line(std::ostream &os, const char *an, const char *vn, unsigned wa, unsigned wv, ull &v)
{
    pad(os, wa, 5);
    ull a = number(os, an, wa, false);
    pad(os, wv, 10);
    v = number(os, vn, wv, false);
    os.put('\n');
    sym_assume(a < 32768 && ordinary(a) && v <= M27);
    return a;
}
static unsigned triple(std::ostream &os, bool wide, bool first)
{
    static const char *nm[] = {"x", "y", "z"};
    ull v[3];
    for (int i = 0; i < 3; i++) {
        unsigned w = wide ? 2 : pick(i == 0 ? "wx" : i == 1 ? "wy" : "wz", 1, 2);
        if (!first || i) os.put(' ');
        if (!wide) pad(os, w, 2);
        v[i] = number(os, nm[i], w, wide);
        sym_assume(v[i] < 32);
    }
    os.put('\n');
    return (unsigned)((v[0] * 32 + v[1]) * 32 + v[2]);
}

extern "C" int harness(int arg)
{
    std::ofstream os(FN);
    sym_assume(os.is_open());
    if (arg < 6) { // one word; arg is the number of digits of the address
        unsigned wa = (unsigned)arg, wv = pick("wv", 1, 9);
        if (arg == 0) return 0;
        sym_memory(M, "mem");
        ull v, c = sym_u64("c", 15);
        sym_assume(ordinary(c));
        Word before = M.mem_load((unsigned)c);
        ull a = word_line(os, "a", "v", wa, wv, v);
        entry_line(os);
        os.close();
        CHECK(load(M), "a word line is accepted");
        CHECK(M.mem_load((unsigned)c) == (c == a ? v : before), "exactly the given value at the given address");
        CHECK(M.mem_fetch((unsigned)a) == v, "the word that is executed");
        CHECK(M.get_entry(0) == (1 * 32 + 2) * 32 + 3, "the entry is the entry line's");
        sym_observe("w", M.mem_load((unsigned)c));
        sym_reach("word");
        return 0;
    }
    switch (arg) {
    case 6: { // two words, five digits each: the later line wins, both are stored
        sym_memory(M, "mem");
        ull v, w, c = sym_u64("c", 15);
        sym_assume(ordinary(c));
        Word before = M.mem_load((unsigned)c);
        ull a = word_line(os, "a", "v", 5, pick("wv", 8, 9), v), b = word_line(os, "b", "w", 5, 3, w);
        entry_line(os);
        os.close();
        CHECK(load(M), "word lines are accepted");
        CHECK(M.mem_load((unsigned)c) == (c == b ? w : c == a ? v : before), "the last word given for the address");
        sym_reach("words");
        return 0;
    }
    case 7: { // entry lines as the compiler writes them
        unsigned e = triple(os, false, true);
        os << "10048       96\n 3  2  1\n";
        os.close();
        CHECK(load(M), "an entry line is accepted");
        CHECK(M.get_entry(0) == e, "the entry address, first");
        CHECK(M.get_entry(1) == (3 * 32 + 2) * 32 + 1, "the second entry address");
        CHECK(M.mem_load(10048) == 96, "the word line between");
        sym_observe("e", M.get_entry(0));
        sym_reach("entry");
        return 0;
    }
    case 8: { // symbol lines; names of one to nine letters or digits
        unsigned n = pick("n", 1, 9);
        std::string name;
        for (unsigned i = 0; i < n; i++) {
            char s[3] = {'s', (char)('0' + i), 0};
            ull ch = sym_u64(s, 7);
            sym_assume((ch >= 'A') & (ch <= 'Z'));
            if (i) ch = sym_concretize(sym_u64("dig", 1)) ? (ull)('0' + i) : ch;
            name.push_back((char)ch);
        }
        os << name;
        for (unsigned i = n; i < 8; i++) os.put(' ');
        unsigned a = triple(os, true, false);
        entry_line(os);
        os.close();
        sym_memory(M, "mem");
        ull c = sym_u64("c", 15);
        sym_assume(ordinary(c));
        Word before = M.mem_load((unsigned)c);
        CHECK(load(M), "a symbol line is accepted");
        bool found = true;
        unsigned got = 0;
        try { got = M.get_symbol(name); } catch (const std::exception &) { found = false; }
        CHECK(found, "the symbol is recorded");
        CHECK(got == a, "the symbol's address");
        CHECK(M.get_entry(0) == (1 * 32 + 2) * 32 + 3, "a symbol is no entry");
        CHECK(M.mem_load((unsigned)c) == before, "no word is stored");
        sym_observe("a", got);
        sym_reach("symbol");
        return 0;
    }
    case 9: { // what cannot be interpreted
        unsigned k = pick("k", 0, 9);
        switch (k) {
        case 0: break;                                                      // empty file
        case 1: os << "\n\n"; break;
        case 2: os << "10048       96\n"; break;                            // no entry
        case 3: os << "ABC     00 00 02\n"; break;
        case 4: entry_line(os); os << "garbage\n"; break;
        case 5: entry_line(os); number(os, "d", 5, true); os << "\n"; break; // a single number
        case 6: entry_line(os); number(os, "d", 5, true); os << " x\n"; break;
        case 7: { // a line of three characters none of which is a digit
            entry_line(os);
            for (int i = 0; i < 3; i++) {
                char s[3] = {'t', (char)('0' + i), 0};
                ull ch = sym_u64(s, 7);
                sym_assume((ch >= ' ') & (ch < 127) & ((ch < '0') | (ch > '9')));
                os.put((char)ch);
            }
            os << "\n";
            break;
        }
        case 8: os << "x " ; number(os, "d", 4, true); os << "\n"; entry_line(os); break;
        case 9: os << "x 1 2\n"; entry_line(os); break;
        }
        os.close();
        CHECK(!load(M), "reported as an error");
        sym_reach("rejected");
        return 0;
    }
    case 10: { // a file that is not there
        os.close();
        bool ok = true;
        try { M.load_object_program("c22none.x1"); } catch (const std::exception &) { ok = false; }
        CHECK(!ok, "a missing file is reported");
        sym_reach("missing");
        return 0;
    }
    case 11: { // empty lines are nothing; two symbols; a missing newline at the end
        os << "\nABC     00 00 02\n\nABCD    00 01 00\n" << "10048       96\n\n 1  2  3";
        os.close();
        CHECK(load(M), "accepted");
        CHECK(M.get_symbol("ABC") == 2 && M.get_symbol("ABCD") == 32 && M.mem_load(10048) == 96 && M.get_entry(0) == 1091, "all lines");
        sym_reach("lines");
        return 0;
    }
    case 12: { // running starts at the first entry and executes the loaded words: load A with v, store it at `to`, stop
        unsigned at = pick("at", 0, 7) * 1000 + 8192;
        // A := v; store A at 01234; stop
        os << at << " 4718";                       // 0220 << 15 is 4718592
        ull v = number(os, "v", 3, true);
        sym_assume(v >= 592);
        os << '\n' << at + 1 << ' ' << (0600u << 15) + 01234u << '\n' << at + 2 << ' ' << (unsigned)OPC_STOP << '\n';
        os << (at >> 10) << ' ' << (at >> 5 & 31) << ' ' << (at & 31) << "\n 9 9 9\n";
        os.close();
        M.add_input_file(FN);
        bool ok = true;
        try { M.compile_and_run(); } catch (const std::exception &) { ok = false; }
        CHECK(ok, "runs to the stop");
        CHECK(M.mem_load(01234) == v - 592, "the loaded orders are executed");
        sym_reach("run");
        return 0;
    }
    }
    return 0;
}
