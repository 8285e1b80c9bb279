// C20: characters: input, output, and the compiler's reader, against the table of doc/algol-encoding.md.
#include "xq.h"
// Codes with a printed form of their own (the document's table); the others print as U+2395.
static const char *const table[128] = {
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", 0, "A", "B", "C",
    "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", 0, "+", "-", "\303\227", "/", "\303\267", "\342\206\221", ">", "\342\211\245", "=", "\342\211\244", "<", "\342\211\240",
    "\302\254", "\342\210\247", "\342\210\250", "\342\212\203", "\342\211\241", 0, 0, 0, 0, 0, 0, ",", ".", "\342\217\250", ":", ";", ":=", " ", 0, 0, 0, 0, "(", ")", "[", "]", "`", "'", 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, "\t", "\n", 0, "\"", "?", 0, 0, 0, 0, 0};
static int lut[256]; // the codes of one-byte characters, -1: none
static void make_lut()
{
    for (int c = 0; c < 256; c++) lut[c] = -1;
    for (int i = 0; i < 128; i++)
        if (table[i] && !table[i][1]) lut[(unsigned char)table[i][0]] = i;
    lut['*'] = 66, lut['@'] = 89, lut['|'] = 162, lut['_'] = 163;
}
static int ascii(ull c) { return lut[c & 255]; }
static const char *form(int code) { return code == 162 ? "|" : code == 163 ? "_" : code < 128 && table[code] ? table[code] : "\342\216\225"; }
static bool fetch(int &code) // one character from the input device
{
    M.cpu.stack.erase(0);
    M.mem_store(0100, 002u << 21 | 0 << 15 | 077774); // LDA M[32764]
    try { code = (int)M.mem_load(077774); } catch (const std::exception &) { return false; }
    return true;
}
static int decode3(ull a, ull b, ull c)
{
    int r = -1;
    for (int i = 0; i < 128; i++)
        if (table[i] && table[i][0] && table[i][1] && table[i][2] && (unsigned char)table[i][0] == 0342)
            r = (a == 0342) & (b == (unsigned char)table[i][1]) & (c == (unsigned char)table[i][2]) ? i : r;
    return r;
}
static int decode2(ull a, ull b)
{
    int r = -1;
    r = (a == 0302) & (b == 0254) ? 76 : r;
    r = (a == 0303) & (b == 0227) ? 66 : r;
    r = (a == 0303) & (b == 0267) ? 68 : r;
    return r;
}
static std::string printed(int (*f)(ull), ull v)
{
    std::ostringstream out;
    std::streambuf *old = std::cout.rdbuf(out.rdbuf());
    int ok = f(v);
    std::cout.rdbuf(old);
    CHECK(ok, "a character can be printed");
    return out.str();
}
static int device(ull v)
{
    M.mem_store(077773, (Word)v);
    return 1;
}
static int tas(ull v)
{
    M.cpu.set_s((Word)v);
    return exec_opc(M, OPC_TAS) == OK;
}
static bool well_formed(const std::string &s) // one character
{
    if (s.size() == 1) return !(s[0] & 0x80);
    if (s.size() == 2) return (s[0] & 0xe0) == 0xc0 && (s[1] & 0xc0) == 0x80;
    if (s.size() == 3) return (s[0] & 0xf0) == 0xe0 && (s[1] & 0xc0) == 0x80 && (s[2] & 0xc0) == 0x80;
    return false;
}
// A string in a program: what it prints, or nothing if the program does not compile.
static bool program(std::string &got, bool local)
{
    std::ostringstream out;
    std::streambuf *old = std::cout.rdbuf(out.rdbuf());
    Xc x = xc_compile(txt, len);
    bool ok = x.status == 0;
    if (ok) {
        static Obj o;
        xc_object(x, o);
        CHECK(o.ok, "the object program is well-formed");
        xc_load(M, o);
        CHECK(xc_run(M, 6000) == R_DONE, "the program ends");
    }
    std::cout.rdbuf(old);
    got = out.str();
    return ok;
}
static void put_s(const std::string &s) { for (char c : s) put_c(c); }
extern "C" int harness(int arg)
{
    len = 0;
    make_lut();
    switch (arg) {
    case 0: case 1: { // any four bytes, or fewer before the end of the input: the first character
        ull n = arg ? 4 : choose("n", 4);
        ull b[5] = {0, 0, 0, 0, 'k'};
        static const char *const nm[] = {"a", "b", "c", "d"};
        std::string s;
        for (ull i = 0; i < n; i++) { b[i] = sym_u64(nm[i], 8); s.push_back((char)b[i]); }
        if (arg) s.push_back('k');
        std::istringstream in(s);
        std::streambuf *old = std::cin.rdbuf(in.rdbuf());
        std::cin.clear();
        int code = -2;
        bool ok = fetch(code);
        int next = -2;
        bool rest = ok && fetch(next);
        std::cin.rdbuf(old);
        std::cin.clear();
        // the reference: carriage returns are skipped
        ull at = 0;
        while (at < n && b[at] == '\r') at++;
        ull left = n - at + (arg ? 1 : 0);
        auto B = [&](ull k) { return at + k < 5 ? b[at + k] : 0; };
        auto first = [&](ull &used) -> int {
            used = 1;
            if (left == 0) return 0377;
            if (B(0) < 128) { int a = ascii(B(0)); return a; }
            if (B(0) == 0302 || B(0) == 0303) { used = 2; return left < 2 ? 0377 : decode2(B(0), B(1)); }
            if (B(0) == 0342) {
                used = 3;
                // bytes that begin no character are refused at once, or when the text ends
                if (left < 2) return 0377;
                int d = left < 3 ? -3 : decode3(B(0), B(1), B(2));
                return d;
            }
            return -1;
        };
        ull used;
        int want = first(used);
        if (want == -3) { CHECK(!ok || code == 0377, "a character cut short is none"); sym_reach("cut short"); break; }
        if (want < 0) { CHECK(!ok, "what is no character is refused"); sym_reach("refused"); break; }
        CHECK(ok, "a character is accepted");
        if (!ok) break;
        sym_observe("code", (ull)code);
        CHECK(code == want, "the code of the character");
        sym_reach("code");
        if (want == 0377 && left == 0) { CHECK(rest && next == 0377, "the end of the input stays"); break; }
        if (left < 2 && used == 1 && left) { CHECK(rest && next == 0377, "then the end of the input"); break; }
        // the next byte is where the character ended
        if (used <= left && at + used < n + (arg ? 1 : 0) && B(used) == 'k') CHECK(rest && next == 20, "reading goes on after the character");
        break;
    }
    case 2: case 3: { // every word printed by the device and by TAS
        ull v = sym_u64("v", 27);
        ull lowb = v & 0377;
        std::string s = printed(arg == 2 ? device : tas, v);
        lowb = sym_concretize(v & 0177);
        ull whole = v;
        for (size_t i = 0; i < s.size() && i < 4; i++) sym_observe("byte", (unsigned char)s[i]);
        if (s.size() == 2 && s[0] == ':') CHECK(s == ":=", "one symbol");
        else CHECK(well_formed(s), "one character of UTF-8");
        if (whole < 128) CHECK(s == form((int)lowb), "the printed form of the code");
        else if (whole == 162) CHECK(s == "|", "the printed form of the bar");
        else if (whole == 163) CHECK(s == "_", "the printed form of the underline");
        sym_reach("printed");
        break;
    }
    case 4: { // in and out again
        ull k = choose("k", 128);
        bool alt = (k == 66 || k == 89) && choose("alt", 2);
        const char *f = k == 36 ? "|" : k == 63 ? "_" : alt ? (k == 66 ? "*" : "@") : table[k];
        if (!f || k == 92) sym_stop("no character");
        std::istringstream in(std::string(f) + "k");
        std::streambuf *old = std::cin.rdbuf(in.rdbuf());
        std::cin.clear();
        int code = 0, next = 0;
        bool ok = fetch(code) && fetch(next);
        std::cin.rdbuf(old);
        CHECK(ok && next == 20, "a character is read");
        std::string s = printed(device, (ull)code);
        for (size_t i = 0; i < s.size() && i < 4; i++) sym_observe("byte", (unsigned char)s[i]);
        CHECK(s == (alt ? table[k] : f), "a character read is printed as it was");
        sym_reach("same");
        break;
    }
    case 5: case 6: { // a byte of a string in a program, at each place within a word (6: behind a colon)
        ull c = choose("c", 128), place = arg == 5 ? choose("place", 3) : 0;
        w("begin PRINTTEXT(`");
        std::string before = arg == 5 ? std::string("xy7").substr(0, place) : ":";
        put_s(before);
        if (c == 0) sym_stop("NUL ends the line");
        put_c((char)c);
        w("Q");
        w("') end\n");
        std::string got, want;
        bool ok = program(got, false);
        int code = ascii(c);
        if (c == '`' || c == '\'' || c == '|' || c == '_') { // quotes nest; bar and underline make other symbols
            CHECK(!ok || got == before + "_Q" || got == before + "|Q" || got == before + "Q", "not misread");
            sym_reach("special");
            break;
        }
        if (code < 0) { // refused or skipped
            CHECK(!ok || got == before + "Q", "what is no character is skipped or refused");
            sym_reach("skipped");
            break;
        }
        CHECK(ok, "a string of characters compiles");
        for (size_t i = 0; i < got.size() && i < 9; i++) sym_observe("byte", (unsigned char)got[i]);
        CHECK(got == before + form(code) + "Q", "a character of a string is printed as it was written");
        sym_reach("same");
        break;
    }
    case 7: { // the characters of several bytes, at each place within a word
        ull k = choose("k", 128), place = choose("place", 3);
        if (!table[k] || !table[k][1] || k == 92) sym_stop("one byte");
        w("begin PRINTTEXT(`");
        std::string before = std::string("xy7").substr(0, place);
        put_s(before);
        put_s(table[k]);
        put_s(table[k]);
        w("Q') end\n");
        std::string got;
        CHECK(program(got, false), "a string of characters compiles");
        CHECK(got == before + table[k] + table[k] + "Q", "a character of a string is printed as it was written");
        sym_reach("same");
        break;
    }
    case 8: { // any three bytes of which the first is not ASCII
        ull a = sym_u64("a", 8) | 0200, b = sym_u64("b", 8), c = sym_u64("c", 8);
        sym_assume((b != '\n') & (c != '\n') & (b != 0) & (c != 0));
        int d = decode2(a, b), e = decode3(a, b, c);
        if (d >= 0 || e >= 0) sym_stop("a character");
        w("begin PRINTTEXT(`x");
        put_c((char)a), put_c((char)b), put_c((char)c);
        w("Q') end\n");
        std::string got;
        CHECK(!program(got, false) || got == "xQ", "what is no character is skipped or refused");
        sym_reach("refused");
        break;
    }
    case 9: { // other spellings within a string, nested quotes
        static const char *const t[][2] = {{"|^", 0}, {"|\342\210\247", "\342\206\221"}, {"|=", "\342\211\240"}, {"|<", "`"}, {"_>", "\342\211\245"}, {"_<", "\342\211\244"}, {"_=", "\342\211\241"}, {"_:", "\303\267"}, {"_\302\254", "\342\212\203"}, {"`b'", "`b'"}, {":=", ":="}, {": =", ": ="}, {"||=", "\342\211\240"}};
        ull k = choose("k", 13);
        if (!t[k][1]) sym_stop("none");
        w("begin PRINTTEXT(`x");
        put_s(t[k][0]);
        if (k == 3) w("|>");
        w("Q') end\n");
        std::string got;
        CHECK(program(got, false), "a string of characters compiles");
        CHECK(got == std::string("x") + t[k][1] + (k == 3 ? "'" : "") + "Q", "symbols of two characters");
        sym_reach("same");
        break;
    }
    case 10: { // letters, digits, and layout outside strings: identifiers are told apart by case, spaces mean nothing
        ull c = choose("c", 52);
        char l = (char)(c < 26 ? 'a' + c : 'A' + c - 26), o = (char)(c < 26 ? 'A' + c : 'a' + c - 26);
        w("begin integer ");
        put_c(l), put_c('1'), put_c(','), put_c(' '), put_c(o), put_c('1');
        w("; ");
        put_c(l), put_c('\t'), put_c(' '), put_c('1');
        w(" := 5\n00; ");
        put_c(o), put_c('\n'), put_c('1');
        w(" := 3; print(");
        put_c(l), put_c('1');
        w(" * 1); print(");
        put_c(o), put_c('1');
        w(") end\n");
        CHECK(go(txt) == R_DONE, "the program ends");
        want(0, 500, "the variable");
        want(1, 3, "the other variable");
        sym_reach("same");
        break;
    }
    }
    return 0;
}
