// C01: integers are exact 27-bit one's complement.
#include "x1.h"
extern "C" int harness(int arg)
{
    switch (arg) {
    case 0: { // encode any int
        int v = (int)sym_u64("v", 32);
        Word w = 0;
        bool err = false;
        try { w = integer_to_x1(v); } catch (const std::exception &) { err = true; }
        bool fits = ref_int_fits(v);
        CHECK(err == !fits, "an integer is encoded exactly when it fits a word, otherwise an error is reported");
        if (!err) {
            sym_reach("encoded");
            CHECK(w <= M27, "the word has 27 bits");
            CHECK(ref_int(w) == v, "the word denotes the integer");
            CHECK(x1_to_integer(w) == v, "decoding gives the integer back");
            sym_observe("w", w);
        } else
            sym_reach("overflow");
        break;
    }
    case 1: { // decode any word
        ull w = sym_u64("w", 27);
        int v = x1_to_integer((Word)w);
        CHECK(v == ref_int(w), "the value of a word");
        ull back = 0;
        bool err = false;
        try { back = integer_to_x1(v); } catch (const std::exception &) { err = true; }
        CHECK(!err, "the value of a word fits a word");
        CHECK(back == w || (w == M27 && back == 0), "encoding gives the word back (minus zero: 0)");
        Word n = x1_negate_int((Word)w), a = x1_abs_int((Word)w);
        CHECK(n == (~w & M27), "negating complements all 27 bits");
        CHECK(ref_int(n) == -ref_int(w), "negating reverses the sign");
        CHECK(a <= M26 && ref_int(a) == (ref_int(w) < 0 ? -ref_int(w) : ref_int(w)), "the absolute value");
        sym_observe("v", (ull)(unsigned)v);
        sym_observe("n", n);
        sym_observe("a", a);
        sym_reach("decoded");
        break;
    }
    case 2: { // through the machine: memory -> accumulator -> NEG -> variable
        static Machine M;
        ull w = sym_u64("w", 27);
        M.mem_store(01000, (Word)w);
        M.cpu.set_b(01000);
        CHECK(exec_opc(M, OPC_TIRS) == OK, "fetch");
        CHECK(M.cpu.stack.count() == 1 && same_cell(M.cpu.stack.top(), int_cell(w)), "fetched word");
        CHECK(exec_opc(M, OPC_NEG) == OK, "negate");
        CHECK(M.cpu.stack.count() == 1 && same_cell(M.cpu.stack.top(), int_cell(~w & M27)), "negated word");
        sym_reach("machine");
        break;
    }
    case 3: case 4: case 5: case 6: { // integer overflow is reported by the orders that make integers
        static Machine M;
        ull a = sym_u64("a", 27), b = sym_u64("b", 27);
        M.cpu.stack.push(int_cell(a));
        unsigned opc = arg == 3 ? OPC_ADD : arg == 4 ? OPC_SUB : arg == 5 ? OPC_ADIS : OPC_SUIS;
        if (arg < 5) M.cpu.stack.push(int_cell(b));
        else { M.mem_store(01000, (Word)b); M.cpu.set_b(01000); }
        Outcome o = exec_opc(M, opc);
        ll r = arg == 3 || arg == 5 ? ref_int(a) + ref_int(b) : ref_int(a) - ref_int(b);
        CHECK((o == OK) == ref_int_fits(r), "a sum that does not fit a word is reported, any other is not");
        if (o == OK) {
            CHECK(M.cpu.stack.count() == 1 && M.cpu.stack.top().is_int_value() && M.cpu.stack.top().value <= M27 &&
                  ref_int(M.cpu.stack.top().value) == r, "the integer is exact");
            sym_reach("sum");
        } else
            sym_reach("overflow");
        break;
    }
    }
    return 0;
}
