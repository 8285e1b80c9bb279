// C02: real numbers: ieee_to_x1 / x1_to_ieee against the definition of the format.
#include "x1.h"
extern "C" int harness(int arg)
{
    switch (arg) {
    case 0: { // encode any long double (all 2^80 encodings an x87 register can hold)
        bool neg = sym_u64("neg", 1);
        unsigned e = (unsigned)sym_u64("exp", 15);
        ull m = sym_u64("mant", 64);
        // Valid encodings: the integer bit is set exactly when the exponent field is not zero; zero and denormals: clear.
        if (e != 0) sym_assume(m >> 63 & 1);
        else sym_assume(!(m >> 63 & 1));
        long double v = ld_make(neg, e, m);
        ull want = 0, got = 0;
        bool err = false;
        try { got = ieee_to_x1(v); } catch (const std::exception &) { err = true; }
        Enc w = ref_enc(v, want);
        CHECK(err == (w == ENC_OVERFLOW), "overflow, infinity and not-a-number are errors, nothing else is");
        if (!err) {
            CHECK(got == want, "the nearest machine number, halves away from zero");
            sym_observe("got", got);
            sym_reach("encoded");
            if (got == 0 || got == M54) sym_reach("zero");
        } else
            sym_reach("error");
        break;
    }
    case 1: { // decode any pair of words
        ull r = sym_u64("r", 54);
        long double v = x1_to_ieee(r);
        long double want = ref_dec(r);
        CHECK(ld_same(v, want), "the value of a word pair is exact");
        sym_observe("m", ld_bits(v).m);
        sym_observe("e", ld_bits(v).e);
        sym_reach("decoded");
        break;
    }
    case 2: { // round trip of every normalised number, and of both zeros
        ull r = sym_u64("r", 54);
        bool zero = (r == 0) | (r == M54);
        // normalised: the top mantissa bit differs from the sign, the ignored bit is a copy of the sign
        sym_assume(zero | (((r >> 52 & 1) != (r >> 53 & 1)) & ((r >> 26 & 1) == (r >> 53 & 1))));
        ull back = 0;
        bool err = false;
        try { back = ieee_to_x1(x1_to_ieee(r)); } catch (const std::exception &) { err = true; }
        CHECK(!err, "a machine number can be encoded");
        CHECK(back == r, "encoding after decoding gives the identical bits");
        sym_observe("back", back);
        sym_reach("roundtrip");
        break;
    }
    case 3: { // words <-> real, sign operations
        ull hi = sym_u64("hi", 27), lo = sym_u64("lo", 27);
        ull r = x1_words_to_real((Word)hi, (Word)lo);
        CHECK(r == (hi << 27 | lo), "two words make a real");
        CHECK(x1_negate_real(r) == (~r & M54), "negating complements the 54 bits");
        ull a = x1_abs_real(r);
        CHECK(!ref_neg(a) && ref_mant(a) == ref_mant(r) && ref_exp(a) == ref_exp(r), "absolute value");
        sym_reach("words");
        break;
    }
    case 4: { // encoding what was decoded: also for numbers that are not normalised
        ull r = sym_u64("r", 54);
        ull back = 0, want = 0;
        bool err = false;
        try { back = ieee_to_x1(x1_to_ieee(r)); } catch (const std::exception &) { err = true; }
        Enc w = ref_enc(ref_dec(r), want);
        CHECK(!err && w == ENC_OK, "a machine number can be encoded");
        CHECK(back == want, "same value");
        sym_reach("any");
        break;
    }
    }
    return 0;
}
