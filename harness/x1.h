// Common part of the harnesses: an independent statement of the X1 number formats and small helpers.
// The reference functions work on bit patterns only and share no code with /repo.
#pragma once
#include "machine.h"
#include "opc.h"
#include "sym.h"
#include <cstring>
#include <cmath>
#include <stdexcept>
#include <iostream>
#include <sstream>

typedef long long ll;
typedef unsigned long long ull;
static const ull M26 = (1ull << 26) - 1, M27 = (1ull << 27) - 1, M54 = (1ull << 54) - 1;

// ---- integers: 27-bit one's complement
static inline ll ref_int(ull w) { return (w >> 26 & 1) ? -(ll)(~w & M26) : (ll)(w & M26); }
static inline bool ref_int_fits(ll v) { return v >= -(ll)M26 && v <= (ll)M26; }
static inline ull ref_enc_int(ll v) { return v < 0 ? (~(ull)-v & M27) : (ull)v; }

// ---- reals: sign, 40-bit mantissa fraction, exponent + 2048; negative: all 54 bits complemented
//   bit 53 sign | 52..27 mantissa (26 upper bits) | 26 ignored | 25..12 mantissa (14 lower bits) | 11..0 exponent
static inline bool ref_neg(ull r) { return r >> 53 & 1; }
static inline ull ref_mant(ull r)
{
    if (ref_neg(r)) r = ~r & M54;
    return (r >> 27 & M26) << 14 | (r >> 12 & 0x3fff);
}
static inline int ref_exp(ull r)
{
    if (ref_neg(r)) r = ~r & M54;
    return (int)(r & 0xfff) - 2048;
}
static inline ull ref_make(bool neg, ull mant40, int exp)
{
    ull r = (mant40 >> 14) << 27 | (mant40 & 0x3fff) << 12 | (ull)(exp + 2048);
    return neg ? ~r & M54 : r;
}
// The value of a long double as bits: 1 sign, 15 exponent, 64 significand.
struct LD { bool neg; unsigned e; ull m; };
static inline LD ld_bits(long double v)
{
    unsigned char b[16] = {0};
    memcpy(b, &v, 10);
    LD r;
    ull m; memcpy(&m, b, 8);
    unsigned short se; memcpy(&se, b + 8, 2);
    r.m = m; r.e = se & 0x7fff; r.neg = se >> 15;
    return r;
}
static inline long double ld_make(bool neg, unsigned e, ull m)
{
    unsigned char b[16] = {0};
    memcpy(b, &m, 8);
    unsigned short se = (unsigned short)(e | (neg ? 0x8000 : 0));
    memcpy(b + 8, &se, 2);
    long double v;
    memset(&v, 0, sizeof v);
    memcpy(&v, b, 10);
    return v;
}
static inline bool ld_same(long double a, long double b)
{
    LD x = ld_bits(a), y = ld_bits(b);
    return (x.neg == y.neg) & (x.e == y.e) & (x.m == y.m);
}
// Value of a real word pair.
static inline long double ref_dec(ull r)
{
    ull m = ref_mant(r);
    if (m == 0) return ld_make(ref_neg(r), 0, 0);
    int lz = __builtin_clzll(m);
    return ld_make(ref_neg(r), (unsigned)(16383 + ref_exp(r) - 40 + 63 - lz), m << lz);
}
enum Enc { ENC_OK, ENC_OVERFLOW };
// The machine number nearest to v: 40-bit mantissa, halves away from zero.
static inline Enc ref_enc(long double v, ull &out)
{
    LD b = ld_bits(v);
    if (b.e == 0x7fff) return ENC_OVERFLOW;       // infinity, not a number
    if (b.e == 0) { out = b.neg ? M54 : 0; return ENC_OK; }
    ull top = b.m >> 24;
    int exp = (int)b.e - 16383 + 1;
    if (b.m >> 23 & 1) top++;
    if (top >> 40) { top >>= 1; exp++; }
    if (exp > 2047) return ENC_OVERFLOW;
    if (exp < -2048) { out = b.neg ? M54 : 0; return ENC_OK; }
    out = ref_make(b.neg, top, exp);
    return ENC_OK;
}

// ---- cells
static inline Stack_Cell int_cell(ull w) { Stack_Cell c; c.type = Cell_Type::INTEGER_VALUE; c.value = w; return c; }
static inline Stack_Cell real_cell(ull r) { Stack_Cell c; c.type = Cell_Type::REAL_VALUE; c.value = r; return c; }
static inline Stack_Cell sym_cell(const char *name, int real) { return real ? real_cell(sym_u64(name, 54)) : int_cell(sym_u64(name, 27)); }
static inline bool same_cell(const Stack_Cell &a, const Stack_Cell &b) { return (a.type == b.type) & (a.value == b.value); }
static inline void observe_cell(const char *n, const Stack_Cell &c)
{
    sym_observe(n, (ull)(int)c.type);
    sym_observe(n, c.value);
}

enum Outcome { OK, ERROR, DONE };
// One order at the order counter; every error the simulator reports is a std::exception.
static inline Outcome run_step(Machine &m)
{
    try { return m.cpu.step() ? DONE : OK; }
    catch (const std::exception &) { return ERROR; }
}
// Execute one order (written to address `at`).
static inline Outcome exec(Machine &m, unsigned at, unsigned order)
{
    m.mem_store(at, order);
    m.cpu.set_ot(at);
    return run_step(m);
}
static inline Outcome exec_opc(Machine &m, unsigned opc) { return exec(m, 0100, opc); }
#define CHECK(c, label) sym_assert((c), label)

// ---- the value of a number cell, and what an arithmetic operator has to give.
// The conversions are /repo's own: C01 and C02 (whose jobs every user of these functions includes) show that they are
// right, so here only the use made of them has to be decided.
static inline long double cell_value(const Stack_Cell &c) { return c.is_real_value() ? x1_to_ieee(c.value) : (long double)x1_to_integer((Word)c.value); }
struct Expect { Outcome o; Stack_Cell c; };
static inline Expect expect_real(long double v)
{
    Expect e;
    e.o = OK;
    e.c = real_cell(0);
    try { e.c.value = ieee_to_x1(v); } catch (const std::exception &) { e.o = ERROR; }
    return e;
}
static inline Expect expect_int(ll v)
{
    Expect e;
    e.o = ref_int_fits(v) ? OK : ERROR;
    e.c = int_cell(ref_enc_int(v));
    return e;
}
static inline Expect expect_op(int op, const Stack_Cell &a, const Stack_Cell &b) // 0 + 1 - 2 * 3 /
{
    bool ints = a.is_int_value() & b.is_int_value();
    if (ints & (op < 3)) {
        ll x = x1_to_integer((Word)a.value), y = x1_to_integer((Word)b.value);
        ll r = op == 0 ? x + y : op == 1 ? x - y : x * y;
        if (op < 2) return expect_int(r);
        return ref_int_fits(r) ? expect_int(r) : expect_real((long double)r);
    }
    long double x = cell_value(a), y = cell_value(b);
    switch (op) {
    case 0: return expect_real(x + y);
    case 1: return expect_real(x - y);
    case 2: return expect_real(x * y);
    default:
        if (y == 0) { Expect e; e.o = ERROR; e.c = int_cell(0); return e; }
        return expect_real(x / y);
    }
}
// Same type and same number; both zeros of a type are the same number.
static inline bool num_same(const Stack_Cell &a, const Stack_Cell &b)
{
    if (a.type != b.type) return false;
    if (a.is_int_value()) return (a.value == b.value) | (ref_int(a.value) == 0 && a.value <= M27 && ref_int(b.value) == 0);
    return (a.value == b.value) | (((a.value == 0) | (a.value == M54)) & ((b.value == 0) | (b.value == M54)));
}

// The machine's memory words, found by what mem_store does rather than by name.
static inline Word *mem_base(Machine &m)
{
    m.mem_store(01000, 012345671);
    m.mem_store(01001, 076543217);
    m.mem_store(04001, 033221100);
    Word *p = (Word *)&m, *found = nullptr;
    for (size_t i = 01000; i + 077777 - 01000 < sizeof(Machine) / sizeof(Word); i++)
        if (p[i] == 012345671 && p[i + 1] == 076543217 && p[i + 03001] == 033221100) found = p + i - 01000;
    m.mem_store(01000, 0);
    m.mem_store(01001, 0);
    m.mem_store(04001, 0);
    if (!found) sym_limit("memory words not found in the machine object");
    return found;
}
// Give memory arbitrary contents; machines given the same name have the same contents.
static inline void sym_memory(Machine &m, const char *name) { sym_region(mem_base(m), 32768 * sizeof(Word), sizeof(Word) | 27 << 8, name); }
