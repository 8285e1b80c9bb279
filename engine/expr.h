// Hash-consed bit-vector expressions (width 1..128) with local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
    CONST, VAR, UF,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
    AND, OR, XOR, NOT, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE,
    ITE, CONCAT, EXTRACT, ZEXT, SEXT
};

struct Expr {
    Op op;
    uint8_t width;
    uint8_t nk;
    bool heavy;       // contains a wide non-constant multiplication or division
    uint32_t id;
    uint32_t aux;     // VAR/UF: symbol number; EXTRACT: low bit
    uint32_t depth;
    const Expr *k[4];
    u128 val;         // CONST
    u128 kz, ko;      // bits known zero / one
    u128 lo, hi;      // unsigned interval
    i128 slo, shi;    // signed interval
};
typedef const Expr *ER;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    return (i128)(((v & maskw(w)) ^ s) - s);
}
static inline unsigned clz128(u128 v)
{
    if (v == 0) return 128;
    uint64_t h = (uint64_t)(v >> 64);
    return h ? __builtin_clzll(h) : 64 + __builtin_clzll((uint64_t)v);
}
static inline unsigned ctz128(u128 v)
{
    if (v == 0) return 128;
    uint64_t l = (uint64_t)v;
    return l ? __builtin_ctzll(l) : 64 + __builtin_ctzll((uint64_t)(v >> 64));
}
static inline unsigned active_bits(u128 v) { return 128 - clz128(v); }

ER mkConst(u128 v, unsigned w);
ER mkVar(const std::string &name, unsigned w);       // same name: same variable
ER mkFreshVar(const std::string &prefix, unsigned w);
ER mkUF(const std::string &name, unsigned w, const std::vector<ER> &args);
ER mkBin(Op op, ER a, ER b);
ER mkNot(ER a);
ER mkIte(ER c, ER a, ER b);
ER mkConcat(ER hi, ER lo);
ER mkExtract(ER a, unsigned lo, unsigned w);
ER mkZext(ER a, unsigned w);
ER mkSext(ER a, unsigned w);

static inline bool isC(ER e) { return e->op == CONST; }
static inline bool isTrue(ER e) { return e->op == CONST && e->val == 1; }
static inline bool isFalse(ER e) { return e->op == CONST && e->val == 0; }
static inline ER eAdd(ER a, ER b) { return mkBin(ADD, a, b); }
static inline ER eSub(ER a, ER b) { return mkBin(SUB, a, b); }
static inline ER eMul(ER a, ER b) { return mkBin(MUL, a, b); }
static inline ER eAnd(ER a, ER b) { return mkBin(AND, a, b); }
static inline ER eOr(ER a, ER b) { return mkBin(OR, a, b); }
static inline ER eXor(ER a, ER b) { return mkBin(XOR, a, b); }
static inline ER eEq(ER a, ER b) { return mkBin(EQ, a, b); }
static inline ER eUlt(ER a, ER b) { return mkBin(ULT, a, b); }
static inline ER eUle(ER a, ER b) { return mkBin(ULE, a, b); }
static inline ER eSlt(ER a, ER b) { return mkBin(SLT, a, b); }
static inline ER eSle(ER a, ER b) { return mkBin(SLE, a, b); }
static inline ER eShl(ER a, ER b) { return mkBin(SHL, a, b); }
static inline ER eLshr(ER a, ER b) { return mkBin(LSHR, a, b); }
static inline ER eAshr(ER a, ER b) { return mkBin(ASHR, a, b); }
static inline ER C(u128 v, unsigned w) { return mkConst(v, w); }
static inline ER eTrue() { return mkConst(1, 1); }
static inline ER eFalse() { return mkConst(0, 1); }

struct SymInfo { std::string name; unsigned width; };
extern std::vector<SymInfo> g_syms;      // VAR symbols
extern std::vector<SymInfo> g_ufs;       // UF symbols
size_t exprCount();
std::string exprStr(ER e, int depth = 6);
std::string u128str(u128 v);

// Concrete evaluation under an assignment.
struct Model {
    std::unordered_map<uint32_t, u128> vars;                 // by symbol number; absent: 0
    std::unordered_map<uint32_t, std::vector<std::pair<std::vector<u128>, u128>>> ufs;
    std::unordered_map<const Expr *, u128> cache;
    u128 eval(ER e);
};
u128 foldBin(Op op, u128 a, u128 b, unsigned w);             // operands of width w
