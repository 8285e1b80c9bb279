// Exact symbolic binary floating point (x87 extended, double, float) on packed bit-vectors.
// Classes (zero, normal, infinity, NaN) and a few magnitude relations are split by asking `decide`,
// which forks the path when both answers are possible.
#pragma once
#include "expr.h"
#include <functional>

struct Fmt { unsigned width, ebits, prec; bool explicitInt; int bias; };
extern const Fmt F80, F64, F32;
typedef std::function<bool(ER)> Decide;

struct Unp {
    enum Kind { ZERO, NORM, INF, NAN_ } kind;
    ER sign;   // 1 bit
    ER exp;    // EW bits, two's complement, unbiased: value = sig/2^63 * 2^exp
    ER sig;    // 64 bits, top bit set (kind NORM)
};
enum { EW = 20 };

Unp fpUnpack(ER x, const Fmt &f, const Decide &d);
ER fpPackSpecial(Unp::Kind k, ER sign, const Fmt &f);
// value = sig * 2^(exp-(n-1)) with the top bit of sig (n bits) set; correctly rounded to nearest even.
ER fpRoundPack(ER sign, ER exp, ER sig, const Fmt &f, const Decide &d);
ER fpAdd(ER a, ER b, const Fmt &f, const Decide &d);
ER fpSub(ER a, ER b, const Fmt &f, const Decide &d);
ER fpMul(ER a, ER b, const Fmt &f, const Decide &d);
ER fpDiv(ER a, ER b, const Fmt &f, const Decide &d);
ER fpNeg(ER a, const Fmt &f);
ER fpAbs(ER a, const Fmt &f);
// Comparison: returns -1 unordered... as 1-bit terms.
struct FpCmp { bool unordered; ER lt, eq; };
FpCmp fpCompare(ER a, ER b, const Fmt &f, const Decide &d);
ER fpConvert(ER a, const Fmt &from, const Fmt &to, const Decide &d);
ER fpFromInt(ER i, bool isSigned, const Fmt &f, const Decide &d);
ER fpToInt(ER a, unsigned w, bool isSigned, const Fmt &f, const Decide &d); // truncation; out of range: x86 "indefinite"
enum class RoundMode { FLOOR, CEIL, TRUNC, AWAY, EVEN };                    // AWAY: round() halves away from zero
ER fpRoundInt(ER a, RoundMode m, const Fmt &f, const Decide &d);
ER fpFrexp(ER a, ER *exp32, const Fmt &f, const Decide &d);
ER fpLdexp(ER a, ER exp32, const Fmt &f, const Decide &d);
ER fpIsNan(ER a, const Fmt &f);
