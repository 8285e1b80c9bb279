#include "fp.h"

const Fmt F80 = {80, 15, 64, true, 16383};
const Fmt F64 = {64, 11, 53, false, 1023};
const Fmt F32 = {32, 8, 24, false, 127};

static ER ec(int v) { return C((u128)(i128)v, EW); }
static ER expField(ER x, const Fmt &f) { return mkExtract(x, f.explicitInt ? 64 : f.prec - 1, f.ebits); }
static ER signOf(ER x, const Fmt &f) { return mkExtract(x, f.width - 1, 1); }
static ER frac(ER x, const Fmt &f) { return mkExtract(x, 0, f.prec - 1); }

// Shift left until the top bit is set; *cnt receives the shift count (EW bits).
static ER normalise(ER s, ER *cnt)
{
    unsigned w = s->width, start = 1;
    while (start * 2 < w) start *= 2;
    ER n = ec(0);
    for (unsigned k = start; k; k /= 2) {
        ER z = eEq(mkExtract(s, w - k, k), C(0, k));
        s = mkIte(z, mkConcat(mkExtract(s, 0, w - k), C(0, k)), s);
        n = eAdd(n, mkIte(z, ec(k), ec(0)));
    }
    *cnt = n;
    return s;
}

Unp fpUnpack(ER x, const Fmt &f, const Decide &d)
{
    Unp u;
    u.sign = signOf(x, f);
    ER e = expField(x, f), fr = frac(x, f);
    ER s64;
    ER ez = C(0, EW - f.ebits);
    if (d(eEq(e, C(0, f.ebits)))) {
        ER s = f.explicitInt ? mkExtract(x, 0, 64) : fr;
        if (d(eEq(s, C(0, s->width)))) { u.kind = Unp::ZERO; u.exp = ec(0); u.sig = C(0, 64); return u; }
        // Denormal.
        u.kind = Unp::NORM;
        s64 = f.explicitInt ? s : mkConcat(C(0, 1), mkConcat(fr, C(0, 64 - f.prec)));
        ER n;
        u.sig = normalise(s64, &n);
        u.exp = eSub(ec(1 - f.bias), n);
        return u;
    }
    if (d(eEq(e, C(maskw(f.ebits), f.ebits)))) {
        u.exp = ec(0); u.sig = C(0, 64);
        u.kind = d(eEq(fr, C(0, fr->width))) ? Unp::INF : Unp::NAN_;
        return u;
    }
    u.kind = Unp::NORM;
    u.exp = eAdd(mkConcat(ez, e), ec(-f.bias));
    // The integer bit is taken as set: unnormals do not exist in valid values.
    u.sig = mkConcat(C(1, 1), f.explicitInt ? fr : (64 > f.prec ? mkConcat(fr, C(0, 64 - f.prec)) : fr));
    return u;
}

static ER assemble(ER sign, ER e, ER sigTop, const Fmt &f) // sigTop: prec bits with integer bit
{
    if (f.explicitInt) return mkConcat(sign, mkConcat(e, sigTop));
    return mkConcat(sign, mkConcat(e, mkExtract(sigTop, 0, f.prec - 1)));
}
ER fpPackSpecial(Unp::Kind k, ER sign, const Fmt &f)
{
    switch (k) {
    case Unp::ZERO: return mkConcat(sign, C(0, f.width - 1));
    case Unp::INF: return assemble(sign, C(maskw(f.ebits), f.ebits), C((u128)1 << (f.prec - 1), f.prec), f);
    default: return assemble(C(1, 1), C(maskw(f.ebits), f.ebits), C((u128)3 << (f.prec - 2), f.prec), f);
    }
}

// Shift right keeping a sticky bit in position 0; amount EW bits, unsigned, saturating.
static ER shrSticky(ER s, ER n)
{
    unsigned w = s->width;
    ER sticky = eFalse();
    unsigned bits = 1;
    while ((1u << bits) < w) bits++;
    // Larger shifts lose everything.
    ER big = mkNot(eEq(mkExtract(n, bits, EW - bits), C(0, EW - bits)));
    ER r = s;
    for (unsigned b = 0; b < bits; b++) {
        unsigned k = 1u << b;
        ER on = mkExtract(n, b, 1);
        ER lost, sh;
        if (k >= w) { lost = mkNot(eEq(r, C(0, w))); sh = C(0, w); }
        else {
            lost = mkNot(eEq(mkExtract(r, 0, k), C(0, k)));
            sh = mkZext(mkExtract(r, k, w - k), w);
        }
        sticky = eOr(sticky, eAnd(on, lost));
        r = mkIte(on, sh, r);
    }
    r = mkIte(big, C(0, w), r);
    sticky = mkIte(big, mkNot(eEq(s, C(0, w))), sticky);
    return eOr(r, mkZext(sticky, w));
}

ER fpRoundPack(ER sign, ER exp, ER sig, const Fmt &f, const Decide &d)
{
    unsigned n = sig->width, p = f.prec;
    auto round = [&](ER s, ER *carry) {
        if (n <= p) {
            *carry = eFalse();
            return n == p ? s : mkConcat(s, C(0, p - n));
        }
        ER kept = mkExtract(s, n - p, p);
        ER guard = mkExtract(s, n - p - 1, 1);
        ER sticky = n - p - 1 > 0 ? mkNot(eEq(mkExtract(s, 0, n - p - 1), C(0, n - p - 1))) : eFalse();
        ER inc = eAnd(guard, eOr(sticky, mkExtract(kept, 0, 1)));
        if (isFalse(inc)) { *carry = eFalse(); return kept; }
        ER sum = eAdd(mkZext(kept, p + 1), mkZext(inc, p + 1));
        *carry = mkExtract(sum, p, 1);
        return mkIte(*carry, C((u128)1 << (p - 1), p), mkExtract(sum, 0, p));
    };
    ER carry;
    ER r = round(sig, &carry);
    ER e = eAdd(exp, mkZext(carry, EW));
    int emax = f.bias, emin = 1 - f.bias;
    if (d(eSlt(ec(emax), e))) return fpPackSpecial(Unp::INF, sign, f);
    if (d(eSlt(exp, ec(emin)))) {
        // Denormal result: shift, then round.
        ER sh = eSub(ec(emin), exp);
        // One extra bit on the left so that rounding can carry into the normal range.
        ER wide = mkConcat(sig, C(0, n < p ? p - n : 0));
        if (n >= p) wide = sig;
        unsigned wn = wide->width;
        if (wn < 126) { wide = mkConcat(wide, C(0, 1)); wn++; }
        ER s2 = shrSticky(wide, sh);
        ER kept = mkExtract(s2, wn - p, p);
        ER inc = eFalse();
        if (wn > p) {
            ER guard = mkExtract(s2, wn - p - 1, 1);
            ER sticky = wn - p - 1 > 0 ? mkNot(eEq(mkExtract(s2, 0, wn - p - 1), C(0, wn - p - 1))) : eFalse();
            inc = eAnd(guard, eOr(sticky, mkExtract(kept, 0, 1)));
        }
        ER sum = eAdd(kept, mkZext(inc, p)); // a carry sets the integer bit: exponent field 1
        ER top = mkExtract(sum, p - 1, 1);
        return assemble(sign, mkZext(top, f.ebits), sum, f);
    }
    ER fe = mkExtract(eAdd(e, ec(f.bias)), 0, f.ebits);
    return assemble(sign, fe, r, f);
}

static ER addCore(ER a, ER b, bool negB, const Fmt &f, const Decide &d)
{
    Unp x = fpUnpack(a, f, d), y = fpUnpack(b, f, d);
    if (negB) y.sign = mkNot(y.sign);
    if (x.kind == Unp::NAN_ || y.kind == Unp::NAN_) return fpPackSpecial(Unp::NAN_, eFalse(), f);
    if (x.kind == Unp::INF) {
        if (y.kind == Unp::INF && !d(eEq(x.sign, y.sign))) return fpPackSpecial(Unp::NAN_, eFalse(), f);
        return a;
    }
    ER nb = negB ? fpNeg(b, f) : b;
    if (y.kind == Unp::INF) return nb;
    if (x.kind == Unp::ZERO && y.kind == Unp::ZERO) return fpPackSpecial(Unp::ZERO, eAnd(x.sign, y.sign), f);
    if (x.kind == Unp::ZERO) return nb;
    if (y.kind == Unp::ZERO) return a;
    // Order by magnitude.
    ER ea = eAdd(x.exp, ec(20000)), eb = eAdd(y.exp, ec(20000));
    ER age = eOr(eUlt(eb, ea), eAnd(eEq(ea, eb), eUle(y.sig, x.sig)));
    if (!d(age)) std::swap(x, y);
    ER dist = eSub(x.exp, y.exp);
    // 64 + 3 bits.
    ER xs = mkConcat(x.sig, C(0, 3)), ys = mkConcat(y.sig, C(0, 3));
    if (d(eEq(x.sign, y.sign))) {
        ER yy = shrSticky(ys, dist);
        ER sum = eAdd(mkZext(xs, 68), mkZext(yy, 68));
        ER c = mkExtract(sum, 67, 1);
        // Normalise: top bit at 67 or 66.
        ER s = mkIte(c, sum, mkConcat(mkExtract(sum, 0, 67), C(0, 1)));
        return fpRoundPack(x.sign, eAdd(x.exp, mkZext(c, EW)), s, f, d);
    }
    if (d(eUle(dist, ec(1)))) {
        // Near: exact.
        ER one = mkExtract(dist, 0, 1);
        ER yy = mkIte(one, mkZext(mkExtract(ys, 1, 66), 67), ys);
        ER diff = eSub(xs, yy);
        if (d(eEq(diff, C(0, 67)))) return fpPackSpecial(Unp::ZERO, eFalse(), f);
        ER n, s = normalise(diff, &n);
        return fpRoundPack(x.sign, eSub(x.exp, n), s, f, d);
    }
    ER yy = shrSticky(ys, dist);
    ER diff = eSub(xs, yy);
    ER top = mkExtract(diff, 66, 1);
    ER s = mkIte(top, diff, mkConcat(mkExtract(diff, 0, 66), C(0, 1)));
    return fpRoundPack(x.sign, eSub(x.exp, mkIte(top, ec(0), ec(1))), s, f, d);
}
ER fpAdd(ER a, ER b, const Fmt &f, const Decide &d)
{
    if (a->id > b->id) std::swap(a, b);
    return addCore(a, b, false, f, d);
}
ER fpSub(ER a, ER b, const Fmt &f, const Decide &d) { return addCore(a, b, true, f, d); }
ER fpNeg(ER a, const Fmt &f) { return mkConcat(mkNot(signOf(a, f)), mkExtract(a, 0, f.width - 1)); }
ER fpAbs(ER a, const Fmt &f) { return mkZext(mkExtract(a, 0, f.width - 1), f.width); }

static unsigned trailingZeros(ER s)
{
    return std::min<unsigned>(63, ctz128(~s->kz));
}

ER fpMul(ER a, ER b, const Fmt &f, const Decide &d)
{
    if (a->id > b->id) std::swap(a, b);
    Unp x = fpUnpack(a, f, d), y = fpUnpack(b, f, d);
    ER sign = eXor(x.sign, y.sign);
    if (x.kind == Unp::NAN_ || y.kind == Unp::NAN_) return fpPackSpecial(Unp::NAN_, eFalse(), f);
    if (x.kind == Unp::INF || y.kind == Unp::INF) {
        if (x.kind == Unp::ZERO || y.kind == Unp::ZERO) return fpPackSpecial(Unp::NAN_, eFalse(), f);
        return fpPackSpecial(Unp::INF, sign, f);
    }
    if (x.kind == Unp::ZERO || y.kind == Unp::ZERO) return fpPackSpecial(Unp::ZERO, sign, f);
    // Drop known trailing zeros so that the product is as narrow as possible.
    unsigned tx = trailingZeros(x.sig), ty = trailingZeros(y.sig);
    ER sx = mkExtract(x.sig, tx, 64 - tx), sy = mkExtract(y.sig, ty, 64 - ty);
    unsigned w = sx->width + sy->width;
    ER prod = eMul(mkZext(sx, w), mkZext(sy, w));
    ER top = mkExtract(prod, w - 1, 1);
    ER s = mkIte(top, prod, mkConcat(mkExtract(prod, 0, w - 1), C(0, 1)));
    ER e = eAdd(eAdd(x.exp, y.exp), mkZext(top, EW));
    return fpRoundPack(sign, e, s, f, d);
}

ER fpDiv(ER a, ER b, const Fmt &f, const Decide &d)
{
    Unp x = fpUnpack(a, f, d), y = fpUnpack(b, f, d);
    ER sign = eXor(x.sign, y.sign);
    if (x.kind == Unp::NAN_ || y.kind == Unp::NAN_) return fpPackSpecial(Unp::NAN_, eFalse(), f);
    if (x.kind == Unp::INF) return y.kind == Unp::INF ? fpPackSpecial(Unp::NAN_, eFalse(), f) : fpPackSpecial(Unp::INF, sign, f);
    if (y.kind == Unp::INF) return fpPackSpecial(Unp::ZERO, sign, f);
    if (y.kind == Unp::ZERO) return x.kind == Unp::ZERO ? fpPackSpecial(Unp::NAN_, eFalse(), f) : fpPackSpecial(Unp::INF, sign, f);
    if (x.kind == Unp::ZERO) return fpPackSpecial(Unp::ZERO, sign, f);
    // Division by a power of two only changes the exponent.
    if (isC(y.sig) && y.sig->val == (u128)1 << 63) return fpRoundPack(sign, eSub(x.exp, y.exp), x.sig, f, d);
    unsigned ty = trailingZeros(y.sig), tx = trailingZeros(x.sig);
    ER sy = mkExtract(y.sig, ty, 64 - ty), sx = mkExtract(x.sig, tx, 64 - tx);
    // q = floor(sx * 2^k / sy), k chosen for prec+2 quotient bits at least.
    unsigned k = f.prec + 2 + sy->width - sx->width;
    if (k + sx->width > 128) k = 128 - sx->width;
    unsigned w = sx->width + k;
    ER num = mkConcat(sx, C(0, k)), den = mkZext(sy, w);
    ER q = mkBin(UDIV, num, den), r = mkBin(UREM, num, den);
    // x/y in (1/2, 2): q has prec+2 or prec+3 bits.
    unsigned qb = k + sx->width - sy->width + 1;
    ER qq = mkExtract(q, 0, qb);
    ER top = mkExtract(qq, qb - 1, 1);
    ER s = mkIte(top, qq, mkConcat(mkExtract(qq, 0, qb - 1), C(0, 1)));
    ER sticky = mkNot(eEq(r, C(0, w)));
    s = mkConcat(s, sticky);
    ER e = eAdd(eSub(x.exp, y.exp), mkIte(top, ec(0), ec(-1)));
    return fpRoundPack(sign, e, s, f, d);
}

ER fpIsNan(ER a, const Fmt &f)
{
    return eAnd(eEq(expField(a, f), C(maskw(f.ebits), f.ebits)), mkNot(eEq(frac(a, f), C(0, f.prec - 1))));
}

FpCmp fpCompare(ER a, ER b, const Fmt &f, const Decide &d)
{
    FpCmp r;
    r.unordered = false;
    if (d(eOr(fpIsNan(a, f), fpIsNan(b, f)))) { r.unordered = true; r.lt = r.eq = eFalse(); return r; }
    ER sa = signOf(a, f), sb = signOf(b, f);
    ER ma = mkExtract(a, 0, f.width - 1), mb = mkExtract(b, 0, f.width - 1);
    ER z = C(0, f.width - 1);
    ER bothZero = eAnd(eEq(ma, z), eEq(mb, z));
    r.eq = eOr(bothZero, eAnd(eEq(sa, sb), eEq(ma, mb)));
    // lt: sign differs -> a negative (and not both zero); same sign -> magnitude order
    ER ltSame = mkIte(sa, eUlt(mb, ma), eUlt(ma, mb));
    r.lt = eAnd(mkNot(bothZero), mkIte(eXor(sa, sb), sa, ltSame));
    return r;
}

ER fpConvert(ER a, const Fmt &from, const Fmt &to, const Decide &d)
{
    Unp x = fpUnpack(a, from, d);
    if (x.kind != Unp::NORM) return fpPackSpecial(x.kind, x.sign, to);
    return fpRoundPack(x.sign, x.exp, x.sig, to, d);
}

ER fpFromInt(ER i, bool isSigned, const Fmt &f, const Decide &d)
{
    unsigned w = i->width;
    if (d(eEq(i, C(0, w)))) return fpPackSpecial(Unp::ZERO, eFalse(), f);
    ER sign = isSigned ? mkExtract(i, w - 1, 1) : eFalse();
    // Fork on the sign: conversions of magnitudes are much simpler.
    if (!isC(sign)) sign = d(sign) ? eTrue() : eFalse();
    ER mag = isTrue(sign) ? eSub(C(0, w), i) : i;
    // Use known leading zeros.
    unsigned lead = w - std::max(1u, active_bits(mag->hi));
    ER m = lead ? mkExtract(mag, 0, w - lead) : mag;
    ER n, s = m->width > 1 ? normalise(m, &n) : (n = ec(0), m);
    return fpRoundPack(sign, eSub(ec(m->width - 1), n), s, f, d);
}

ER fpToInt(ER a, unsigned w, bool isSigned, const Fmt &f, const Decide &d)
{
    Unp x = fpUnpack(a, f, d);
    if (x.kind == Unp::ZERO) return C(0, w);
    ER indef = C((u128)1 << (w - 1), w);
    if (x.kind != Unp::NORM) return indef;
    if (d(eSlt(x.exp, ec(0)))) return C(0, w);
    if (d(eSle(ec(w), x.exp))) return indef;
    // exp in [0, w-1]: magnitude = sig >> (63 - exp) (w <= 64)
    unsigned ww = std::max(w, 64u);
    ER mag;
    if (isC(x.exp)) {
        unsigned sh = 63 - (unsigned)x.exp->val;
        mag = mkZext(mkExtract(x.sig, sh, 64 - sh), ww);
    } else
        mag = eLshr(mkZext(x.sig, ww), mkZext(mkExtract(eSub(ec(63), x.exp), 0, 7), ww));
    if (isSigned) {
        ER lim = C((u128)1 << (w - 1), ww);
        // Representable: mag < 2^(w-1), or mag == 2^(w-1) and negative.
        ER ok = eOr(eUlt(mag, lim), eAnd(x.sign, eEq(mag, lim)));
        if (!d(ok)) return indef;
        ER m = mkExtract(mag, 0, w);
        return mkIte(x.sign, eSub(C(0, w), m), m);
    }
    ER m = mkExtract(mag, 0, w);
    return mkIte(x.sign, eSub(C(0, w), m), m);
}

ER fpRoundInt(ER a, RoundMode mode, const Fmt &f, const Decide &d)
{
    Unp x = fpUnpack(a, f, d);
    if (x.kind != Unp::NORM) return a;
    if (d(eSle(ec(f.prec - 1), x.exp))) return a; // already an integer
    bool neg = isC(x.sign) ? x.sign->val : d(x.sign);
    ER sg = neg ? eTrue() : eFalse();
    if (d(eSlt(x.exp, ec(0)))) {
        bool one;
        switch (mode) {
        case RoundMode::FLOOR: one = neg; break;
        case RoundMode::CEIL: one = !neg; break;
        case RoundMode::TRUNC: one = false; break;
        case RoundMode::AWAY: one = d(eEq(x.exp, ec(-1))); break;
        default: one = d(eAnd(eEq(x.exp, ec(-1)), mkNot(eEq(x.sig, C((u128)1 << 63, 64))))); break;
        }
        if (!one) return fpPackSpecial(Unp::ZERO, sg, f);
        return fpRoundPack(sg, ec(0), C((u128)1 << 63, 64), f, d);
    }
    // 0 <= exp <= prec-2: integer part = sig >> (63-exp).
    ER sh = mkZext(mkExtract(eSub(ec(63), x.exp), 0, 7), 64);
    ER ip = eLshr(x.sig, sh);
    ER back = eShl(ip, sh);
    ER fracNZ = mkNot(eEq(back, x.sig));
    ER half = mkExtract(eLshr(x.sig, eSub(sh, C(1, 64))), 0, 1); // sh >= 1 since exp <= 62
    ER inc;
    switch (mode) {
    case RoundMode::FLOOR: inc = neg ? fracNZ : eFalse(); break;
    case RoundMode::CEIL: inc = neg ? eFalse() : fracNZ; break;
    case RoundMode::TRUNC: inc = eFalse(); break;
    case RoundMode::AWAY: inc = half; break;
    default: {
        ER rest = eSub(x.sig, back);
        ER h = eShl(C(1, 64), eSub(sh, C(1, 64)));
        inc = eOr(eUlt(h, rest), eAnd(eEq(h, rest), mkExtract(ip, 0, 1)));
    }
    }
    ER r = eAdd(ip, mkZext(inc, 64));
    ER n, s = normalise(r, &n);
    return fpRoundPack(sg, eSub(ec(63), n), s, f, d);
}

ER fpFrexp(ER a, ER *exp32, const Fmt &f, const Decide &d)
{
    Unp x = fpUnpack(a, f, d);
    if (x.kind != Unp::NORM) { *exp32 = C(0, 32); return a; }
    *exp32 = mkSext(eAdd(x.exp, ec(1)), 32);
    return fpRoundPack(x.sign, ec(-1), x.sig, f, d);
}

ER fpLdexp(ER a, ER n, const Fmt &f, const Decide &d)
{
    Unp x = fpUnpack(a, f, d);
    if (x.kind != Unp::NORM) return a;
    // Saturate the exponent argument.
    ER e = eAdd(mkSext(x.exp, 34), mkSext(n, 34));
    if (d(eSlt(C(100000, 34), e))) return fpPackSpecial(Unp::INF, x.sign, f);
    if (d(eSlt(e, C((u128)(i128)-100000, 34)))) return fpPackSpecial(Unp::ZERO, x.sign, f);
    return fpRoundPack(x.sign, mkExtract(e, 0, EW), x.sig, f, d);
}
