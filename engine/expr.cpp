#include "expr.h"
#include <unordered_set>
#include <deque>
#include <sstream>
#include <cstring>

std::vector<SymInfo> g_syms, g_ufs;
static std::unordered_map<std::string, uint32_t> symIndex, ufIndex;
static std::deque<Expr> arena;

struct H {
    size_t operator()(ER e) const
    {
        uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->width * 1315423911ull + e->aux * 2654435761ull;
        for (int i = 0; i < e->nk; i++) h = (h ^ (e->k[i]->id + 0x9E3779B9)) * 0x100000001B3ull + (h >> 29);
        h ^= (uint64_t)e->val * 0xD6E8FEB86659FD93ull;
        h ^= (uint64_t)(e->val >> 64) * 0xA0761D6478BD642Full;
        return h ^ (h >> 31);
    }
};
struct E {
    bool operator()(ER a, ER b) const
    {
        if (a->op != b->op || a->width != b->width || a->nk != b->nk || a->aux != b->aux || a->val != b->val) return false;
        for (int i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
        return true;
    }
};
static std::unordered_set<ER, H, E> table;
size_t exprCount() { return arena.size(); }

std::string u128str(u128 v)
{
    if (v == 0) return "0";
    std::string s;
    while (v) { s.push_back('0' + (int)(v % 10)); v /= 10; }
    std::reverse(s.begin(), s.end());
    return s;
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w)
{
    u128 m = maskw(w);
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b == 0 ? m : a / b;
    case UREM: return b == 0 ? a : a % b;
    case SDIV: {
        i128 x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return x < 0 ? 1 : m;
        if (y == -1) return (0 - (u128)x) & m;
        return (u128)(x / y) & m;
    }
    case SREM: {
        i128 x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: { i128 x = sextw(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sextw(a, w) < sextw(b, w);
    case SLE: return sextw(a, w) <= sextw(b, w);
    default: return 0;
    }
}

static void analyse(Expr &e)
{
    u128 m = maskw(e.width);
    u128 kz = ~m, ko = 0, lo = 0, hi = m;
    kz = 0;
    ER a = e.nk > 0 ? e.k[0] : nullptr, b = e.nk > 1 ? e.k[1] : nullptr;
    switch (e.op) {
    case CONST: ko = e.val; kz = ~e.val & m; lo = hi = e.val; break;
    case AND: kz = a->kz | b->kz; ko = a->ko & b->ko; hi = std::min(a->hi, b->hi); break;
    case OR: kz = a->kz & b->kz; ko = a->ko | b->ko; lo = std::max(a->lo, b->lo); break;
    case XOR: kz = (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
    case NOT: kz = a->ko; ko = a->kz; lo = m - a->hi; hi = m - a->lo; break;
    case ADD: {
        unsigned tz = std::min(ctz128(~a->kz), ctz128(~b->kz));
        kz = tz ? maskw(std::min<unsigned>(tz, e.width)) : 0;
        // No overflow: interval addition.
        if (a->hi <= m - b->hi && a->hi + b->hi >= a->hi) { lo = a->lo + b->lo; hi = a->hi + b->hi; }
        else if (b->op == CONST) {
            // Adding a negative constant that never goes below zero.
            u128 neg = (0 - b->val) & m;
            if (a->lo >= neg) { lo = a->lo - neg; hi = a->hi - neg; }
        }
        break;
    }
    case SUB: {
        unsigned tz = std::min(ctz128(~a->kz), ctz128(~b->kz));
        kz = tz ? maskw(std::min<unsigned>(tz, e.width)) : 0;
        if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
        break;
    }
    case MUL: {
        unsigned tz = std::min<unsigned>(128, ctz128(~a->kz) + ctz128(~b->kz));
        kz = tz ? maskw(std::min<unsigned>(tz, e.width)) : 0;
        if (active_bits(a->hi) + active_bits(b->hi) <= e.width) { lo = a->lo * b->lo; hi = a->hi * b->hi; }
        break;
    }
    case UDIV: if (b->lo > 0) { hi = a->hi / b->lo; lo = b->hi ? a->lo / b->hi : 0; } break;
    case UREM: if (b->lo > 0) hi = std::min(a->hi, b->hi - 1); break;
    case SHL:
        if (b->op == CONST && b->val < e.width) {
            unsigned s = (unsigned)b->val;
            kz = ((a->kz << s) | maskw(s)) & m;
            ko = (a->ko << s) & m;
        } else {
            unsigned tz = ctz128(~a->kz);
            if (tz) kz = maskw(std::min<unsigned>(tz, e.width));
        }
        break;
    case LSHR:
        hi = b->lo >= e.width ? 0 : a->hi >> (unsigned)b->lo;
        break;
    case ITE: {
        ER c = e.k[2];
        kz = b->kz & c->kz; ko = b->ko & c->ko;
        lo = std::min(b->lo, c->lo); hi = std::max(b->hi, c->hi);
        break;
    }
    case CONCAT: {
        unsigned lw = b->width;
        kz = (a->kz << lw) | b->kz; ko = (a->ko << lw) | b->ko;
        lo = (a->lo << lw) | b->lo; hi = (a->hi << lw) | b->hi;
        break;
    }
    case EXTRACT:
        kz = (a->kz >> e.aux) & m; ko = (a->ko >> e.aux) & m;
        if (active_bits(a->hi) <= e.aux + e.width) { lo = a->lo >> e.aux; hi = a->hi >> e.aux; }
        break;
    case ZEXT: kz = a->kz | (m & ~maskw(a->width)); ko = a->ko; lo = a->lo; hi = a->hi; break;
    case SEXT: {
        u128 sb = (u128)1 << (a->width - 1), up = m & ~maskw(a->width);
        kz = a->kz; ko = a->ko;
        if (a->kz & sb) kz |= up;
        if (a->ko & sb) ko |= up;
        break;
    }
    default: break;
    }
    // Signed interval (widths up to 126 so that the bounds cannot overflow).
    unsigned w = e.width;
    bool sOk = w <= 126;
    i128 smin = sOk ? -((i128)1 << (w - 1)) : 0, smax = sOk ? ((i128)1 << (w - 1)) - 1 : 0, slo = smin, shi = smax;
    if (sOk) switch (e.op) {
    case CONST: slo = shi = sextw(e.val, w); break;
    case ADD: if (a->slo + b->slo >= smin && a->shi + b->shi <= smax) { slo = a->slo + b->slo; shi = a->shi + b->shi; } break;
    case SUB: if (a->slo - b->shi >= smin && a->shi - b->slo <= smax) { slo = a->slo - b->shi; shi = a->shi - b->slo; } break;
    case NOT: slo = -1 - a->shi; shi = -1 - a->slo; break;
    case MUL:
        if (w <= 62) {
            i128 p[4] = {a->slo * b->slo, a->slo * b->shi, a->shi * b->slo, a->shi * b->shi};
            i128 mn = *std::min_element(p, p + 4), mx = *std::max_element(p, p + 4);
            if (mn >= smin && mx <= smax) { slo = mn; shi = mx; }
        }
        break;
    case ITE: slo = std::min(e.k[1]->slo, e.k[2]->slo); shi = std::max(e.k[1]->shi, e.k[2]->shi); break;
    case SEXT: slo = a->slo; shi = a->shi; break;
    case EXTRACT: if (e.aux == 0 && a->width <= 126 && a->slo >= smin && a->shi <= smax) { slo = a->slo; shi = a->shi; } break;
    case ASHR: if (b->op == CONST) { unsigned n = b->val >= w ? w - 1 : (unsigned)b->val; slo = a->slo >> n; shi = a->shi >> n; } break;
    default: break;
    }
    if (sOk && e.op != CONST) {
        u128 sb = (u128)1 << (w - 1);
        if (hi < sb) { slo = std::max(slo, (i128)lo); shi = std::min(shi, (i128)hi); }
        else if (lo >= sb) { slo = std::max(slo, sextw(lo, w)); shi = std::min(shi, sextw(hi, w)); }
        if (kz & sb) slo = std::max(slo, (i128)0);
        if (ko & sb) shi = std::min(shi, (i128)-1);
        if (slo >= 0) { lo = std::max(lo, (u128)slo); hi = std::min(hi, (u128)shi); }
        else if (shi < 0) { lo = std::max(lo, (u128)slo & m); hi = std::min(hi, (u128)shi & m); }
    }
    e.slo = slo; e.shi = shi;
    if (e.op != CONST) {
        // Exchange information between known bits and interval.
        u128 klo = ko, khi = m & ~kz;
        lo = std::max(lo, klo); hi = std::min(hi, khi);
        unsigned ab = active_bits(hi);
        if (ab < e.width) kz |= m & ~maskw(ab);
        if (lo >> (w - 1)) ko |= (u128)1 << (w - 1);
    }
    e.kz = kz & m; e.ko = ko & m; e.lo = lo; e.hi = hi;
}

static ER intern(Op op, unsigned w, uint32_t aux, u128 val, int nk, ER k0 = nullptr, ER k1 = nullptr, ER k2 = nullptr, ER k3 = nullptr)
{
    Expr e;
    memset((void *)&e, 0, sizeof e);
    e.op = op; e.width = w; e.aux = aux; e.val = val; e.nk = nk;
    e.k[0] = k0; e.k[1] = k1; e.k[2] = k2; e.k[3] = k3;
    auto it = table.find(&e);
    if (it != table.end()) return *it;
    e.id = arena.size() + 1;
    for (int i = 0; i < nk; i++) { e.depth = std::max(e.depth, e.k[i]->depth + 1); e.heavy |= e.k[i]->heavy; }
    if ((op == MUL || op == UDIV || op == UREM || op == SDIV || op == SREM) && w >= 24 && (op != MUL || (k0->op != CONST && k1->op != CONST)))
        e.heavy = true;
    analyse(e);
    // Everything known: a constant after all.
    if (op != CONST) {
        u128 m = maskw(w);
        if ((e.kz | e.ko) == m) return mkConst(e.ko, w);
        if (e.lo == e.hi) return mkConst(e.lo, w);
    }
    arena.push_back(e);
    ER p = &arena.back();
    table.insert(p);
    return p;
}

ER mkConst(u128 v, unsigned w)
{
    return intern(CONST, w, 0, v & maskw(w), 0);
}
ER mkVar(const std::string &name, unsigned w)
{
    auto it = symIndex.find(name);
    uint32_t n;
    if (it == symIndex.end()) { n = g_syms.size(); g_syms.push_back({name, w}); symIndex[name] = n; }
    else n = it->second;
    return intern(VAR, g_syms[n].width, n, 0, 0);
}
ER mkFreshVar(const std::string &prefix, unsigned w)
{
    return mkVar(prefix + "!" + std::to_string(g_syms.size()), w);
}
ER mkUF(const std::string &name, unsigned w, const std::vector<ER> &args)
{
    auto it = ufIndex.find(name);
    uint32_t n;
    if (it == ufIndex.end()) { n = g_ufs.size(); g_ufs.push_back({name, w}); ufIndex[name] = n; }
    else n = it->second;
    ER a[4] = {nullptr, nullptr, nullptr, nullptr};
    for (size_t i = 0; i < args.size() && i < 4; i++) a[i] = args[i];
    return intern(UF, w, n, 0, (int)args.size(), a[0], a[1], a[2], a[3]);
}

ER mkNot(ER a)
{
    if (isC(a)) return mkConst(~a->val, a->width);
    if (a->op == NOT) return a->k[0];
    if (a->width == 1) {
        // Push negation through comparisons: canonical forms EQ, ULT, SLT and their swapped versions.
        if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
        if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
        if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
        if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]);
    }
    if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
    if (a->op == CONCAT) return mkConcat(mkNot(a->k[0]), mkNot(a->k[1]));
    return intern(NOT, a->width, 0, 0, 1, a);
}

ER mkZext(ER a, unsigned w)
{
    if (a->width == w) return a;
    if (isC(a)) return mkConst(a->val, w);
    if (a->op == ZEXT) return mkZext(a->k[0], w);
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
    return intern(ZEXT, w, 0, 0, 1, a);
}
ER mkSext(ER a, unsigned w)
{
    if (a->width == w) return a;
    if (isC(a)) return mkConst((u128)sextw(a->val, a->width), w);
    u128 sb = (u128)1 << (a->width - 1);
    if (a->kz & sb) return mkZext(a, w);
    if (a->op == SEXT) return mkSext(a->k[0], w);
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
    if (a->op == SUB && isC(a->k[0]) && a->k[0]->val == 0 && (a->k[1]->kz & sb))  // sign extension of -x, x >= 0
        return mkBin(SUB, mkConst(0, w), mkZext(a->k[1], w));
    return intern(SEXT, w, 0, 0, 1, a);
}
ER mkConcat(ER h, ER l)
{
    unsigned w = h->width + l->width;
    if (isC(h) && isC(l)) return mkConst((h->val << l->width) | l->val, w);
    if (isC(h) && h->val == 0) return mkZext(l, w);
    if (h->op == ZEXT) return mkZext(mkConcat(h->k[0], l), w);
    if (h->op == EXTRACT && l->op == EXTRACT && h->k[0] == l->k[0] && h->aux == l->aux + l->width)
        return mkExtract(h->k[0], l->aux, w);
    if (l->op == CONCAT && h->op == EXTRACT && l->k[0]->op == EXTRACT && h->k[0] == l->k[0]->k[0] &&
        h->aux == l->k[0]->aux + l->k[0]->width)
        return mkConcat(mkExtract(h->k[0], l->k[0]->aux, h->width + l->k[0]->width), l->k[1]);
    if (h->op == CONCAT) return mkConcat(h->k[0], mkConcat(h->k[1], l));
    if (isC(h) && l->op == CONCAT && isC(l->k[0])) return mkConcat(mkConcat(h, l->k[0]), l->k[1]);
    // ite with the same condition on both sides
    if (h->op == ITE && l->op == ITE && h->k[0] == l->k[0])
        return mkIte(h->k[0], mkConcat(h->k[1], l->k[1]), mkConcat(h->k[2], l->k[2]));
    if (l->op == CONCAT && h->op == ITE && l->k[0]->op == ITE && h->k[0] == l->k[0]->k[0])
        return mkConcat(mkConcat(h, l->k[0]), l->k[1]);
    if (h->op == ITE && isC(l) && isC(h->k[1]) && isC(h->k[2]))
        return mkIte(h->k[0], mkConcat(h->k[1], l), mkConcat(h->k[2], l));
    return intern(CONCAT, w, 0, 0, 2, h, l);
}

struct ExKey { ER a; unsigned lo, w; bool operator==(const ExKey &o) const { return a == o.a && lo == o.lo && w == o.w; } };
struct ExHash { size_t operator()(const ExKey &k) const { return ((size_t)k.a->id * 131 + k.lo) * 137 + k.w; } };
static std::unordered_map<ExKey, ER, ExHash> exCache;

static ER extract1(ER a, unsigned lo, unsigned w)
{
    switch (a->op) {
    case CONST: return mkConst(a->val >> lo, w);
    case EXTRACT: return mkExtract(a->k[0], lo + a->aux, w);
    case CONCAT: {
        unsigned lw = a->k[1]->width;
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case ZEXT: {
        unsigned iw = a->k[0]->width;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case SEXT: {
        unsigned iw = a->k[0]->width;
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if (lo >= iw) return mkSext(mkExtract(a->k[0], iw - 1, 1), w);
        return mkSext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case NOT: return mkNot(mkExtract(a->k[0], lo, w));
    case AND: case OR: case XOR:
        return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case ITE:
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    case ADD: case SUB: case MUL:
        if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        // Low bits that cannot carry may be dropped.
        if (a->op == ADD) {
            u128 ml = maskw(lo);
            if ((a->k[0]->kz & ml) == ml) // low part of one operand is zero: no carry out of it
                return mkBin(ADD, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
            if ((a->k[1]->kz & ml) == ml)
                return mkBin(ADD, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        }
        break;
    case SHL:
        if (lo == 0 && isC(a->k[1])) return nullptr;
        break;
    default: break;
    }
    return nullptr;
}

ER mkExtract(ER a, unsigned lo, unsigned w)
{
    if (w == a->width) return a;
    if (isC(a)) return mkConst(a->val >> lo, w);
    u128 m = maskw(w);
    if ((((a->kz | a->ko) >> lo) & m) == m) return mkConst(a->ko >> lo, w);
    ExKey key{a, lo, w};
    auto it = exCache.find(key);
    if (it != exCache.end()) return it->second;
    ER r = extract1(a, lo, w);
    if (!r) r = intern(EXTRACT, w, lo, 0, 1, a);
    exCache[key] = r;
    return r;
}

ER mkIte(ER c, ER a, ER b)
{
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == NOT) return mkIte(c->k[0], b, a);
    if (a->width == 1) {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a)) return mkBin(OR, c, b);
        if (isFalse(a)) return mkBin(AND, mkNot(c), b);
        if (isTrue(b)) return mkBin(OR, mkNot(c), a);
        if (isFalse(b)) return mkBin(AND, c, a);
    }
    if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
    if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
    if (b->op == ITE && b->k[1] == a) return mkIte(mkBin(OR, c, b->k[0]), a, b->k[2]);
    if (a->op == ITE && a->k[2] == b) return mkIte(mkBin(AND, c, a->k[0]), a->k[1], b);
    // Common structure.
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width)
        return mkZext(mkIte(c, a->k[0], b->k[0]), a->width);
    if (a->op == ZEXT && isC(b) && active_bits(b->val) <= a->k[0]->width)
        return mkZext(mkIte(c, a->k[0], mkConst(b->val, a->k[0]->width)), a->width);
    if (b->op == ZEXT && isC(a) && active_bits(a->val) <= b->k[0]->width)
        return mkZext(mkIte(c, mkConst(a->val, b->k[0]->width), b->k[0]), a->width);
    if (a->op == CONCAT && b->op == CONCAT && a->k[1]->width == b->k[1]->width && (a->k[0] == b->k[0] || a->k[1] == b->k[1]))
        return mkConcat(mkIte(c, a->k[0], b->k[0]), mkIte(c, a->k[1], b->k[1]));
    return intern(ITE, a->width, 0, 0, 3, c, a, b);
}

static bool commutative(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }

// Is (a op b) bitwise with disjoint halves?  Then it is a concatenation.
static ER disjointConcat(ER a, ER b)
{
    unsigned w = a->width;
    for (int t = 0; t < 2; t++) {
        unsigned nb = active_bits(b->hi);
        nb = std::min(nb, active_bits(~b->kz & maskw(w)));
        if (nb == 0) return a;
        if (nb < w && (a->kz & maskw(nb)) == maskw(nb))
            return mkConcat(mkExtract(a, nb, w - nb), mkExtract(b, 0, nb));
        std::swap(a, b);
    }
    return nullptr;
}

static unsigned countIteLeaves(ER e, unsigned lim)
{
    if (e->op != ITE) return isC(e) ? 1 : lim + 1;
    unsigned n = countIteLeaves(e->k[1], lim);
    if (n > lim) return n;
    return n + countIteLeaves(e->k[2], lim);
}

ER mkBin(Op op, ER a, ER b)
{
    unsigned w = a->width;
    bool rel = op >= EQ && op <= SLE;
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->val, b->val, w), rel ? 1 : w);
    if (commutative(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u128 m = maskw(w);
    switch (op) {
    case ADD:
        if (isC(b)) {
            if (b->val == 0) return a;
            { // the upper bits are known and the lower ones do not change
                unsigned t = 0;
                while (!(b->val >> t & 1)) t++;
                u128 up = m & ~maskw(t);
                if (t && ((a->kz | a->ko) & up) == up) return mkConcat(mkConst((a->ko + b->val) >> t, w - t), mkExtract(a, 0, t));
            }
            if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
            if (a->op == SUB && isC(a->k[0])) return mkBin(SUB, mkConst(a->k[0]->val + b->val, w), a->k[1]);
            if (a->op == NOT && b->val == 1) return mkBin(SUB, mkConst(0, w), a->k[0]);
            if (b->val == 1 && a->op == CONCAT && isC(a->k[0]) && (a->ko >> (w - 1) & 1)) { // -x for a small x, as ~x + 1
                ER l = a->k[1];
                while (l->op == CONCAT && isC(l->k[0])) l = l->k[1];
                if (l->op == NOT) return mkBin(SUB, mkConst(0, w), mkNot(a));
            }
            if (a->op == ITE && countIteLeaves(a, 4) <= 4) return mkIte(a->k[0], mkBin(ADD, a->k[1], b), mkBin(ADD, a->k[2], b));
        }
        if (w == 1) return mkBin(XOR, a, b);
        if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
        if (b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
        if (a->op == SUB && a->k[1] == b) return a->k[0];
        if (b->op == SUB && b->k[1] == a) return b->k[0];
        if (b->op == SUB && isC(b->k[0]) && b->k[0]->val == 0) return mkBin(SUB, a, b->k[1]);
        if (a->op == SUB && isC(a->k[0]) && a->k[0]->val == 0) return mkBin(SUB, b, a->k[1]);
        if ((a->kz | b->kz) == m) { if (ER r = disjointConcat(a, b)) return r; }
        break;
    case SUB:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->val, w));
        if (isC(a) && a->val == m) return mkNot(b);
        if (w == 1) return mkBin(XOR, a, b);
        if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
        if (b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkConst(0 - b->k[1]->val, w));
        if (a->op == ADD && a->k[1] == b) return a->k[0];
        if (a->op == ADD && a->k[0] == b) return a->k[1];
        if (b->op == SUB && isC(b->k[0]) && b->k[0]->val == 0) return mkBin(ADD, a, b->k[1]);
        if (isC(a) && b->op == SUB && isC(b->k[0])) return mkBin(ADD, b->k[1], mkConst(a->val - b->k[0]->val, w));
        if (isC(a) && b->op == ITE && countIteLeaves(b, 4) <= 4) return mkIte(b->k[0], mkBin(SUB, a, b->k[1]), mkBin(SUB, a, b->k[2]));
        break;
    case MUL:
        if (isC(b)) {
            if (b->val == 0) return b;
            if (b->val == 1) return a;
            if ((b->val & (b->val - 1)) == 0) return mkBin(SHL, a, mkConst(ctz128(b->val), w));
        }
        if (a->op == SUB && isC(a->k[0]) && a->k[0]->val == 0) return mkBin(SUB, mkConst(0, w), mkBin(MUL, a->k[1], b));
        if (b->op == SUB && isC(b->k[0]) && b->k[0]->val == 0) return mkBin(SUB, mkConst(0, w), mkBin(MUL, a, b->k[1]));
        break;
    case UDIV:
        if (isC(b)) {
            if (b->val == 1) return a;
            if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(LSHR, a, mkConst(ctz128(b->val), w));
        }
        if (b->lo > 0 && a->hi < b->lo) return mkConst(0, w);
        break;
    case UREM:
        if (isC(b)) {
            if (b->val == 1) return mkConst(0, w);
            if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(AND, a, mkConst(b->val - 1, w));
        }
        if (b->lo > 0 && a->hi < b->lo) return a;
        break;
    case SDIV: case SREM: {
        u128 sb = (u128)1 << (w - 1);
        if ((a->kz & sb) && (b->kz & sb)) return mkBin(op == SDIV ? UDIV : UREM, a, b);
        if (isC(b) && b->val == 1) return op == SDIV ? a : mkConst(0, w);
        break;
    }
    case AND:
        if (a == b) return a;
        if (isC(b)) {
            if (b->val == 0) return b;
            if (b->val == m) return a;
            if (((a->kz | b->val) & m) == m) return a;
            // Mask of contiguous ones: extraction.
            unsigned tz = ctz128(b->val), ab = active_bits(b->val);
            if ((b->val >> tz) == maskw(ab - tz)) {
                ER x = mkExtract(a, tz, ab - tz);
                if (tz) x = mkConcat(x, mkConst(0, tz));
                return mkZext(x, w);
            }
        }
        if (w == 1) {
            if (a->op == NOT && a->k[0] == b) return eFalse();
            if (b->op == NOT && b->k[0] == a) return eFalse();
            if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
            if ((a->op == ULT && b->op == ULE) || (a->op == ULE && b->op == ULT) || (a->op == SLT && b->op == SLE) || (a->op == SLE && b->op == SLT))
                if (a->k[0] == b->k[1] && a->k[1] == b->k[0]) return eFalse();
        }
        break;
    case OR:
        if (a == b) return a;
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val == m) return b;
            if ((a->ko & b->val) == b->val) return a;
        }
        if (w == 1) {
            if (a->op == NOT && a->k[0] == b) return eTrue();
            if (b->op == NOT && b->k[0] == a) return eTrue();
            if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return a;
            if ((a->op == ULT && b->op == ULE) || (a->op == ULE && b->op == ULT) || (a->op == SLT && b->op == SLE) || (a->op == SLE && b->op == SLT))
                if (a->k[0] == b->k[1] && a->k[1] == b->k[0]) return eTrue();
        } else if ((a->kz | b->kz) == m) {
            if (ER r = disjointConcat(a, b)) return r;
        }
        break;
    case XOR:
        if (a == b) return mkConst(0, w);
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val == m) return mkNot(a);
            if (a->op == XOR && isC(a->k[1])) return mkBin(XOR, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
            // Split at the boundaries of the mask.
            unsigned tz = ctz128(b->val), ab = active_bits(b->val);
            if (tz) return mkConcat(mkBin(XOR, mkExtract(a, tz, w - tz), mkConst(b->val >> tz, w - tz)), mkExtract(a, 0, tz));
            if (ab < w) return mkConcat(mkExtract(a, ab, w - ab), mkBin(XOR, mkExtract(a, 0, ab), mkConst(b->val, ab)));
        }
        if (w > 1 && (a->kz | b->kz) == m) { if (ER r = disjointConcat(a, b)) return r; }
        break;
    case SHL:
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        if (isC(a) && a->val == 0) return a;
        break;
    case LSHR:
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkZext(mkExtract(a, s, w - s), w);
        }
        if (isC(a) && a->val == 0) return a;
        break;
    case ASHR:
        if (isC(b)) {
            unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
            if (s == 0) return a;
            return mkSext(mkExtract(a, s, w - s), w);
        }
        if (a->kz & ((u128)1 << (w - 1))) return mkBin(LSHR, a, b);
        break;
    case EQ:
        if (a == b) return eTrue();
        if ((a->kz & b->ko) || (a->ko & b->kz) || a->lo > b->hi || b->lo > a->hi) return eFalse();
        if (w <= 126 && (a->slo > b->shi || b->slo > a->shi)) return eFalse();
        if (w == 1) {
            if (isC(b)) return b->val ? a : mkNot(a);
            return mkNot(mkBin(XOR, a, b));
        }
        if (isC(b)) {
            if (a->op == ZEXT) return mkBin(EQ, a->k[0], mkConst(b->val, a->k[0]->width));
            if (a->op == SEXT) {
                unsigned iw = a->k[0]->width;
                if (((u128)sextw(b->val, iw) & m) != b->val) return eFalse();
                return mkBin(EQ, a->k[0], mkConst(b->val, iw));
            }
            if (a->op == CONCAT) {
                unsigned lw = a->k[1]->width;
                return mkBin(AND, mkBin(EQ, a->k[0], mkConst(b->val >> lw, w - lw)), mkBin(EQ, a->k[1], mkConst(b->val, lw)));
            }
            if (a->op == NOT) return mkBin(EQ, a->k[0], mkConst(~b->val, w));
            if (a->op == ADD && isC(a->k[1])) return mkBin(EQ, a->k[0], mkConst(b->val - a->k[1]->val, w));
            if (a->op == SUB && isC(a->k[0])) return mkBin(EQ, a->k[1], mkConst(a->k[0]->val - b->val, w));
            if (a->op == XOR && isC(a->k[1])) return mkBin(EQ, a->k[0], mkConst(b->val ^ a->k[1]->val, w));
            if (a->op == ITE) {
                if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == ITE || a->k[2]->op == ITE) {
                    if (isC(a->k[1]) && isC(a->k[2]))
                        return a->k[1]->val == b->val ? a->k[0] : a->k[2]->val == b->val ? mkNot(a->k[0]) : eFalse();
                    if (isC(a->k[1]) && a->k[1]->val != b->val) return mkBin(AND, mkNot(a->k[0]), mkBin(EQ, a->k[2], b));
                    if (isC(a->k[2]) && a->k[2]->val != b->val) return mkBin(AND, a->k[0], mkBin(EQ, a->k[1], b));
                }
            }
        }
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkBin(EQ, a->k[0], b->k[0]);
        if (a->op == ZEXT && b->op == ZEXT) {
            unsigned nw = std::max(a->k[0]->width, b->k[0]->width);
            return mkBin(EQ, mkZext(a->k[0], nw), mkZext(b->k[0], nw));
        }
        if (a->op == CONCAT && b->op == CONCAT && a->k[1]->width == b->k[1]->width)
            return mkBin(AND, mkBin(EQ, a->k[0], b->k[0]), mkBin(EQ, a->k[1], b->k[1]));
        if (a->op == NOT && b->op == NOT) return mkBin(EQ, a->k[0], b->k[0]);
        if (a->op == ADD && b->op == ADD && a->k[0] == b->k[0]) return mkBin(EQ, a->k[1], b->k[1]);
        if (a->op == SEXT && b->op == SEXT && a->k[0]->width == b->k[0]->width) return mkBin(EQ, a->k[0], b->k[0]);
        break;
    case ULT:
        if (a == b) return eFalse();
        if (a->hi < b->lo) return eTrue();
        if (a->lo >= b->hi) return eFalse();
        if (isC(b) && b->val == 1) return mkBin(EQ, a, mkConst(0, w));
        if (isC(a) && a->val == 0) return mkNot(mkBin(EQ, b, a));
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkBin(ULT, a->k[0], b->k[0]);
        if (a->op == ZEXT && isC(b)) return mkBin(ULT, a->k[0], mkConst(b->val, a->k[0]->width));
        if (b->op == ZEXT && isC(a)) return mkBin(ULT, mkConst(a->val, b->k[0]->width), b->k[0]);
        if (isC(b) && (b->val & (b->val - 1)) == 0) { // a < 2^k: the upper bits are zero
            unsigned s = ctz128(b->val);
            return mkBin(EQ, mkExtract(a, s, w - s), mkConst(0, w - s));
        }
        break;
    case ULE:
        if (a == b) return eTrue();
        if (a->hi <= b->lo) return eTrue();
        if (a->lo > b->hi) return eFalse();
        if (isC(b) && b->val != m) return mkBin(ULT, a, mkConst(b->val + 1, w));
        if (isC(a) && a->val == 1) return mkNot(mkBin(EQ, b, mkConst(0, w)));
        if (isC(a) && a->val != 0) return mkBin(ULT, mkConst(a->val - 1, w), b);
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkBin(ULE, a->k[0], b->k[0]);
        break;
    case SLT: case SLE: {
        if (a == b) return mkConst(op == SLE, 1);
        if (w <= 126) {
            if (op == SLT ? a->shi < b->slo : a->shi <= b->slo) return eTrue();
            if (op == SLT ? a->slo >= b->shi : a->slo > b->shi) return eFalse();
        }
        u128 sb = (u128)1 << (w - 1);
        bool ap = a->kz & sb, an = a->ko & sb, bp = b->kz & sb, bn = b->ko & sb;
        if ((ap && bp) || (an && bn)) return mkBin(op == SLT ? ULT : ULE, a, b);
        if (an && bp) return eTrue();
        if (ap && bn) return eFalse();
        if (isC(b) && b->val == 0 && op == SLT) return mkExtract(a, w - 1, 1);
        if (isC(a) && a->val == m && op == SLT) return mkNot(mkExtract(b, w - 1, 1));
        if (isC(a) && a->val == 0 && op == SLE) return mkNot(mkExtract(b, w - 1, 1));
        if (isC(b) && b->val == m && op == SLE) return mkExtract(a, w - 1, 1);
        if (op == SLE && isC(b) && b->val != sb - 1) return mkBin(SLT, a, mkConst(b->val + 1, w));
        if (op == SLE && isC(a) && a->val != sb) return mkBin(SLT, mkConst(a->val - 1, w), b);
        if (a->op == SEXT && b->op == SEXT && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
        if (a->op == SEXT && isC(b)) {
            unsigned iw = a->k[0]->width;
            if (((u128)sextw(b->val, iw) & m) == b->val) return mkBin(op, a->k[0], mkConst(b->val, iw));
        }
        if (b->op == SEXT && isC(a)) {
            unsigned iw = b->k[0]->width;
            if (((u128)sextw(a->val, iw) & m) == a->val) return mkBin(op, mkConst(a->val, iw), b->k[0]);
        }
        break;
    }
    default: break;
    }
    // Bitwise operations on values with known-zero upper parts: narrow.
    if (op == AND || op == OR || op == XOR) {
        unsigned n = std::max(active_bits(m & ~a->kz), active_bits(m & ~b->kz));
        if (op == AND) n = std::min(active_bits(m & ~a->kz), active_bits(m & ~b->kz));
        if (n == 0) return mkConst(0, w);
        if (n < w) return mkZext(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    }
    // Comparison of an ite tree with constant leaves against a constant.
    if (rel && w > 1 && (op == ULT || op == ULE || op == SLT || op == SLE || op == EQ)) {
        if (a->op == ITE && isC(b) && countIteLeaves(a, 6) <= 6) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        if (b->op == ITE && isC(a) && countIteLeaves(b, 6) <= 6) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
    }
    return intern(op, rel ? 1 : w, 0, 0, 2, a, b);
}

u128 Model::eval(ER root)
{
    if (isC(root)) return root->val;
    auto f = cache.find(root);
    if (f != cache.end()) return f->second;
    // Iterative post-order.
    std::vector<std::pair<ER, int>> st;
    st.push_back({root, 0});
    while (!st.empty()) {
        ER e = st.back().first;
        int i = st.back().second;
        if (i < e->nk) {
            st.back().second++;
            ER k = e->k[i];
            if (!isC(k) && !cache.count(k)) st.push_back({k, 0});
            continue;
        }
        st.pop_back();
        if (cache.count(e)) continue;
        u128 v[4] = {0, 0, 0, 0};
        for (int j = 0; j < e->nk; j++) v[j] = isC(e->k[j]) ? e->k[j]->val : cache[e->k[j]];
        u128 r = 0;
        switch (e->op) {
        case VAR: { auto it = vars.find(e->aux); r = it == vars.end() ? 0 : it->second; break; }
        case UF: {
            std::vector<u128> args(v, v + e->nk);
            auto &tab = ufs[e->aux];
            bool found = false;
            for (auto &p : tab) if (p.first == args) { r = p.second; found = true; break; }
            if (!found) tab.push_back({args, 0});
            break;
        }
        case NOT: r = ~v[0]; break;
        case ITE: r = v[0] ? v[1] : v[2]; break;
        case CONCAT: r = (v[0] << e->k[1]->width) | v[1]; break;
        case EXTRACT: r = v[0] >> e->aux; break;
        case ZEXT: r = v[0]; break;
        case SEXT: r = (u128)sextw(v[0], e->k[0]->width); break;
        default: r = foldBin(e->op, v[0], v[1], e->k[0]->width); break;
        }
        cache[e] = r & maskw(e->width);
    }
    return cache[root];
}

static const char *opName[] = {"const", "var", "uf", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "not",
    "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
std::string exprStr(ER e, int depth)
{
    std::ostringstream o;
    if (e->op == CONST) { o << "#" << u128str(e->val) << ":" << (int)e->width; return o.str(); }
    if (e->op == VAR) return g_syms[e->aux].name;
    if (depth == 0) return "...";
    o << "(" << opName[e->op];
    if (e->op == UF) o << " " << g_ufs[e->aux].name;
    if (e->op == EXTRACT) o << "[" << e->aux << "+" << (int)e->width << "]";
    if (e->op == ZEXT || e->op == SEXT) o << (int)e->width;
    for (int i = 0; i < e->nk; i++) o << " " << exprStr(e->k[i], depth - 1);
    o << ")";
    return o.str();
}
