// Symbolic executor for LLVM bitcode.  See DESIGN.md.
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unistd.h>
#include <sys/resource.h>

using namespace llvm;

// ---------------------------------------------------------------- options and statistics
static uint64_t optMaxSteps = 200000000, optMaxPaths = 1000000;
static double optMaxTime = 800;
static int optSamples = 12, optMaxViol = 3;
static bool optVerbose = false, optUB = false;
static std::string optRepo = "/repo";
static double T0;
static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Stop { std::string why; };             // the current path ends
struct Killed {};                             // infeasible path
struct Violation { std::string label; };
struct EngineLimit { std::string why; };

static uint64_t nUncertain = 0, nPaths = 0, nForks = 0, nSteps = 0, nAsserts = 0, nAssertQueries = 0, nInfeasible = 0;
static std::map<std::string, uint64_t> uncertainReach, reachCount, assertCount, limitCount, endCount;
struct Report { std::string label, kind, loc; std::vector<std::pair<std::string, std::string>> inputs;
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> regions;
    std::vector<std::pair<std::string, std::string>> observes; bool usesUF; };
static std::vector<Report> violations, samples;
static std::map<std::string, int> violCount;

static Module *M;
static const DataLayout *DL;
static std::deque<SP> work;

// ---------------------------------------------------------------- memory
Page::Page(const Page &o)
{
    memcpy(b, o.b, PAGE);
    if (o.s) { s.reset(new SymByte[PAGE]); memcpy((void *)s.get(), (void *)o.s.get(), sizeof(SymByte) * PAGE); }
}

static std::shared_ptr<Page> zeroPage;
static ObjRef newObj(uint64_t size, const std::string &name, bool zero = true)
{
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->name = name;
    o->c = std::make_shared<Content>();
    if (!zeroPage) { zeroPage = std::make_shared<Page>(); memset(zeroPage->b, 0, PAGE); }
    o->c->pages.assign((size + PAGE - 1) / PAGE, zeroPage);
    return o;
}
static uint64_t addObj(State &s, ObjRef o)
{
    s.objs.push_back(o);
    return (uint64_t)(s.objs.size() - 1) << 32;
}
static Content &wcontent(State &s, uint32_t id)
{
    ObjRef &o = s.objs[id];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    if (o->c.use_count() > 1) o->c = std::make_shared<Content>(*o->c);
    return *o->c;
}
static Page &wpage(Content &c, size_t p)
{
    if (c.pages[p].use_count() > 1) c.pages[p] = std::make_shared<Page>(*c.pages[p]);
    return *c.pages[p];
}

static Val rawRead(const Content &c, uint64_t off, unsigned n)
{
    // n <= 16 bytes
    size_t p = off / PAGE, q = off % PAGE;
    if (q + n <= PAGE) {
        const Page &pg = *c.pages[p];
        if (!pg.s) { u128 v = 0; memcpy(&v, pg.b + q, n); return Val(v); }
    }
    bool sym = false;
    u128 v = 0;
    SymByte sb[16];
    for (unsigned i = 0; i < n; i++) {
        const Page &pg = *c.pages[(off + i) / PAGE];
        unsigned r = (off + i) % PAGE;
        if (pg.s && pg.s[r].e) { sb[i] = pg.s[r]; sym = true; }
        else { sb[i].e = nullptr; sb[i].idx = pg.b[r]; v |= (u128)pg.b[r] << (8 * i); }
    }
    if (!sym) return Val(v);
    // Whole value?
    ER r = nullptr;
    for (unsigned i = 0; i < n;) {
        ER part;
        if (sb[i].e) {
            unsigned j = i + 1;
            while (j < n && sb[j].e == sb[i].e && sb[j].idx == sb[i].idx + (j - i)) j++;
            ER e = sb[i].e;
            unsigned lo = sb[i].idx * 8, w = (j - i) * 8;
            if (lo + w > e->width) part = mkZext(mkExtract(e, lo, e->width - lo), w);
            else part = mkExtract(e, lo, w);
            i = j;
        } else {
            unsigned j = i + 1;
            u128 cv = sb[i].idx;
            while (j < n && !sb[j].e) { cv |= (u128)sb[j].idx << (8 * (j - i)); j++; }
            part = C(cv, (j - i) * 8);
            i = j;
        }
        r = r ? mkConcat(part, r) : part;
    }
    return Val(r);
}
static void rawWrite(Content &c, uint64_t off, unsigned n, const Val &v)
{
    for (unsigned i = 0; i < n;) {
        Page &pg = wpage(c, (off + i) / PAGE);
        unsigned r = (off + i) % PAGE;
        unsigned m = std::min<unsigned>(n - i, PAGE - r);
        if (v.e) {
            if (!pg.s) { pg.s.reset(new SymByte[PAGE]); memset((void *)pg.s.get(), 0, sizeof(SymByte) * PAGE); }
            for (unsigned j = 0; j < m; j++) { pg.s[r + j].e = v.e; pg.s[r + j].idx = i + j; }
        } else {
            u128 x = v.c >> (8 * i);
            memcpy(pg.b + r, &x, m);
            if (pg.s) for (unsigned j = 0; j < m; j++) pg.s[r + j].e = nullptr;
        }
        i += m;
    }
}

// ---------------------------------------------------------------- decisions
static SP cur;          // the path being executed
static std::string locStr(State &s);

static void addFact(State &s, ER c)
{
    if (isTrue(c)) return;
    if (c->op == AND && c->width == 1) { addFact(s, c->k[0]); addFact(s, c->k[1]); return; }
    if (s.facts.insert(c).second) s.pc.push_back(c);
}
static bool factTrue(State &s, ER c)
{
    if (s.facts.count(c)) return true;
    if (c->op == AND && c->width == 1) return factTrue(s, c->k[0]) && factTrue(s, c->k[1]);
    return false;
}
static bool factFalse(State &s, ER c)
{
    return s.facts.count(mkNot(c)) || (c->op == AND && c->width == 1 && (factFalse(s, c->k[0]) || factFalse(s, c->k[1])));
}

static bool optUFFP = false; // symbolic long double operators as uninterpreted functions
static double optBranch = 8;   // seconds for a query at a branch
static Res query(State &s, ER c, std::shared_ptr<Model> *m, bool branch = false)
{
    if (now() - T0 > optMaxTime) throw EngineLimit{"time"};
    double lim = std::max(1.0, std::min(branch ? optBranch : g_slowTimeout, optMaxTime - (now() - T0)));
    static const char *slow = getenv("ENGINE_SLOW");
    double t = now();
    Res r = solverCheck(s.pc, c, *s.model, m, !s.uncertain, lim);
    if (slow && now() - t > atof(slow))
        fprintf(stderr, "slow %.2f %s %s\n  %s\n", now() - t, r == Res::SAT ? "sat" : r == Res::UNSAT ? "unsat" : "?", locStr(s).c_str(), exprStr(c, 12).c_str());
    return r;
}

// Which of the two answers does the path take?  Both possible: fork.
static bool decide(ER c)
{
    State &s = *cur;
    if (isC(c)) return c->val;
    if (factTrue(s, c)) return true;
    if (factFalse(s, c)) return false;
    bool side = s.model->eval(c);
    std::shared_ptr<Model> mine;
    bool mineOk = !s.uncertain;
    if (s.uncertain) {
        // The model proves nothing here: ask about both sides.
        Res r = query(s, side ? c : mkNot(c), &mine, true);
        if (r == Res::SAT) mineOk = true;
        else if (r == Res::UNSAT) {
            s.facts.insert(side ? mkNot(c) : c);
            return !side;  // the path condition implies it (or is unsatisfiable: found out later)
        }
    }
    ER other = side ? mkNot(c) : c;
    std::shared_ptr<Model> m;
    Res r = query(s, other, &m, true);
    if (mineOk && s.uncertain) { s.model = mine; s.uncertain = false; }
    if (r == Res::UNSAT) {
        // Implied: remember as a fact (cheap later), no new constraint needed.
        s.facts.insert(side ? c : mkNot(c));
        return side;
    }
    // Fork: the other side is re-executed from the current instruction later.  When the solver gave no
    // answer the other side is explored all the same, marked uncertain.
    nForks++;
    auto t = std::make_shared<State>(s);
    if (r == Res::SAT) { t->model = m; t->uncertain = false; }
    else { t->uncertain = true; nUncertain++; }
    addFact(*t, other);
    t->forks++;
    work.push_back(t);
    addFact(s, side ? c : mkNot(c));
    s.forks++;
    return side;
}
// Needs a model of the path condition: one query when the path is uncertain.
static void settle(State &s)
{
    if (!s.uncertain) return;
    std::shared_ptr<Model> m;
    Res r = query(s, eTrue(), &m);
    if (r == Res::UNSAT) throw Killed();
    if (r == Res::UNKNOWN) { limitCount["solver could not decide whether a path is feasible: " + locStr(s)]++; throw Killed(); }
    s.model = m;
    s.uncertain = false;
}
static bool decideV(const Val &v) { return v.e ? decide(v.e) : (v.c & 1); }

// Make a value concrete, forking over the possibilities.
static u128 concretize(const Val &v)
{
    if (!v.e) return v.c;
    settle(*cur);
    for (;;) {
        u128 x = cur->model->eval(v.e);
        if (decide(eEq(v.e, C(x, v.e->width)))) return x;
    }
}

// Resolve an address to an object and offset; n bytes must be inside.
struct Loc { uint32_t id; Val off; };
static Loc resolve(State &s, const Val &addr, uint64_t n, const char *what)
{
    Loc l;
    if (!addr.e) {
        uint64_t a = (uint64_t)addr.c;
        l.id = a >> 32;
        uint64_t off = (uint32_t)a;
        if (l.id == 0 || l.id >= s.objs.size() || !s.objs[l.id])
            throw Violation{std::string("memory: ") + what + (a < 65536 ? " through a null pointer" : l.id < s.objs.size() && l.id ? " of freed storage" : " through a wild pointer")};
        if (off + n > s.objs[l.id]->size)
            throw Violation{std::string("memory: ") + what + " out of bounds of " + s.objs[l.id]->name};
        l.off = Val((u128)off);
        return l;
    }
    settle(s);
    u128 a = s.model->eval(addr.e);
    l.id = (uint64_t)a >> 32;
    bool bad = l.id == 0 || l.id >= s.objs.size() || !s.objs[l.id] || (uint32_t)a + n > s.objs[l.id]->size;
    if (bad) {
        // The model's address is wild: feasible violation.
        // Follow the good side too: split by object of a neighbouring in-bounds address is not attempted;
        // report with this model, then constrain the path away from exactly this class if possible.
        uint32_t oid = l.id;
        std::string nm = oid && oid < s.objs.size() && s.objs[oid] ? s.objs[oid]->name : std::string("no object");
        throw Violation{std::string("memory: ") + what + " out of bounds of " + nm};
    }
    uint64_t size = s.objs[l.id]->size;
    if (size < n) throw Violation{std::string("memory: ") + what + " out of bounds"};
    ER off = eSub(addr.e, C((u128)l.id << 32, 64));
    ER inb = eUle(off, C(size - n, 64));
    bool ok = decide(inb); // the other side re-executes and reports or resolves elsewhere
    if (!ok) throw Violation{std::string("memory: ") + what + " out of bounds"};
    l.off = Val(mkExtract(off, 0, 32));
    return l;
}

// Candidate offsets of a symbolic offset.
static bool candidates(State &s, ER off, uint64_t size, unsigned n, std::vector<uint64_t> &out, size_t limit)
{
    u128 lo = off->lo, hi = std::min<u128>(off->hi, size - n);
    unsigned low = std::min<unsigned>(ctz128(~(off->kz | off->ko)), 16); // known low bits
    u128 stride = (u128)1 << low, rem = off->ko & (stride - 1);
    if ((hi - lo) / stride > limit) {
        // Tighten with the solver: upper bound first.
        settle(s);
        std::shared_ptr<Model> m;
        u128 top = s.model->eval(off), bot = top;
        for (int it = 0; it < 40; it++) { // grow the maximum
            if (top >= hi) break;
            u128 mid = top + (hi - top + 1) / 2;
            Res r = query(s, eUle(C(mid, off->width), off), &m);
            if (r == Res::SAT) top = m->eval(off);
            else if (r == Res::UNSAT) hi = mid - 1;
            else return false;
        }
        for (int it = 0; it < 40; it++) {
            if (bot <= lo) break;
            u128 mid = lo + (bot - lo) / 2;
            Res r = query(s, eUle(off, C(mid, off->width)), &m);
            if (r == Res::SAT) bot = m->eval(off);
            else if (r == Res::UNSAT) lo = mid + 1;
            else return false;
        }
        lo = std::min(lo, bot); hi = std::max(hi, top);
        // Low bits the solver knows but the term does not: try alignment 4, 8, 16.
        for (unsigned al = 16; al >= 2 && stride < al; al /= 2) {
            u128 r0 = s.model->eval(off) & (al - 1);
            if (query(s, mkNot(eEq(eAnd(off, C(al - 1, off->width)), C(r0, off->width))), &m) == Res::UNSAT) {
                stride = al; rem = r0; break;
            }
        }
        if ((hi - lo) / stride > limit) return false;
    }
    u128 x = lo - (lo & (stride - 1)) + rem;
    if (x < lo) x += stride;
    for (; x <= hi; x += stride) out.push_back((uint64_t)x);
    return true;
}

static Val readObj(State &s, uint32_t id, const Val &off, unsigned n);

static Val readLogged(State &s, const Content &c, uint32_t id, const Val &off, unsigned n, size_t upto)
{
    // Newest first.
    for (size_t i = upto; i-- > 0;) {
        const LogEnt &l = c.log[i];
        if (l.conc && !off.e) {
            if (l.coff == off.c && l.n == n) return l.v;
            if (l.coff + l.n <= off.c || off.c + n <= l.coff) continue;
            if (l.coff <= off.c && off.c + n <= l.coff + l.n)
                return Val(mkExtract(toE(l.v, l.n * 8), (unsigned)(off.c - l.coff) * 8, n * 8));
            // Partial overlap: combine bytes.
            ER r = nullptr;
            for (unsigned k = 0; k < n; k++) {
                Val b = readLogged(s, c, id, Val(off.c + k), 1, i + 1);
                r = r ? mkConcat(toE(b, 8), r) : toE(b, 8);
            }
            return Val(r);
        }
        ER lo = l.conc ? C(l.coff, 32) : l.off, ro = toE(off, 32);
        if ((uint64_t)ro->hi + n <= (uint64_t)lo->lo || (uint64_t)lo->hi + l.n <= (uint64_t)ro->lo) continue;
        ER diff = eSub(ro, lo);
        if (isC(diff)) {
            int64_t d = (int32_t)(uint32_t)diff->val;
            if (d == 0 && l.n == n) return l.v;
            if (d >= (int64_t)l.n || d + (int64_t)n <= 0) continue;
            if (d >= 0 && d + n <= l.n) return Val(mkExtract(toE(l.v, l.n * 8), d * 8, n * 8));
        }
        // Same alignment class?
        unsigned al = 1;
        while (al < n && al < l.n) al *= 2;
        u128 am = al - 1;
        bool aligned = al > 1 ? ((diff->kz & am) == am) : true;
        if (aligned && l.n == n && (n & (n - 1)) == 0) {
            ER eq = eEq(ro, lo);
            if (isFalse(eq)) continue;
            Val rest = readLogged(s, c, id, off, n, i);
            return Val(mkIte(eq, toE(l.v, n * 8), toE(rest, n * 8)));
        }
        // Different sizes: settle by cases.
        if (al > 1 && aligned && n < l.n && l.n % n == 0) {
            ER r = nullptr; // read inside a larger entry
            Val rest = readLogged(s, c, id, off, n, i);
            r = toE(rest, n * 8);
            for (unsigned k = 0; k < l.n; k += n)
                r = mkIte(eEq(diff, C(k, 32)), mkExtract(toE(l.v, l.n * 8), k * 8, n * 8), r);
            return Val(r);
        }
        if (al > 1 && aligned && n > l.n && n % l.n == 0) {
            ER r = nullptr; // larger read over smaller entries: per part
            for (unsigned k = 0; k < n; k += l.n) {
                Val o2 = off.e ? Val(eAdd(off.e, C(k, 32))) : Val(off.c + k);
                Val p = readLogged(s, c, id, o2, l.n, i + 1);
                r = r ? mkConcat(toE(p, l.n * 8), r) : toE(p, l.n * 8);
            }
            return Val(r);
        }
        // Fall back: fork on the offsets.
        if (getenv("ENGINE_DEBUG")) fprintf(stderr, "fork on overlap n=%u l.n=%u %s / %s\n", n, l.n, exprStr(ro).c_str(), exprStr(lo).c_str());
        if (off.e) return readLogged(s, c, id, Val(concretize(off)), n, i + 1);
        u128 cv = concretize(Val(l.off));
        if (cv == off.c && l.n == n) return l.v;
        if (cv + l.n <= off.c || off.c + n <= cv) continue;
        throw EngineLimit{"overlapping symbolic write"};
    }
    // Base content.
    if (!off.e) return rawRead(c, (uint64_t)off.c, n);
    uint64_t size = s.objs[id]->size;
    if (c.relem && n == c.relem && off.e->lo >= c.rlo && off.e->hi < c.rhi) {
        ER idx = mkExtract(eSub(off.e, C(c.rlo, 32)), ctz128(n), 32 - ctz128(n));
        if ((eSub(off.e, C(c.rlo, 32))->kz & (n - 1)) == (u128)(n - 1))
            return Val(mkZext(mkUF(c.rname, c.rbits, {mkZext(idx, 32)}), n * 8));
    }
    if (c.relem && n == c.relem) {
        // The interval does not show that the access stays in the region: ask.
        ER inr = eAnd(eUle(C(c.rlo, 32), off.e), eUlt(off.e, C(c.rhi, 32)));
        ER al = eEq(eAnd(eSub(off.e, C(c.rlo, 32)), C(n - 1, 32)), C(0, 32));
        std::shared_ptr<Model> m;
        if (query(s, mkNot(eAnd(inr, al)), &m) == Res::UNSAT) {
            ER idx = mkExtract(eSub(off.e, C(c.rlo, 32)), ctz128(n), 32 - ctz128(n));
            return Val(mkZext(mkUF(c.rname, c.rbits, {mkZext(idx, 32)}), n * 8));
        }
    }
    std::vector<uint64_t> cand;
    if (!candidates(s, off.e, size, n, cand, 4096)) {
        if (getenv("ENGINE_DEBUG")) fprintf(stderr, "concretize read %s\n", exprStr(off.e).c_str());
        return rawRead(c, (uint64_t)concretize(off), n);
    }
    // Chain over the values; the most frequent concrete one is the default.
    std::map<u128, int> freq;
    std::vector<Val> vals;
    for (uint64_t x : cand) { vals.push_back(rawRead(c, x, n)); if (!vals.back().e) freq[vals.back().c]++; }
    u128 def = 0; int best = -1;
    for (auto &p : freq) if (p.second > best) { best = p.second; def = p.first; }
    ER r = best >= 0 ? C(def, n * 8) : toE(vals[0], n * 8);
    std::map<ER, ER> conds; // value -> disjunction of indices
    for (size_t i = 0; i < cand.size(); i++) {
        ER v = toE(vals[i], n * 8);
        if (v == r) continue;
        ER q = eEq(off.e, C(cand[i], 32));
        auto it = conds.find(v);
        if (it == conds.end()) conds[v] = q; else it->second = eOr(it->second, q);
    }
    for (auto &p : conds) r = mkIte(p.second, p.first, r);
    return Val(r);
}

static Val readObj(State &s, uint32_t id, const Val &off, unsigned n)
{
    const Content &c = *s.objs[id]->c;
    if (!off.e && c.log.empty()) return rawRead(c, (uint64_t)off.c, n);
    if (!c.log.empty() || off.e) {
        std::shared_ptr<Content> hold = s.objs[id]->c;
        return readLogged(s, *hold, id, off, n, hold->log.size());
    }
    return rawRead(c, (uint64_t)off.c, n);
}

static void writeObj(State &s, uint32_t id, const Val &off, unsigned n, const Val &v)
{
    if (s.objs[id]->readonly) throw Violation{"memory: write to read-only object " + s.objs[id]->name};
    if (!off.e) {
        Content &c = wcontent(s, id);
        bool inRegion = c.relem && off.c >= c.rlo && off.c < c.rhi;
        if (c.log.empty() && !inRegion) { rawWrite(c, (uint64_t)off.c, n, v); return; }
        if (!inRegion && c.relem) {
            // Outside the region; the log may only be skipped when all entries are inside the region.
            bool allIn = true;
            for (auto &l : c.log) if (!(l.conc && l.coff >= c.rlo && l.coff < c.rhi)) { allIn = l.off && l.off->lo >= c.rlo && l.off->hi < c.rhi; if (!allIn) break; }
            if (allIn) { rawWrite(c, (uint64_t)off.c, n, v); return; }
        }
        LogEnt l; l.off = C(off.c, 32); l.coff = off.c; l.conc = true; l.n = n; l.v = v;
        c.log.push_back(l);
        return;
    }
    uint64_t size = s.objs[id]->size;
    std::vector<uint64_t> cand;
    bool region = s.objs[id]->c->relem;
    if (!region && s.objs[id]->c->log.empty() && candidates(s, off.e, size, n, cand, 64)) {
        std::vector<Val> old;
        for (uint64_t x : cand) old.push_back(rawRead(*s.objs[id]->c, x, n));
        bool overlap = false;
        for (size_t i = 1; i < cand.size(); i++) if (cand[i] - cand[i - 1] < n) overlap = true;
        if (!overlap) {
            Content &c = wcontent(s, id);
            for (size_t i = 0; i < cand.size(); i++)
                rawWrite(c, cand[i], n, Val(mkIte(eEq(off.e, C(cand[i], 32)), toE(v, n * 8), toE(old[i], n * 8))));
            return;
        }
    }
    Content &c = wcontent(s, id);
    LogEnt l; l.off = off.e; l.coff = 0; l.conc = false; l.n = n; l.v = v;
    c.log.push_back(l);
}

static Val memRead(State &s, const Val &addr, unsigned n, const char *what = "read")
{
    Loc l = resolve(s, addr, n, what);
    return readObj(s, l.id, l.off, n);
}
static void memWrite(State &s, const Val &addr, unsigned n, const Val &v, const char *what = "write")
{
    Loc l = resolve(s, addr, n, what);
    writeObj(s, l.id, l.off, n, v);
}
static std::string readStr(State &s, const Val &addr)
{
    std::string r;
    uint64_t a = (uint64_t)concretize(addr);
    for (;; a++) {
        Val b = memRead(s, Val((u128)a), 1);
        u128 x = concretize(b);
        if (!x) break;
        r.push_back((char)x);
    }
    return r;
}

// ---------------------------------------------------------------- decoding
static std::unordered_map<const Function *, DFunc *> dfuncs;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> faddr;

static unsigned tw(Type *t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isX86_FP80Ty()) return 80;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
static const Fmt *tf(Type *t)
{
    if (t->isX86_FP80Ty()) return &F80;
    if (t->isDoubleTy()) return &F64;
    if (t->isFloatTy()) return &F32;
    return nullptr;
}
static unsigned tbytes(Type *t)
{
    if (t->isX86_FP80Ty()) return 10;
    return DL->getTypeStoreSize(t);
}

static Val constVal(const Constant *c)
{
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        APInt v = ci->getValue();
        u128 r = v.extractBitsAsZExtValue(std::min(64u, v.getBitWidth()), 0);
        if (v.getBitWidth() > 64) r |= (u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64;
        return Val(r);
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt v = cf->getValueAPF().bitcastToAPInt();
        u128 r = v.extractBitsAsZExtValue(std::min(64u, v.getBitWidth()), 0);
        if (v.getBitWidth() > 64) r |= (u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64;
        return Val(r);
    }
    if (isa<ConstantPointerNull>(c)) return Val((u128)0);
    if (auto *g = dyn_cast<GlobalValue>(c)) {
        if (auto *ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee());
        auto it = gaddr.find(g);
        if (it == gaddr.end()) throw EngineLimit{"unknown global " + g->getName().str()};
        return Val((u128)it->second);
    }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) {
            Constant *k = c->getAggregateElement(i);
            r.agg->push_back(k ? constVal(k) : Val((u128)0));
        }
        return r;
    }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return Val((u128)0);
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto *gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(*DL, off)) throw EngineLimit{"constant gep"};
            Val b = constVal(cast<Constant>(gep->getPointerOperand()));
            return Val((u128)(uint64_t)((uint64_t)b.c + off.getSExtValue()));
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            Val b = constVal(ce->getOperand(0));
            return Val(b.c & maskw(tw(t)));
        }
        case Instruction::Trunc: return Val(constVal(ce->getOperand(0)).c & maskw(tw(t)));
        case Instruction::Sub: case Instruction::Add: case Instruction::Mul: case Instruction::Xor: case Instruction::Shl: {
            Op op = ce->getOpcode() == Instruction::Sub ? SUB : ce->getOpcode() == Instruction::Add ? ADD : ce->getOpcode() == Instruction::Mul ? MUL : ce->getOpcode() == Instruction::Xor ? XOR : SHL;
            return Val(foldBin(op, constVal(ce->getOperand(0)).c, constVal(ce->getOperand(1)).c, tw(t)));
        }
        case Instruction::ICmp: {
            u128 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
            bool r = false;
            switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break;
                case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: throw EngineLimit{"constant icmp"}; }
            return Val((u128)r);
        }
        default: break;
        }
        std::string str; raw_string_ostream os(str); ce->print(os);
        throw EngineLimit{"constant expression " + str};
    }
    std::string str; raw_string_ostream os(str); c->print(os);
    throw EngineLimit{"constant " + str};
}

static void initMem(Content &c, uint64_t off, const Constant *k)
{
    Type *t = k->getType();
    if (isa<ConstantAggregateZero>(k) || isa<UndefValue>(k)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(k)) {
        StringRef raw = d->getRawDataValues();
        if (d->getElementType()->isX86_FP80Ty()) throw EngineLimit{"fp80 data"};
        for (size_t i = 0; i < raw.size(); i++) {
            Page &p = wpage(c, (off + i) / PAGE);
            p.b[(off + i) % PAGE] = raw[i];
        }
        return;
    }
    if (t->isStructTy()) {
        const StructLayout *sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); i++) initMem(c, off + sl->getElementOffset(i), k->getAggregateElement(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) initMem(c, off + i * DL->getTypeAllocSize(et), k->getAggregateElement(i));
        return;
    }
    rawWrite(c, off, tbytes(t), constVal(k));
}

static std::map<std::string, int> extIndex;
static int extHandler(const std::string &name);

static DFunc *getD(Function *F)
{
    auto it = dfuncs.find(F);
    if (it != dfuncs.end()) return it->second;
    DFunc *d = new DFunc();
    d->F = F;
    d->name = F->getName().str();
    if (auto *sp = F->getSubprogram()) {
        std::string path = (sp->getDirectory() + "/" + sp->getFilename()).str();
        if (sp->getFilename().starts_with("/")) path = sp->getFilename().str();
        d->inRepo = path.find(optRepo + "/") == 0;
    }
    dfuncs[F] = d;
    return d;
}

static void decodeFn(DFunc *d)
{
    Function *F = d->F;
    d->decoded = true;
    std::unordered_map<const Value *, int> slot;
    int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    d->nargs = n;
    std::unordered_map<const BasicBlock *, int> bbi;
    int nb = 0;
    for (auto &b : *F) {
        bbi[&b] = nb++;
        for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++;
    }
    d->nregs = n;
    d->bbs.resize(nb);
    auto opnd = [&](const Value *v) {
        Opnd o;
        o.slot = -1;
        auto it = slot.find(v);
        if (it != slot.end()) { o.slot = it->second; return o; }
        if (auto *c = dyn_cast<Constant>(v)) { o.k = constVal(c); return o; }
        if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
        throw EngineLimit{"operand"};
    };
    int bi = 0;
    for (auto &b : *F) {
        DBlock &db = d->bbs[bi++];
        for (auto &i : b) {
            DInst x;
            x.I = &i;
            x.op = i.getOpcode();
            auto it = slot.find(&i);
            x.dst = it == slot.end() ? -1 : it->second;
            Type *t = i.getType();
            x.w = tw(t);
            x.fmt = tf(t);
            if (auto *vt = dyn_cast<FixedVectorType>(t)) { x.vn = vt->getNumElements(); x.w = tw(vt->getElementType()); x.fmt = tf(vt->getElementType()); }
            if (isa<DbgInfoIntrinsic>(i)) continue;
            if (auto *phi = dyn_cast<PHINode>(&i)) {
                std::vector<int> preds;
                for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) {
                    x.o.push_back(opnd(phi->getIncomingValue(k)));
                    preds.push_back(bbi[phi->getIncomingBlock(k)]);
                }
                db.phis.push_back(x);
                db.phiPreds.push_back(preds);
                continue;
            }
            if (auto *br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional()) { x.o.push_back(opnd(br->getCondition())); x.bb[0] = bbi[br->getSuccessor(0)]; x.bb[1] = bbi[br->getSuccessor(1)]; }
                else x.bb[0] = bbi[br->getSuccessor(0)];
                db.insts.push_back(x);
                continue;
            }
            if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                x.o.push_back(opnd(sw->getCondition()));
                x.w = tw(sw->getCondition()->getType());
                for (auto &c : sw->cases()) x.cases.push_back({constVal(c.getCaseValue()).c, bbi[c.getCaseSuccessor()]});
                x.bb[0] = bbi[sw->getDefaultDest()];
                db.insts.push_back(x);
                continue;
            }
            if (auto *cb = dyn_cast<CallBase>(&i)) {
                for (auto &a : cb->args()) { x.o.push_back(opnd(a.get())); x.scaleW.push_back(tw(a->getType())); }
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                x.callee = dyn_cast<Function>(cv);
                if (!x.callee) x.o.push_back(opnd(cb->getCalledOperand())); // last operand: function pointer
                else {
                    if (x.callee->isIntrinsic() || x.callee->isDeclaration()) x.ext = extHandler(x.callee->getName().str());
                    else if (extIndex.count(x.callee->getName().str())) x.ext = extHandler(x.callee->getName().str());
                    else x.dcallee = getD(x.callee);
                }
                if (auto *inv = dyn_cast<InvokeInst>(&i)) { x.bb[0] = bbi[inv->getNormalDest()]; x.bb[1] = bbi[inv->getUnwindDest()]; }
                if (cb->arg_size()) { Type *at = cb->getArgOperand(0)->getType(); x.w2 = tw(at); x.fmt2 = tf(at); }
                db.insts.push_back(x);
                continue;
            }
            if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                if (g->getType()->isVectorTy()) throw EngineLimit{"vector gep"};
                x.o.push_back(opnd(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    if (StructType *st = gi.getStructTypeOrNull()) {
                        x.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
                    } else {
                        uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) x.off += ci->getSExtValue() * (int64_t)sz;
                        else {
                            x.scale.push_back({(int)x.o.size(), sz});
                            x.scaleW.push_back(tw(gi.getOperand()->getType()));
                            x.o.push_back(opnd(gi.getOperand()));
                        }
                    }
                }
                db.insts.push_back(x);
                continue;
            }
            if (auto *al = dyn_cast<AllocaInst>(&i)) {
                x.size = DL->getTypeAllocSize(al->getAllocatedType());
                if (al->isArrayAllocation()) x.o.push_back(opnd(al->getArraySize()));
                db.insts.push_back(x);
                continue;
            }
            if (auto *ld = dyn_cast<LoadInst>(&i)) { x.size = tbytes(ld->getType()); }
            if (auto *st = dyn_cast<StoreInst>(&i)) { x.size = tbytes(st->getValueOperand()->getType()); x.w = tw(st->getValueOperand()->getType()); x.fmt = tf(st->getValueOperand()->getType()); }
            if (auto *ci = dyn_cast<CmpInst>(&i)) {
                x.pred = ci->getPredicate();
                Type *ot = ci->getOperand(0)->getType();
                if (auto *vt = dyn_cast<FixedVectorType>(ot)) ot = vt->getElementType();
                x.w2 = tw(ot); x.fmt2 = tf(ot);
            }
            if (isa<CastInst>(i)) {
                Type *ot = i.getOperand(0)->getType();
                if (auto *vt = dyn_cast<FixedVectorType>(ot)) ot = vt->getElementType();
                x.w2 = tw(ot); x.fmt2 = tf(ot);
            }
            if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { for (unsigned k : ev->indices()) x.cases.push_back({k, 0}); }
            if (auto *iv = dyn_cast<InsertValueInst>(&i)) { for (unsigned k : iv->indices()) x.cases.push_back({k, 0}); }
            if (auto *lp = dyn_cast<LandingPadInst>(&i)) {
                for (unsigned k = 0; k < lp->getNumClauses(); k++) {
                    if (lp->isCatch(k)) x.o.push_back(opnd(lp->getClause(k)));
                }
                db.insts.push_back(x);
                continue;
            }
            for (auto &u : i.operands()) x.o.push_back(opnd(u.get()));
            db.insts.push_back(x);
        }
    }
}

// ---------------------------------------------------------------- execution helpers
static inline const Val &get(const Frame &f, const Opnd &o) { return o.slot >= 0 ? f.regs[o.slot] : o.k; }

static std::string locStr(State &s)
{
    std::string r;
    for (size_t k = s.stack.size(); k-- > 0 && r.size() < 600;) {
        Frame &f = s.stack[k];
        auto &ins = f.f->bbs[f.bb].insts;
        if (f.ip < (int)ins.size()) {
            if (const DebugLoc &dl = ins[f.ip].I->getDebugLoc()) {
                if (auto *scope = dyn_cast_or_null<DIScope>(dl.getScope())) {
                    std::string fn = scope->getFilename().str();
                    size_t sl = fn.rfind('/');
                    if (sl != std::string::npos) fn = fn.substr(sl + 1);
                    r += (r.empty() ? "" : " < ") + fn + ":" + std::to_string(dl.getLine());
                    continue;
                }
            }
        }
        std::string dn = demangle(f.f->name);
        r += (r.empty() ? "" : " < ") + dn.substr(0, 60);
    }
    return r;
}

static void pushFrame(State &s, DFunc *d, const std::vector<Val> &args, int retDst, bool invoke, int nbb, int ubb)
{
    if (!d->decoded) decodeFn(d);
    d->calls++;
    if (!d->bbs.empty()) d->bbs[0].hits++;
    if (s.stack.size() > 4000) throw Violation{"stack: native recursion too deep"};
    s.stack.emplace_back();
    Frame &f = s.stack.back();
    f.f = d;
    f.regs.resize(d->nregs);
    for (size_t i = 0; i < args.size() && i < d->nargs; i++) f.regs[i] = args[i];
    f.retDst = retDst;
    f.invoke = invoke; f.nbb = nbb; f.ubb = ubb;
}
static void freeFrame(State &s)
{
    for (uint32_t id : s.stack.back().allocas) { s.objs[id].reset(); s.freeIds.push_back(id); }
    s.stack.pop_back();
}

static void gotoBB(State &s, int bb)
{
    Frame &f = s.stack.back();
    f.prev = f.bb;
    f.bb = bb;
    f.ip = 0;
    DBlock &db = f.f->bbs[bb];
    db.hits++;
    if (db.phis.empty()) return;
    std::vector<Val> vals(db.phis.size());
    for (size_t i = 0; i < db.phis.size(); i++) {
        auto &pr = db.phiPreds[i];
        size_t k = 0;
        while (pr[k] != f.prev) k++;
        vals[i] = get(f, db.phis[i].o[k]);
    }
    for (size_t i = 0; i < vals.size(); i++) f.regs[db.phis[i].dst] = std::move(vals[i]);
}

static void doReturn(State &s, Val v)
{
    Frame &f = s.stack.back();
    int dst = f.retDst;
    bool inv = f.invoke;
    int nbb = f.nbb;
    freeFrame(s);
    if (s.stack.empty()) throw Stop{"return"};
    Frame &c = s.stack.back();
    if (dst >= 0) c.regs[dst] = std::move(v);
    if (inv) gotoBB(s, nbb);
    else c.ip++;
}

// Exceptions ---------------------------------------------------------
static std::map<uint64_t, int> selectorOf;
static uint64_t siVt = 0, vmiVt = 0;
static bool tiMatches(State &s, uint64_t thrown, uint64_t caught)
{
    if (caught == 0 || thrown == caught) return true;
    Val vt = memRead(s, Val((u128)thrown), 8);
    uint64_t v = (uint64_t)concretize(vt);
    if (siVt && v >> 32 == siVt >> 32) {
        uint64_t base = (uint64_t)concretize(memRead(s, Val((u128)(thrown + 16)), 8));
        return tiMatches(s, base, caught);
    }
    if (vmiVt && v >> 32 == vmiVt >> 32) {
        unsigned nb = (unsigned)concretize(memRead(s, Val((u128)(thrown + 20)), 4));
        for (unsigned i = 0; i < nb; i++)
            if (tiMatches(s, (uint64_t)concretize(memRead(s, Val((u128)(thrown + 24 + 16 * i)), 8)), caught)) return true;
    }
    return false;
}
static std::string tiName(State &s, uint64_t ti)
{
    for (auto &g : gaddr) if (g.second == ti) return demangle(g.first->getName().str());
    return "?";
}
static void unwind(State &s, uint64_t obj, uint64_t ti)
{
    std::string where = locStr(s);
    for (;;) {
        Frame &f = s.stack.back();
        bool inv = f.invoke;
        int ubb = f.ubb;
        freeFrame(s);
        if (s.stack.empty()) throw Violation{"uncaught exception " + tiName(s, ti) + " thrown at " + where};
        if (!inv) continue;
        Frame &c = s.stack.back();
        // Find the landing pad.
        DBlock &db = c.f->bbs[ubb];
        const DInst *lp = nullptr;
        for (auto &x : db.insts) if (x.op == Instruction::LandingPad) { lp = &x; break; }
        if (!lp) throw EngineLimit{"no landing pad"};
        bool cleanup = cast<LandingPadInst>(lp->I)->isCleanup();
        int sel = -1;
        for (auto &o : lp->o) {
            uint64_t t = (uint64_t)o.k.c;
            if (tiMatches(s, ti, t)) {
                if (!selectorOf.count(t)) { int n = selectorOf.size() + 1; selectorOf[t] = n; }
                sel = selectorOf[t];
                break;
            }
        }
        if (sel < 0 && !cleanup) continue;
        s.excObj = Val((u128)obj);
        s.excSel = Val((u128)(sel < 0 ? 0 : sel));
        s.excType[obj] = ti;
        gotoBB(s, ubb);
        return;
    }
}

// Floating point -----------------------------------------------------
static long double toLD(u128 v, const Fmt *f)
{
    if (f == &F80) { long double r = 0; memcpy(&r, &v, 10); return r; }
    if (f == &F64) { double r; uint64_t u = (uint64_t)v; memcpy(&r, &u, 8); return r; }
    float r; uint32_t u = (uint32_t)v; memcpy(&r, &u, 4); return r;
}
static u128 fromLD(long double x, const Fmt *f)
{
    u128 v = 0;
    if (f == &F80) { memcpy(&v, &x, 10); return v; }
    if (f == &F64) { double r = (double)x; uint64_t u; memcpy(&u, &r, 8); return u; }
    float r = (float)x; uint32_t u; memcpy(&u, &r, 4); return u;
}
static double asD(u128 v) { double r; uint64_t u = (uint64_t)v; memcpy(&r, &u, 8); return r; }
static float asF(u128 v) { float r; uint32_t u = (uint32_t)v; memcpy(&r, &u, 4); return r; }

static Val fpBin(unsigned op, const Val &a, const Val &b, const Fmt *f)
{
    if (!a.e && !b.e) {
        if (f == &F80) {
            long double x = toLD(a.c, f), y = toLD(b.c, f), r = 0;
            switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmodl(x, y); break; }
            return Val(fromLD(r, f));
        }
        if (f == &F64) {
            volatile double x = asD(a.c), y = asD(b.c), r = 0;
            switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; }
            return Val(fromLD(r, f));
        }
        volatile float x = asF(a.c), y = asF(b.c), r = 0;
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: break; }
        return Val(fromLD(r, f));
    }
    ER x = toE(a, f->width), y = toE(b, f->width);
    if (optUFFP && f == &F80 && op != Instruction::FRem) {
        // Any function of the operands that gives properly encoded values: every claim shown for it holds for the
        // real operator; a counterexample counts only if the native replay confirms it.
        u128 one = fromLD(1.0L, f);
        if (op == Instruction::FMul && isC(x) && x->val == one) return Val(y);
        if ((op == Instruction::FMul || op == Instruction::FDiv) && isC(y) && y->val == one) return Val(x);
        if ((op == Instruction::FMul || op == Instruction::FAdd) && x->id > y->id) std::swap(x, y);
        const char *nm = op == Instruction::FAdd ? "fadd80" : op == Instruction::FSub ? "fsub80" : op == Instruction::FMul ? "fmul80" : "fdiv80";
        cur->usesUF = true;
        ER u = mkUF(nm, 79, {x, y});
        ER e = mkExtract(u, 63, 15);
        ER ib = mkNot(eEq(e, C(0, 15)));
        return Val(mkConcat(mkExtract(u, 63, 16), mkConcat(ib, mkExtract(u, 0, 63))));
    }
    switch (op) {
    case Instruction::FAdd: return Val(fpAdd(x, y, *f, decide));
    case Instruction::FSub: return Val(fpSub(x, y, *f, decide));
    case Instruction::FMul: return Val(fpMul(x, y, *f, decide));
    case Instruction::FDiv: return Val(fpDiv(x, y, *f, decide));
    }
    throw EngineLimit{"symbolic frem"};
}
static Val fpCmpV(unsigned pred, const Val &a, const Val &b, const Fmt *f)
{
    if (!a.e && !b.e) {
        long double x = toLD(a.c, f), y = toLD(b.c, f);
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (pred) {
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        }
        return Val((u128)r);
    }
    FpCmp c = fpCompare(toE(a, f->width), toE(b, f->width), *f, decide);
    ER t = eTrue(), r;
    switch (pred) {
    case CmpInst::FCMP_ORD: return Val((u128)!c.unordered);
    case CmpInst::FCMP_UNO: return Val((u128)c.unordered);
    case CmpInst::FCMP_TRUE: return Val((u128)1);
    case CmpInst::FCMP_FALSE: return Val((u128)0);
    default: break;
    }
    if (c.unordered) return Val((u128)(pred >= CmpInst::FCMP_UNO));
    switch (pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = c.eq; break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot(c.eq); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = c.lt; break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = eOr(c.lt, c.eq); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = mkNot(eOr(c.lt, c.eq)); break;
    default: r = mkNot(c.lt); break;
    }
    (void)t;
    return Val(r);
}

static Val intBin(State &s, unsigned op, const Val &a, const Val &b, unsigned w, const Instruction *I)
{
    Op o;
    switch (op) {
    case Instruction::Add: o = ADD; break;
    case Instruction::Sub: o = SUB; break;
    case Instruction::Mul: o = MUL; break;
    case Instruction::UDiv: o = UDIV; break;
    case Instruction::SDiv: o = SDIV; break;
    case Instruction::URem: o = UREM; break;
    case Instruction::SRem: o = SREM; break;
    case Instruction::And: o = AND; break;
    case Instruction::Or: o = OR; break;
    case Instruction::Xor: o = XOR; break;
    case Instruction::Shl: o = SHL; break;
    case Instruction::LShr: o = LSHR; break;
    case Instruction::AShr: o = ASHR; break;
    default: throw EngineLimit{"binop"};
    }
    if (o >= UDIV && o <= SREM) {
        ER d = toE(b, w);
        if (decide(eEq(d, C(0, w)))) throw Violation{"arithmetic: integer division by zero"};
        if (o == SDIV || o == SREM) {
            ER ov = eAnd(eEq(d, C(maskw(w), w)), eEq(toE(a, w), C((u128)1 << (w - 1), w)));
            if (!isFalse(ov) && decide(ov)) throw Violation{"arithmetic: integer division overflow"};
        }
    }
    if (optUB && (o == ADD || o == SUB || o == MUL) && isa<OverflowingBinaryOperator>(I) && cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()) {
        unsigned ww = o == MUL ? std::min(128u, 2 * w) : w + 1;
        if (ww <= 128) {
            ER x = mkSext(toE(a, w), ww), y = mkSext(toE(b, w), ww);
            ER r = mkBin(o, x, y);
            ER ok = eEq(r, mkSext(mkExtract(r, 0, w), ww));
            if (!decide(ok)) throw Violation{"arithmetic: signed overflow"};
        }
    }
    if (o == SHL || o == LSHR || o == ASHR) {
        if (b.e || b.c >= w) {
            ER amt = toE(b, w);
            if (optUB && !decide(eUlt(amt, C(w, w)))) throw Violation{"arithmetic: shift amount too large"};
            if ((w & (w - 1)) == 0) { // as the hardware does
                if (!b.e) return Val(foldBin(o, a.e ? 0 : a.c, b.c & (w - 1), w)), a.e ? Val(mkBin(o, a.e, C(b.c & (w - 1), w))) : Val(foldBin(o, a.c, b.c & (w - 1), w));
                return Val(mkBin(o, toE(a, w), eAnd(amt, C(w - 1, w))));
            }
        }
    }
    if (!a.e && !b.e) return Val(foldBin(o, a.c, b.c, w));
    return Val(mkBin(o, toE(a, w), toE(b, w)));
}
static Val intCmp(unsigned pred, const Val &a, const Val &b, unsigned w)
{
    Op o; bool swap = false, neg = false;
    switch (pred) {
    case CmpInst::ICMP_EQ: o = EQ; break;
    case CmpInst::ICMP_NE: o = EQ; neg = true; break;
    case CmpInst::ICMP_ULT: o = ULT; break;
    case CmpInst::ICMP_ULE: o = ULE; break;
    case CmpInst::ICMP_UGT: o = ULT; swap = true; break;
    case CmpInst::ICMP_UGE: o = ULE; swap = true; break;
    case CmpInst::ICMP_SLT: o = SLT; break;
    case CmpInst::ICMP_SLE: o = SLE; break;
    case CmpInst::ICMP_SGT: o = SLT; swap = true; break;
    default: o = SLE; swap = true; break;
    }
    const Val &x = swap ? b : a, &y = swap ? a : b;
    if (!x.e && !y.e) { u128 r = foldBin(o, x.c, y.c, w); return Val(neg ? r ^ 1 : r); }
    ER r = mkBin(o, toE(x, w), toE(y, w));
    return Val(neg ? mkNot(r) : r);
}

// ---------------------------------------------------------------- reports
static std::string dec(u128 v) { return u128str(v); }
static void fillReport(State &s, Model &m, Report &r)
{
    for (auto &in : s.inputs) r.inputs.push_back({in.name, dec(m.eval(in.e))});
    for (auto &rg : s.regions) {
        auto &out = r.regions[rg];
        for (size_t u = 0; u < g_ufs.size(); u++)
            if (g_ufs[u].name == rg) {
                auto it = m.ufs.find(u);
                if (it != m.ufs.end()) for (auto &p : it->second) out.push_back({dec(p.first[0]), dec(p.second)});
            }
    }
    for (auto &o : s.observes) r.observes.push_back({o.first, dec(o.second.e ? m.eval(o.second.e) : o.second.c)});
    r.usesUF = s.usesUF;
}
static void report(State &s, const std::string &kind, const std::string &label, std::shared_ptr<Model> m)
{
    std::string key = kind + ":" + label;
    violCount[key]++;
    if (violCount[key] > optMaxViol) return;
    Report r;
    r.kind = kind; r.label = label;
    r.loc = s.stack.empty() ? "" : locStr(s);
    fillReport(s, *m, r);
    violations.push_back(r);
    if (optVerbose) {
        fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), label.c_str(), r.loc.c_str());
        for (auto &i : r.inputs) fprintf(stderr, "   %s=%s\n", i.first.c_str(), i.second.c_str());
    }
}

// ---------------------------------------------------------------- external functions
typedef std::function<bool(State &, const DInst &, std::vector<Val> &, Val &)> Handler; // false: control was transferred
static std::vector<std::pair<std::string, Handler>> handlers;

static uint64_t allocHeap(State &s, uint64_t n, const char *nm)
{
    if (n > (1u << 30)) throw Violation{"memory: huge allocation"};
    auto o = newObj(n, nm);
    o->heap = true;
    return addObj(s, o);
}

static void symCopy(State &s, const Val &dst, const Val &src, uint64_t n)
{
    if (n == 0) return;
    if (dst.e || src.e) {
        // In aligned pieces.
        unsigned al = 8;
        auto lowKnown = [](const Val &v) { return v.e ? std::min(3u, ctz128(~v.e->kz)) : std::min<unsigned>(3, ctz128(v.c | 8)); };
        al = 1u << std::min(lowKnown(dst), lowKnown(src));
        while (n % al) al /= 2;
        if (al == 1 && n >= 8) al = n % 8 == 0 ? 8 : n % 4 == 0 ? 4 : 1;
        std::vector<Val> tmp;
        for (uint64_t i = 0; i < n; i += al)
            tmp.push_back(memRead(s, src.e ? Val(eAdd(src.e, C(i, 64))) : Val(src.c + i), al));
        // All decisions before the first write.
        std::vector<Loc> locs;
        for (uint64_t i = 0; i < n; i += al)
            locs.push_back(resolve(s, dst.e ? Val(eAdd(dst.e, C(i, 64))) : Val(dst.c + i), al, "write"));
        for (size_t k = 0; k < tmp.size(); k++) writeObj(s, locs[k].id, locs[k].off, al, tmp[k]);
        return;
    }
    Loc a = resolve(s, src, n, "read"), b = resolve(s, dst, n, "write");
    uint64_t so = (uint64_t)a.off.c, d0 = (uint64_t)b.off.c;
    std::shared_ptr<Content> sc = s.objs[a.id]->c; // holds the old content: overlap is safe
    if (sc->log.empty() && s.objs[b.id]->c->log.empty() && !(s.objs[b.id]->c->relem)) {
        if (s.objs[b.id]->readonly) throw Violation{"memory: write to read-only object"};
        Content &dc = wcontent(s, b.id);
        for (uint64_t i = 0; i < n;) {
            const Page &sp = *sc->pages[(so + i) / PAGE];
            unsigned r = (so + i) % PAGE;
            Page &dp = wpage(dc, (d0 + i) / PAGE);
            unsigned q = (d0 + i) % PAGE;
            unsigned m = std::min<uint64_t>(n - i, std::min<unsigned>(PAGE - r, PAGE - q));
            memmove(dp.b + q, sp.b + r, m);
            if (sp.s || dp.s) {
                if (!dp.s) { dp.s.reset(new SymByte[PAGE]); memset((void *)dp.s.get(), 0, sizeof(SymByte) * PAGE); }
                for (unsigned j = 0; j < m; j++) {
                    if (sp.s) dp.s[q + j] = sp.s[r + j]; else dp.s[q + j].e = nullptr;
                }
            }
            i += m;
        }
        return;
    }
    std::vector<Val> tmp;
    std::vector<unsigned> len;
    for (uint64_t i = 0; i < n;) {
        unsigned m = (n - i >= 8 && (so + i) % 8 == 0) ? 8 : (n - i >= 4 && (so + i) % 4 == 0) ? 4 : 1;
        tmp.push_back(readObj(s, a.id, Val((u128)(so + i)), m));
        len.push_back(m);
        i += m;
    }
    uint64_t i = 0;
    for (size_t k = 0; k < tmp.size(); k++) { writeObj(s, b.id, Val((u128)(d0 + i)), len[k], tmp[k]); i += len[k]; }
}

static Val ufCall(State &s, const std::string &name, unsigned w, const std::vector<ER> &args)
{
    s.usesUF = true;
    return Val(mkUF(name, w, args));
}

static bool inAssumeHandler = false;
static void regHandler(const std::string &n, Handler h) { extIndex[n] = handlers.size(); handlers.push_back({n, h}); }

template <class F> static void regFp1(const std::string &base, F fn)
{
    for (const char *suf : {"l", "", "f"}) {
        const Fmt *f = *suf == 'l' ? &F80 : *suf == 'f' ? &F32 : &F64;
        std::string nm = base + suf;
        regHandler(nm, [=](State &s, const DInst &, std::vector<Val> &a, Val &r) {
            if (!a[0].e) { r = Val(fromLD(fn(toLD(a[0].c, f), f), f)); return true; }
            r = ufCall(s, base + suf, f->width, {a[0].e});
            return true;
        });
    }
}
static void regRound(const std::string &nm, RoundMode mode)
{
    auto mk = [=](const Fmt *f) {
        return [=](State &s, const DInst &, std::vector<Val> &a, Val &r) {
            if (!a[0].e) {
                long double x = toLD(a[0].c, f);
                long double y = mode == RoundMode::FLOOR ? floorl(x) : mode == RoundMode::CEIL ? ceill(x) : mode == RoundMode::TRUNC ? truncl(x) : mode == RoundMode::AWAY ? roundl(x) : nearbyintl(x);
                r = Val(fromLD(y, f));
            } else r = Val(fpRoundInt(a[0].e, mode, *f, decide));
            return true;
        };
    };
    regHandler(nm + "l", mk(&F80)); regHandler(nm, mk(&F64)); regHandler(nm + "f", mk(&F32));
    regHandler("llvm." + nm + ".f80", mk(&F80)); regHandler("llvm." + nm + ".f64", mk(&F64)); regHandler("llvm." + nm + ".f32", mk(&F32));
}

static Val overflowOp(State &s, const DInst &x, std::vector<Val> &a, Op o, bool sgn)
{
    unsigned w = x.w2, ww = std::min(128u, 2 * w);
    ER p = sgn ? mkSext(toE(a[0], w), ww) : mkZext(toE(a[0], w), ww), q = sgn ? mkSext(toE(a[1], w), ww) : mkZext(toE(a[1], w), ww);
    ER r = mkBin(o, p, q), t = mkExtract(r, 0, w);
    ER ov = mkNot(eEq(r, sgn ? mkSext(t, ww) : mkZext(t, ww)));
    Val res;
    res.agg = std::make_shared<std::vector<Val>>();
    res.agg->push_back(Val(t));
    res.agg->push_back(Val(ov));
    return res;
}

static bool startsWith(const std::string &a, const char *b) { return a.compare(0, strlen(b), b) == 0; }

static void setupHandlers()
{
    // --- harness interface
    regHandler("sym_u64", [](State &s, const DInst &, std::vector<Val> &a, Val &r) {
        std::string n = readStr(s, a[0]);
        unsigned w = (unsigned)concretize(a[1]);
        int k = s.names[n]++;
        std::string full = n + (k ? "#" + std::to_string(k) : "");
        ER v = mkVar(full + ":" + std::to_string(w), w);
        s.inputs.push_back({full, v});
        r = Val(mkZext(v, 64));
        return true;
    });
    regHandler("sym_assume", [](State &s, const DInst &x, std::vector<Val> &a, Val &) {
        ER c = mkNot(eEq(toE(a[0], x.w2), C(0, x.w2)));
        if (isTrue(c)) return true;
        if (isFalse(c)) throw Killed();
        if (!s.uncertain && s.model->eval(c)) { addFact(s, c); return true; }
        std::shared_ptr<Model> m;
        Res q = query(s, c, &m);
        if (q == Res::UNSAT) throw Killed();
        if (q == Res::UNKNOWN) s.uncertain = true;
        else { s.model = m; s.uncertain = false; }
        addFact(s, c);
        return true;
    });
    regHandler("sym_assert", [](State &s, const DInst &x, std::vector<Val> &a, Val &) {
        std::string label = readStr(s, a[1]);
        ER c = mkNot(eEq(toE(a[0], x.w2), C(0, x.w2)));
        nAsserts++;
        assertCount[label]++;
        if (isTrue(c)) return true;
        if (isFalse(c)) { settle(s); report(s, "assert", label, s.model); throw Stop{"violation"}; }
        if (factTrue(s, c)) return true;
        if (!s.uncertain && !s.model->eval(c)) {
            report(s, "assert", label, s.model);
            std::shared_ptr<Model> m;
            if (query(s, c, &m) != Res::SAT) throw Stop{"violation"};
            s.model = m;
            addFact(s, c);
            return true;
        }
        nAssertQueries++;
        std::shared_ptr<Model> m;
        Res q = query(s, mkNot(c), &m);
        if (q == Res::SAT) { report(s, "assert", label, m); addFact(s, c); return true; }
        if (q == Res::UNKNOWN) limitCount["solver gave no answer at assertion " + label]++;
        else s.facts.insert(c);
        return true;
    });
    regHandler("sym_reach", [](State &s, const DInst &, std::vector<Val> &a, Val &) {
        if (s.uncertain) uncertainReach[readStr(s, a[0])]++; else reachCount[readStr(s, a[0])]++;
        return true;
    });
    regHandler("sym_observe", [](State &s, const DInst &, std::vector<Val> &a, Val &) {
        std::string n = readStr(s, a[0]);
        s.observes.push_back({n, a[1]});
        return true;
    });
    regHandler("sym_is_symbolic", [](State &, const DInst &, std::vector<Val> &, Val &r) { r = Val((u128)1); return true; });
    regHandler("sym_has_symbols", [](State &, const DInst &, std::vector<Val> &a, Val &r) { r = Val((u128)(a[0].e ? 1 : 0)); return true; });
    regHandler("sym_concretize", [](State &, const DInst &, std::vector<Val> &a, Val &r) { r = Val(concretize(a[0])); return true; });
    regHandler("sym_stop", [](State &s, const DInst &, std::vector<Val> &a, Val &) -> bool { throw Stop{readStr(s, a[0])}; });
    regHandler("sym_limit", [](State &s, const DInst &, std::vector<Val> &a, Val &) -> bool { throw EngineLimit{readStr(s, a[0])}; });
    regHandler("sym_print", [](State &s, const DInst &, std::vector<Val> &a, Val &) {
        fprintf(stderr, "sym_print %s: %s\n", readStr(s, a[0]).c_str(), a[1].e ? exprStr(a[1].e, 6).c_str() : dec(a[1].c).c_str());
        return true;
    });
    regHandler("sym_region", [](State &s, const DInst &, std::vector<Val> &a, Val &) {
        Loc l = resolve(s, a[0], (uint64_t)a[1].c, "region");
        unsigned el = (unsigned)a[2].c & 255, bits = (unsigned)a[2].c >> 8; // element bytes, significant bits
        if (!bits) bits = el * 8;
        std::string n = readStr(s, a[3]);
        Content &c = wcontent(s, l.id);
        uint64_t off = (uint64_t)l.off.c;
        for (uint64_t i = 0; i < (uint64_t)a[1].c / el; i++)
            rawWrite(c, off + i * el, el, Val(mkZext(mkUF(n, bits, {C(i, 32)}), el * 8)));
        c.rlo = off; c.rhi = off + (uint64_t)a[1].c; c.relem = el; c.rbits = bits; c.rname = n;
        s.regions.push_back(n);
        return true;
    });
    // --- memory
    for (const char *n : {"malloc", "_Znwm", "_Znam"})
        regHandler(n, [](State &s, const DInst &, std::vector<Val> &a, Val &r) { r = Val((u128)allocHeap(s, (uint64_t)concretize(a[0]), "heap block")); return true; });
    regHandler("calloc", [](State &s, const DInst &, std::vector<Val> &a, Val &r) { uint64_t n = (uint64_t)concretize(a[0]), m = (uint64_t)concretize(a[1]); r = Val((u128)allocHeap(s, n * m, "heap block")); return true; });
    regHandler("realloc", [](State &s, const DInst &, std::vector<Val> &a, Val &r) {
        uint64_t p = (uint64_t)concretize(a[0]), n = (uint64_t)concretize(a[1]);
        uint64_t q = allocHeap(s, n, "heap block");
        if (p) {
            uint32_t id = p >> 32;
            if (id >= s.objs.size() || !s.objs[id]) throw Violation{"memory: realloc of bad pointer"};
            symCopy(s, Val((u128)q), Val((u128)p), std::min<uint64_t>(n, s.objs[id]->size));
            s.objs[id].reset();
        }
        r = Val((u128)q);
        return true;
    });
    for (const char *n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"})
        regHandler(n, [](State &s, const DInst &, std::vector<Val> &a, Val &) {
            uint64_t p = (uint64_t)concretize(a[0]);
            if (!p) return true;
            uint32_t id = p >> 32;
            if (id >= s.objs.size() || !s.objs[id] || (uint32_t)p != 0 || !s.objs[id]->heap) throw Violation{"memory: invalid or double free"};
            s.objs[id].reset();
            return true;
        });
    auto cpy = [](State &s, const DInst &, std::vector<Val> &a, Val &r) {
        uint64_t n = (uint64_t)concretize(a[2]);
        symCopy(s, a[0], a[1], n);
        r = a[0];
        return true;
    };
    regHandler("memcpy", cpy); regHandler("memmove", cpy);
    regHandler("llvm.memcpy", cpy); regHandler("llvm.memmove", cpy);
    auto set = [](State &s, const DInst &, std::vector<Val> &a, Val &r) {
        uint64_t n = (uint64_t)concretize(a[2]);
        r = a[0];
        if (!n) return true;
        Val dst = a[0].e ? Val(concretize(a[0])) : a[0];
        Loc l = resolve(s, dst, n, "write");
        Val b = a[1];
        if (b.e && b.e->width > 8) b = Val(mkExtract(b.e, 0, 8));
        b.c &= 255;
        bool slow = b.e || !s.objs[l.id]->c->log.empty() || s.objs[l.id]->c->relem;
        if (slow) { for (uint64_t i = 0; i < n; i++) writeObj(s, l.id, Val(l.off.c + i), 1, b); return true; }
        Content &c = wcontent(s, l.id);
        uint64_t off = (uint64_t)l.off.c;
        for (uint64_t i = 0; i < n;) {
            unsigned q = (off + i) % PAGE;
            unsigned m = std::min<uint64_t>(n - i, PAGE - q);
            if (m == PAGE && b.c == 0) c.pages[(off + i) / PAGE] = zeroPage;
            else {
                Page &p = wpage(c, (off + i) / PAGE);
                memset(p.b + q, (int)b.c, m);
                if (p.s) for (unsigned j = 0; j < m; j++) p.s[q + j].e = nullptr;
            }
            i += m;
        }
        return true;
    };
    regHandler("memset", set); regHandler("llvm.memset", set);
    // --- setjmp: the buffer holds the frame's depth and the place of the call
    auto sj = [](State &s, const DInst &, std::vector<Val> &a, Val &r) -> bool {
        Frame &f = s.stack.back();
        uint64_t w[3] = {s.stack.size(), (uint64_t)f.bb << 32 | (uint32_t)f.ip, (uint64_t)(uintptr_t)f.f};
        for (int i = 0; i < 3; i++) memWrite(s, Val(a[0].c + 8 * i), 8, Val((u128)w[i]));
        r = Val((u128)0);
        return true;
    };
    auto lj = [](State &s, const DInst &, std::vector<Val> &a, Val &) -> bool {
        uint64_t w[3];
        for (int i = 0; i < 3; i++) w[i] = (uint64_t)concretize(memRead(s, Val(a[0].c + 8 * i), 8));
        Val v = a[1];
        if (w[0] > s.stack.size() || w[0] == 0 || (uint64_t)(uintptr_t)s.stack[w[0] - 1].f != w[2]) throw Violation{"longjmp to a frame that is gone"};
        while (s.stack.size() > w[0]) freeFrame(s);
        Frame &g = s.stack.back();
        g.bb = (int)(w[1] >> 32);
        g.ip = (int)(uint32_t)w[1];
        const DInst &c = g.f->bbs[g.bb].insts[g.ip];
        if (c.dst >= 0) g.regs[c.dst] = v;
        g.ip++;
        return false;
    };
    for (const char *n : {"_setjmp", "setjmp", "__sigsetjmp"}) regHandler(n, sj);
    for (const char *n : {"longjmp", "_longjmp", "siglongjmp"}) regHandler(n, lj);
    // --- exceptions
    regHandler("__cxa_allocate_exception", [](State &s, const DInst &, std::vector<Val> &a, Val &r) { r = Val((u128)allocHeap(s, (uint64_t)a[0].c, "exception object")); return true; });
    regHandler("__cxa_free_exception", [](State &, const DInst &, std::vector<Val> &, Val &) { return true; });
    regHandler("__cxa_throw", [](State &s, const DInst &, std::vector<Val> &a, Val &) -> bool {
        uint64_t obj = (uint64_t)a[0].c, ti = (uint64_t)a[1].c;
        // The throwing frame itself may be an invoke site: treat as a callee frame.
        DInst const *x = nullptr; (void)x;
        Frame &f = s.stack.back();
        const DInst &ci = f.f->bbs[f.bb].insts[f.ip];
        static DFunc *dummy = nullptr;
        if (!dummy) { dummy = new DFunc(); dummy->name = "__cxa_throw"; dummy->decoded = true; dummy->bbs.resize(1); }
        s.stack.emplace_back();
        s.stack.back().f = dummy;
        s.stack.back().invoke = ci.op == Instruction::Invoke;
        s.stack.back().ubb = ci.bb[1];
        unwind(s, obj, ti);
        return false;
    });
    auto rethrow = [](State &s, uint64_t obj, uint64_t ti) {
        Frame &f = s.stack.back();
        const DInst &ci = f.f->bbs[f.bb].insts[f.ip];
        static DFunc *dummy = nullptr;
        if (!dummy) { dummy = new DFunc(); dummy->name = "__cxa_rethrow"; dummy->decoded = true; dummy->bbs.resize(1); }
        s.stack.emplace_back();
        s.stack.back().f = dummy;
        s.stack.back().invoke = ci.op == Instruction::Invoke;
        s.stack.back().ubb = ci.bb[1];
        unwind(s, obj, ti);
    };
    regHandler("__cxa_rethrow", [=](State &s, const DInst &, std::vector<Val> &, Val &) -> bool {
        if (s.caught.empty()) throw Violation{"terminate: rethrow without exception"};
        auto p = s.caught.back();
        s.caught.pop_back();
        rethrow(s, p.first, p.second);
        return false;
    });
    regHandler("_Unwind_Resume", [=](State &s, const DInst &, std::vector<Val> &a, Val &) -> bool { rethrow(s, (uint64_t)a[0].c, s.excType[(uint64_t)a[0].c]); return false; });
    regHandler("__cxa_begin_catch", [](State &s, const DInst &, std::vector<Val> &a, Val &r) { s.caught.push_back({(uint64_t)a[0].c, s.excType[(uint64_t)a[0].c]}); r = a[0]; return true; });
    regHandler("__cxa_get_exception_ptr", [](State &, const DInst &, std::vector<Val> &a, Val &r) { r = a[0]; return true; });
    regHandler("__cxa_end_catch", [](State &s, const DInst &, std::vector<Val> &, Val &) { if (!s.caught.empty()) s.caught.pop_back(); return true; });
    regHandler("llvm.eh.typeid.for", [](State &, const DInst &, std::vector<Val> &a, Val &r) {
        uint64_t t = (uint64_t)a[0].c;
        if (!selectorOf.count(t)) { int n = selectorOf.size() + 1; selectorOf[t] = n; }
        r = Val((u128)selectorOf[t]);
        return true;
    });
    for (const char *n : {"_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__cxa_call_unexpected", "__assert_fail", "llvm.trap"})
        regHandler(n, [n](State &, const DInst &, std::vector<Val> &, Val &) -> bool { throw Violation{std::string("abnormal termination: ") + n}; });
    for (const char *n : {"__cxa_atexit", "atexit", "llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.experimental.noalias.scope.decl",
                          "llvm.invariant.start", "llvm.stacksave", "llvm.stackrestore", "llvm.va_end", "llvm.donothing", "llvm.prefetch", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"})
        regHandler(n, [](State &, const DInst &, std::vector<Val> &, Val &r) { r = Val((u128)0); return true; });
    regHandler("llvm.expect", [](State &, const DInst &, std::vector<Val> &a, Val &r) { r = a[0]; return true; });
    regHandler("llvm.ptrmask", [](State &, const DInst &, std::vector<Val> &a, Val &r) { r = (!a[0].e && !a[1].e) ? Val(a[0].c & a[1].c) : Val(eAnd(toE(a[0], 64), toE(a[1], 64))); return true; });
    regHandler("llvm.launder.invariant.group", [](State &, const DInst &, std::vector<Val> &a, Val &r) { r = a[0]; return true; });
    regHandler("llvm.is.constant", [](State &, const DInst &, std::vector<Val> &, Val &r) { r = Val((u128)0); return true; });
    regHandler("llvm.objectsize", [](State &, const DInst &, std::vector<Val> &, Val &r) { r = Val(maskw(64)); return true; });
    regHandler("llvm.va_start", [](State &s, const DInst &, std::vector<Val> &a, Val &) {
        Frame &f = s.stack.back();
        uint64_t sz = 0;
        for (auto &v : f.varargs) { if (v.second == 80) sz = (sz + 15) / 16 * 16 + 16; else sz += 8; }
        auto o = newObj(sz + 8, "varargs");
        uint64_t base = addObj(s, o), off = 0;
        s.stack.back().allocas.push_back(base >> 32);
        for (auto &v : f.varargs) {
            if (v.second == 80) { off = (off + 15) / 16 * 16; memWrite(s, Val((u128)(base + off)), 10, v.first); off += 16; }
            else {
                Val x = v.first;
                if (x.e && x.e->width < 64) x = Val(mkZext(x.e, 64));
                memWrite(s, Val((u128)(base + off)), 8, x);
                off += 8;
            }
        }
        memWrite(s, a[0], 4, Val((u128)48));
        memWrite(s, Val(a[0].c + 4), 4, Val((u128)304));
        memWrite(s, Val(a[0].c + 8), 8, Val((u128)base));
        memWrite(s, Val(a[0].c + 16), 8, Val((u128)0));
        return true;
    });
    // --- integer intrinsics
    regHandler("llvm.abs", [](State &, const DInst &x, std::vector<Val> &a, Val &r) { ER v = toE(a[0], x.w); r = Val(mkIte(mkExtract(v, x.w - 1, 1), eSub(C(0, x.w), v), v)); return true; });
    struct MM { const char *n; Op o; bool sw; };
    for (MM m : {MM{"llvm.smax", SLT, true}, MM{"llvm.smin", SLT, false}, MM{"llvm.umax", ULT, true}, MM{"llvm.umin", ULT, false}})
        regHandler(m.n, [m](State &, const DInst &x, std::vector<Val> &a, Val &r) {
            ER p = toE(a[0], x.w), q = toE(a[1], x.w), c = mkBin(m.o, p, q);
            r = Val(m.sw ? mkIte(c, q, p) : mkIte(c, p, q));
            return true;
        });
    struct OV { const char *n; Op o; bool s; };
    for (OV v : {OV{"llvm.sadd.with.overflow", ADD, true}, OV{"llvm.uadd.with.overflow", ADD, false}, OV{"llvm.ssub.with.overflow", SUB, true},
                 OV{"llvm.usub.with.overflow", SUB, false}, OV{"llvm.smul.with.overflow", MUL, true}, OV{"llvm.umul.with.overflow", MUL, false}})
        regHandler(v.n, [v](State &s, const DInst &x, std::vector<Val> &a, Val &r) { r = overflowOp(s, x, a, v.o, v.s); return true; });
    regHandler("llvm.usub.sat", [](State &, const DInst &x, std::vector<Val> &a, Val &r) { ER p = toE(a[0], x.w), q = toE(a[1], x.w); r = Val(mkIte(eUlt(p, q), C(0, x.w), eSub(p, q))); return true; });
    regHandler("llvm.uadd.sat", [](State &, const DInst &x, std::vector<Val> &a, Val &r) { ER p = toE(a[0], x.w), q = toE(a[1], x.w); ER t = eAdd(p, q); r = Val(mkIte(eUlt(t, p), C(maskw(x.w), x.w), t)); return true; });
    auto fsh = [](bool left) {
        return [left](State &, const DInst &x, std::vector<Val> &a, Val &r) {
            unsigned w = x.w;
            ER p = toE(a[0], w), q = toE(a[1], w), n = eAnd(toE(a[2], w), C(w - 1, w));
            ER cn = eSub(C(w, w), n), z = eEq(n, C(0, w));
            if (left) r = Val(mkIte(z, p, eOr(eShl(p, n), eLshr(q, cn))));
            else r = Val(mkIte(z, q, eOr(eShl(p, cn), eLshr(q, n))));
            return true;
        };
    };
    regHandler("llvm.fshl", fsh(true)); regHandler("llvm.fshr", fsh(false));
    regHandler("llvm.bswap", [](State &, const DInst &x, std::vector<Val> &a, Val &r) {
        ER v = toE(a[0], x.w), o = nullptr;
        for (unsigned i = 0; i < x.w / 8; i++) { ER b = mkExtract(v, i * 8, 8); o = o ? mkConcat(o, b) : b; }
        r = Val(o); return true;
    });
    regHandler("llvm.ctpop", [](State &, const DInst &x, std::vector<Val> &a, Val &r) {
        ER v = toE(a[0], x.w), o = C(0, x.w);
        for (unsigned i = 0; i < x.w; i++) o = eAdd(o, mkZext(mkExtract(v, i, 1), x.w));
        r = Val(o); return true;
    });
    regHandler("llvm.ctlz", [](State &, const DInst &x, std::vector<Val> &a, Val &r) {
        ER v = toE(a[0], x.w), o = C(x.w, x.w);
        for (unsigned i = 0; i < x.w; i++) o = mkIte(mkExtract(v, i, 1), C(x.w - 1 - i, x.w), o);
        r = Val(o); return true;
    });
    regHandler("llvm.cttz", [](State &, const DInst &x, std::vector<Val> &a, Val &r) {
        ER v = toE(a[0], x.w), o = C(x.w, x.w);
        for (unsigned i = x.w; i-- > 0;) o = mkIte(mkExtract(v, i, 1), C(i, x.w), o);
        r = Val(o); return true;
    });
    // --- floating point
    regRound("floor", RoundMode::FLOOR); regRound("ceil", RoundMode::CEIL); regRound("trunc", RoundMode::TRUNC);
    regRound("round", RoundMode::AWAY); regRound("nearbyint", RoundMode::EVEN); regRound("rint", RoundMode::EVEN);
    auto fabsH = [](State &, const DInst &x, std::vector<Val> &a, Val &r) {
        if (!a[0].e) r = Val(a[0].c & maskw(x.fmt->width - 1)); else r = Val(fpAbs(a[0].e, *x.fmt));
        return true;
    };
    for (const char *n : {"fabsl", "fabs", "fabsf", "llvm.fabs"}) regHandler(n, fabsH);
    regHandler("llvm.fmuladd", [](State &, const DInst &x, std::vector<Val> &a, Val &r) { Val t = fpBin(Instruction::FMul, a[0], a[1], x.fmt); r = fpBin(Instruction::FAdd, t, a[2], x.fmt); return true; });
    for (const char *n : {"frexpl", "frexp"})
        regHandler(n, [](State &s, const DInst &x, std::vector<Val> &a, Val &r) {
            const Fmt *f = x.fmt;
            if (!a[0].e) {
                int e = 0;
                long double v = toLD(a[0].c, f);
                long double m = frexpl(v, &e);
                if (!std::isfinite(v)) e = 0;
                memWrite(s, a[1], 4, Val((u128)(uint32_t)e));
                r = Val(fromLD(m, f));
                return true;
            }
            ER e;
            ER m = fpFrexp(a[0].e, &e, *f, decide);
            memWrite(s, a[1], 4, Val(e));
            r = Val(m);
            return true;
        });
    for (const char *n : {"ldexpl", "ldexp", "scalbnl", "scalbn", "llvm.ldexp"})
        regHandler(n, [](State &, const DInst &x, std::vector<Val> &a, Val &r) {
            const Fmt *f = x.fmt;
            if (!a[0].e && !a[1].e) { long double v = ldexpl(toLD(a[0].c, f), (int)(uint32_t)a[1].c); r = Val(fromLD(v, f)); return true; }
            r = Val(fpLdexp(toE(a[0], f->width), toE(a[1], 32), *f, decide));
            return true;
        });
    regFp1("sin", [](long double x, const Fmt *f) { return f == &F80 ? sinl(x) : sin((double)x); });
    regFp1("cos", [](long double x, const Fmt *f) { return f == &F80 ? cosl(x) : cos((double)x); });
    regFp1("atan", [](long double x, const Fmt *f) { return f == &F80 ? atanl(x) : atan((double)x); });
    regFp1("tan", [](long double x, const Fmt *f) { return f == &F80 ? tanl(x) : tan((double)x); });
    regFp1("sqrt", [](long double x, const Fmt *f) { return f == &F80 ? sqrtl(x) : (long double)sqrt((double)x); });
    regFp1("exp", [](long double x, const Fmt *f) { return f == &F80 ? expl(x) : exp((double)x); });
    regFp1("log", [](long double x, const Fmt *f) { return f == &F80 ? logl(x) : log((double)x); });
    regFp1("log10", [](long double x, const Fmt *f) { return f == &F80 ? log10l(x) : log10((double)x); });
    regFp1("log2", [](long double x, const Fmt *f) { return f == &F80 ? log2l(x) : log2((double)x); });
    regHandler("llvm.sqrt", [](State &s, const DInst &x, std::vector<Val> &a, Val &r) {
        if (!a[0].e) { r = Val(fromLD(x.fmt == &F80 ? sqrtl(toLD(a[0].c, x.fmt)) : (long double)sqrt((double)toLD(a[0].c, x.fmt)), x.fmt)); return true; }
        r = ufCall(s, "sqrt", x.fmt->width, {a[0].e});
        return true;
    });
    for (const char *n : {"powl", "pow"})
        regHandler(n, [n](State &s, const DInst &x, std::vector<Val> &a, Val &r) {
            const Fmt *f = x.fmt;
            if (!a[0].e && !a[1].e) { r = Val(fromLD(f == &F80 ? powl(toLD(a[0].c, f), toLD(a[1].c, f)) : (long double)pow((double)toLD(a[0].c, f), (double)toLD(a[1].c, f)), f)); return true; }
            r = ufCall(s, n, f->width, {toE(a[0], f->width), toE(a[1], f->width)});
            return true;
        });
    regHandler("llvm.is.fpclass", [](State &, const DInst &x, std::vector<Val> &a, Val &r) {
        // bits: 0 snan 1 qnan 2 -inf 3 -norm 4 -sub 5 -zero 6 +zero 7 +sub 8 +norm 9 +inf
        const Fmt &f = *x.fmt2;
        unsigned m = (unsigned)a[1].c;
        ER v = toE(a[0], f.width);
        ER e = mkExtract(v, f.explicitInt ? 64 : f.prec - 1, f.ebits), fr = mkExtract(v, 0, f.prec - 1), sg = mkExtract(v, f.width - 1, 1);
        ER e0 = eEq(e, C(0, f.ebits)), em = eEq(e, C(maskw(f.ebits), f.ebits)), f0 = eEq(fr, C(0, fr->width));
        ER res = eFalse();
        auto add = [&](unsigned bit, ER c) { if (m >> bit & 1) res = eOr(res, c); };
        ER q = mkExtract(fr, fr->width - 1, 1);
        add(0, eAnd(em, eAnd(mkNot(f0), mkNot(q)))); add(1, eAnd(em, eAnd(mkNot(f0), q)));
        add(2, eAnd(sg, eAnd(em, f0))); add(9, eAnd(mkNot(sg), eAnd(em, f0)));
        add(3, eAnd(sg, eAnd(mkNot(em), mkNot(e0)))); add(8, eAnd(mkNot(sg), eAnd(mkNot(em), mkNot(e0))));
        add(4, eAnd(sg, eAnd(e0, mkNot(f0)))); add(7, eAnd(mkNot(sg), eAnd(e0, mkNot(f0))));
        add(5, eAnd(sg, eAnd(e0, f0))); add(6, eAnd(mkNot(sg), eAnd(e0, f0)));
        r = Val(res);
        return true;
    });
    // Text of a floating-point number (model.cpp): exact for known values, a placeholder otherwise.
    regHandler("__model_fmt_ld", [](State &s, const DInst &, std::vector<Val> &a, Val &r) {
        std::string fmt = readStr(s, a[2]);
        Val v = memRead(s, a[3], 10);
        char buf[512];
        int n;
        if (v.e) n = snprintf(buf, sizeof buf, "@");
        else n = snprintf(buf, sizeof buf, fmt.c_str(), toLD(v.c, &F80));
        int size = (int)concretize(a[1]);
        if (n >= size) n = size - 1;
        for (int i = 0; i < n; i++) memWrite(s, Val(a[0].c + i), 1, Val((u128)(uint8_t)buf[i]));
        memWrite(s, Val(a[0].c + n), 1, Val((u128)0));
        r = Val((u128)(uint32_t)n);
        return true;
    });
    regHandler("llvm.copysign", [](State &, const DInst &x, std::vector<Val> &a, Val &r) {
        unsigned w = x.fmt->width;
        r = Val(mkConcat(mkExtract(toE(a[1], w), w - 1, 1), mkExtract(toE(a[0], w), 0, w - 1)));
        return true;
    });
}

static int extHandler(const std::string &name)
{
    auto it = extIndex.find(name);
    if (it != extIndex.end()) return it->second;
    if (startsWith(name, "llvm.")) {
        // Strip type suffixes.
        std::string n = name;
        size_t p;
        while ((p = n.rfind('.')) != std::string::npos && p > 4) {
            n = n.substr(0, p);
            it = extIndex.find(n);
            if (it != extIndex.end()) return it->second;
        }
    }
    return -2;
}

// ---------------------------------------------------------------- instruction execution
static void doCall(State &s, const DInst &x, Function *F, DFunc *d, int ext)
{
    Frame &f = s.stack.back();
    auto *cb = cast<CallBase>(x.I);
    unsigned na = cb->arg_size();
    std::vector<Val> args(na);
    for (unsigned i = 0; i < na; i++) args[i] = get(f, x.o[i]);
    if (ext >= 0) {
        Val r;
        size_t depth = s.stack.size();
        if (!handlers[ext].second(s, x, args, r)) return;
        (void)depth;
        Frame &g = s.stack.back();
        if (x.dst >= 0) g.regs[x.dst] = r;
        if (x.op == Instruction::Invoke) gotoBB(s, x.bb[0]);
        else g.ip++;
        return;
    }
    if (!d) throw EngineLimit{"call of unmodelled function " + (F ? F->getName().str() : std::string("?"))};
    // byval arguments: copy.
    for (unsigned i = 0; i < na && i < F->arg_size(); i++)
        if (cb->isByValArgument(i)) {
            uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
            auto o = newObj(sz, "byval argument");
            uint64_t p = addObj(s, o);
            symCopy(s, Val((u128)p), args[i], sz);
            args[i] = Val((u128)p);
            s.stack.back().allocas.push_back(p >> 32);
        }
    bool inv = x.op == Instruction::Invoke;
    pushFrame(s, d, args, x.dst, inv, x.bb[0], x.bb[1]);
    if (F->isVarArg())
        for (unsigned i = F->arg_size(); i < na; i++) s.stack.back().varargs.push_back({args[i], x.scaleW[i]});
}

static Val castOp(State &s, const DInst &x, const Val &a)
{
    switch (x.op) {
    case Instruction::Trunc: return a.e ? Val(mkExtract(a.e, 0, x.w)) : Val(a.c & maskw(x.w));
    case Instruction::ZExt: return a.e ? Val(mkZext(a.e, x.w)) : a;
    case Instruction::SExt: return a.e ? Val(mkSext(a.e, x.w)) : Val((u128)sextw(a.c, x.w2) & maskw(x.w));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (x.w < x.w2) return a.e ? Val(mkExtract(a.e, 0, x.w)) : Val(a.c & maskw(x.w));
        return a.e ? Val(mkZext(a.e, x.w)) : a;
    case Instruction::AddrSpaceCast: return a;
    case Instruction::FPExt: case Instruction::FPTrunc:
        if (!a.e) return Val(fromLD(toLD(a.c, x.fmt2), x.fmt));
        return Val(fpConvert(a.e, *x.fmt2, *x.fmt, decide));
    case Instruction::SIToFP: case Instruction::UIToFP: {
        bool sg = x.op == Instruction::SIToFP;
        if (!a.e) {
            if (x.fmt == &F80) { long double v = sg ? (long double)(int64_t)sextw(a.c, x.w2) : (long double)(uint64_t)a.c; return Val(fromLD(v, x.fmt)); }
            if (x.fmt == &F64) { double v = sg ? (double)(int64_t)sextw(a.c, x.w2) : (double)(uint64_t)a.c; return Val(fromLD(v, x.fmt)); }
            float v = sg ? (float)(int64_t)sextw(a.c, x.w2) : (float)(uint64_t)a.c; return Val(fromLD(v, x.fmt));
        }
        return Val(fpFromInt(a.e, sg, *x.fmt, decide));
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        bool sg = x.op == Instruction::FPToSI;
        ER v = toE(a, x.fmt2->width);
        return Val(fpToInt(v, x.w, sg, *x.fmt2, decide));
    }
    }
    throw EngineLimit{"cast"};
}

template <class F> static Val mapVec(const DInst &x, const Val &a, const Val *b, F fn)
{
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < x.vn; i++)
        r.agg->push_back(fn(a.agg ? (*a.agg)[i] : Val((u128)0), b ? (b->agg ? (*b->agg)[i] : Val((u128)0)) : Val()));
    return r;
}

static Val loadTyped(State &s, const Val &addr, Type *t)
{
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        unsigned eb = DL->getTypeStoreSize(vt->getElementType());
        if (tw(vt->getElementType()) % 8) throw EngineLimit{"bit vector load"};
        for (unsigned i = 0; i < vt->getNumElements(); i++)
            r.agg->push_back(loadTyped(s, addr.e ? Val(eAdd(addr.e, C(i * eb, 64))) : Val(addr.c + i * eb), vt->getElementType()));
        return r;
    }
    if (t->isStructTy()) {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        const StructLayout *sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); i++) {
            uint64_t o = sl->getElementOffset(i);
            r.agg->push_back(loadTyped(s, addr.e ? Val(eAdd(addr.e, C(o, 64))) : Val(addr.c + o), t->getStructElementType(i)));
        }
        return r;
    }
    unsigned n = tbytes(t);
    Val v = memRead(s, addr, n);
    unsigned w = tw(t);
    if (w < n * 8) { if (v.e) v = Val(mkExtract(v.e, 0, w)); else v.c &= maskw(w); }
    return v;
}
static void storeTyped(State &s, const Val &addr, Type *t, const Val &v)
{
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        unsigned eb = DL->getTypeStoreSize(vt->getElementType());
        if (tw(vt->getElementType()) % 8) throw EngineLimit{"bit vector store"};
        for (unsigned i = 0; i < vt->getNumElements(); i++)
            storeTyped(s, addr.e ? Val(eAdd(addr.e, C(i * eb, 64))) : Val(addr.c + i * eb), vt->getElementType(), v.agg ? (*v.agg)[i] : Val((u128)0));
        return;
    }
    if (t->isStructTy()) {
        const StructLayout *sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); i++) {
            uint64_t o = sl->getElementOffset(i);
            storeTyped(s, addr.e ? Val(eAdd(addr.e, C(o, 64))) : Val(addr.c + o), t->getStructElementType(i), v.agg ? (*v.agg)[i] : Val((u128)0));
        }
        return;
    }
    unsigned n = tbytes(t), w = tw(t);
    Val x = v;
    if (x.e && w < n * 8) x = Val(mkZext(x.e, n * 8));
    memWrite(s, addr, n, x);
}

static void step(State &s)
{
    Frame &f = s.stack.back();
    const DInst &x = f.f->bbs[f.bb].insts[f.ip];
    s.steps++;
    nSteps++;
    auto setv = [&](Val v) { Frame &g = s.stack.back(); g.regs[x.dst] = std::move(v); g.ip++; };
    switch (x.op) {
    case Instruction::Ret: {
        Val v;
        if (!x.o.empty()) v = get(f, x.o[0]);
        doReturn(s, v);
        return;
    }
    case Instruction::Br:
        if (x.o.empty()) { gotoBB(s, x.bb[0]); return; }
        gotoBB(s, decideV(get(f, x.o[0])) ? x.bb[0] : x.bb[1]);
        return;
    case Instruction::Switch: {
        const Val &v = get(f, x.o[0]);
        if (!v.e) {
            for (auto &c : x.cases) if (c.first == v.c) { gotoBB(s, c.second); return; }
            gotoBB(s, x.bb[0]);
            return;
        }
        // Group the cases by target.
        std::map<int, ER> cond;
        std::vector<int> order;
        for (auto &c : x.cases) {
            ER q = eEq(v.e, C(c.first, x.w));
            if (!cond.count(c.second)) { cond[c.second] = q; order.push_back(c.second); }
            else cond[c.second] = eOr(cond[c.second], q);
        }
        // Prefer the target the current model takes, so that one query settles most cases.
        u128 mv = s.model->eval(v.e);
        int first = x.bb[0];
        for (auto &c : x.cases) if (c.first == mv) first = c.second;
        if (cond.count(first)) {
            if (decide(cond[first])) { gotoBB(s, first); return; }
        }
        for (int t : order) if (t != first && decide(cond[t])) { gotoBB(s, t); return; }
        gotoBB(s, x.bb[0]);
        return;
    }
    case Instruction::Unreachable: throw Violation{"unreachable code reached"};
    case Instruction::Call: case Instruction::Invoke: {
        if (x.callee) {
            if (x.ext == -2) throw EngineLimit{"call of unmodelled function " + demangle(x.callee->getName().str())};
            doCall(s, x, x.callee, x.dcallee, x.ext);
            return;
        }
        if (cast<CallBase>(x.I)->isInlineAsm()) { f.ip++; return; }
        u128 p = concretize(get(f, x.o.back()));
        auto it = faddr.find((uint64_t)p);
        if (it == faddr.end()) throw Violation{"control: call through a bad function pointer"};
        Function *F = it->second;
        int ext = -1;
        DFunc *d = nullptr;
        if (F->isDeclaration() || extIndex.count(F->getName().str())) {
            ext = extHandler(F->getName().str());
            if (ext < 0) throw EngineLimit{"call of unmodelled function " + demangle(F->getName().str())};
        } else d = getD(F);
        doCall(s, x, F, d, ext);
        return;
    }
    case Instruction::Alloca: {
        uint64_t n = x.size;
        if (!x.o.empty()) n *= (uint64_t)concretize(get(f, x.o[0]));
        auto o = newObj(n, "local variable");
        uint32_t id;
        if (!s.freeIds.empty()) { id = s.freeIds.back(); s.freeIds.pop_back(); s.objs[id] = o; }
        else { id = s.objs.size(); s.objs.push_back(o); }
        f.allocas.push_back(id);
        setv(Val((u128)id << 32));
        return;
    }
    case Instruction::Load: {
        Type *t = x.I->getType();
        setv(loadTyped(s, get(f, x.o[0]), t));
        return;
    }
    case Instruction::Store: {
        Type *t = cast<StoreInst>(x.I)->getValueOperand()->getType();
        storeTyped(s, get(f, x.o[1]), t, get(f, x.o[0]));
        s.stack.back().ip++;
        return;
    }
    case Instruction::GetElementPtr: {
        Val b = get(f, x.o[0]);
        bool sym = b.e;
        for (auto &sc : x.scale) sym |= get(f, x.o[sc.first]).e != nullptr;
        if (!sym) {
            uint64_t r = (uint64_t)b.c + x.off;
            for (size_t i = 0; i < x.scale.size(); i++) r += (uint64_t)(int64_t)sextw(get(f, x.o[x.scale[i].first]).c, x.scaleW[i]) * x.scale[i].second;
            setv(Val((u128)r));
            return;
        }
        ER r = eAdd(toE(b, 64), C((u128)(uint64_t)x.off, 64));
        for (size_t i = 0; i < x.scale.size(); i++)
            r = eAdd(r, eMul(mkSext(toE(get(f, x.o[x.scale[i].first]), x.scaleW[i]), 64), C(x.scale[i].second, 64)));
        setv(Val(r));
        return;
    }
    case Instruction::ICmp: {
        const Val &a = get(f, x.o[0]), &b = get(f, x.o[1]);
        if (x.vn) { setv(mapVec(x, a, &b, [&](Val p, Val q) { return intCmp(x.pred, p, q, x.w2); })); return; }
        setv(intCmp(x.pred, a, b, x.w2));
        return;
    }
    case Instruction::FCmp:
        setv(fpCmpV(x.pred, get(f, x.o[0]), get(f, x.o[1]), x.fmt2));
        return;
    case Instruction::Select: {
        const Val &c = get(f, x.o[0]), &a = get(f, x.o[1]), &b = get(f, x.o[2]);
        if (c.agg) {
            Val r; r.agg = std::make_shared<std::vector<Val>>();
            for (size_t i = 0; i < c.agg->size(); i++) {
                const Val &ci = (*c.agg)[i];
                if (!ci.e) r.agg->push_back(ci.c & 1 ? (*a.agg)[i] : (*b.agg)[i]);
                else r.agg->push_back(Val(mkIte(ci.e, toE((*a.agg)[i], x.w), toE((*b.agg)[i], x.w))));
            }
            setv(r);
            return;
        }
        if (!c.e) { setv(c.c & 1 ? a : b); return; }
        if (a.agg || b.agg || x.w == 0) { bool t = decide(c.e); setv(t ? a : b); return; }
        // Pointers to different objects: fork rather than merge.
        if (x.I->getType()->isPointerTy() && !a.e && !b.e && (a.c >> 32) != (b.c >> 32)) { bool t = decide(c.e); setv(t ? a : b); return; }
        setv(Val(mkIte(c.e, toE(a, x.w), toE(b, x.w))));
        return;
    }
    case Instruction::FNeg: {
        const Val &a = get(f, x.o[0]);
        if (!a.e) setv(Val(a.c ^ ((u128)1 << (x.fmt->width - 1))));
        else setv(Val(fpNeg(a.e, *x.fmt)));
        return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        const Val &a = get(f, x.o[0]), &b = get(f, x.o[1]);
        if (x.vn) { setv(mapVec(x, a, &b, [&](Val p, Val q) { return fpBin(x.op, p, q, x.fmt); })); return; }
        setv(fpBin(x.op, a, b, x.fmt));
        return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        const Val &a = get(f, x.o[0]), &b = get(f, x.o[1]);
        if (x.vn) { setv(mapVec(x, a, &b, [&](Val p, Val q) { return intBin(s, x.op, p, q, x.w, x.I); })); return; }
        setv(intBin(s, x.op, a, b, x.w, x.I));
        return;
    }
    case Instruction::BitCast: {
        const Val &a = get(f, x.o[0]);
        Type *st = x.I->getOperand(0)->getType(), *dt = x.I->getType();
        if (st->isVectorTy() || dt->isVectorTy()) {
            // Through bits.
            ER bits = nullptr;
            if (auto *vt = dyn_cast<FixedVectorType>(st)) {
                unsigned ew = tw(vt->getElementType());
                for (unsigned i = 0; i < vt->getNumElements(); i++) { ER p = toE(a.agg ? (*a.agg)[i] : Val((u128)0), ew); bits = bits ? mkConcat(p, bits) : p; }
            } else bits = toE(a, tw(st));
            if (auto *vt = dyn_cast<FixedVectorType>(dt)) {
                Val r; r.agg = std::make_shared<std::vector<Val>>();
                unsigned ew = tw(vt->getElementType());
                for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(Val(mkExtract(bits, i * ew, ew)));
                setv(r);
            } else setv(Val(bits));
            return;
        }
        setv(a);
        return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
        const Val &a = get(f, x.o[0]);
        if (x.vn) { setv(mapVec(x, a, nullptr, [&](Val p, Val) { return castOp(s, x, p); })); return; }
        setv(castOp(s, x, a));
        return;
    }
    case Instruction::Freeze: setv(get(f, x.o[0])); return;
    case Instruction::ExtractValue: {
        Val a = get(f, x.o[0]);
        for (auto &k : x.cases) { Val t = a.agg ? (*a.agg)[(size_t)k.first] : Val((u128)0); a = t; }
        setv(a);
        return;
    }
    case Instruction::InsertValue: {
        Val a = get(f, x.o[0]);
        if (x.cases.size() != 1) throw EngineLimit{"nested insertvalue"};
        Val r;
        r.agg = a.agg ? std::make_shared<std::vector<Val>>(*a.agg) : std::make_shared<std::vector<Val>>();
        if (r.agg->size() <= (size_t)x.cases[0].first) r.agg->resize((size_t)x.cases[0].first + 1);
        (*r.agg)[(size_t)x.cases[0].first] = get(f, x.o[1]);
        setv(r);
        return;
    }
    case Instruction::ExtractElement: {
        const Val &a = get(f, x.o[0]);
        u128 i = concretize(get(f, x.o[1]));
        setv(a.agg ? (*a.agg)[(size_t)i] : Val((u128)0));
        return;
    }
    case Instruction::InsertElement: {
        const Val &a = get(f, x.o[0]);
        u128 i = concretize(get(f, x.o[2]));
        Val r;
        r.agg = a.agg ? std::make_shared<std::vector<Val>>(*a.agg) : std::make_shared<std::vector<Val>>();
        if (r.agg->size() < x.vn) r.agg->resize(x.vn);
        (*r.agg)[(size_t)i] = get(f, x.o[1]);
        setv(r);
        return;
    }
    case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(x.I);
        const Val &a = get(f, x.o[0]), &b = get(f, x.o[1]);
        unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        for (int m : sv->getShuffleMask()) {
            if (m < 0) r.agg->push_back(Val((u128)0));
            else if ((unsigned)m < n) r.agg->push_back(a.agg ? (*a.agg)[m] : Val((u128)0));
            else r.agg->push_back(b.agg ? (*b.agg)[m - n] : Val((u128)0));
        }
        setv(r);
        return;
    }
    case Instruction::LandingPad: {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        r.agg->push_back(s.excObj);
        r.agg->push_back(s.excSel);
        setv(r);
        return;
    }
    case Instruction::Resume: {
        const Val &a = get(f, x.o[0]);
        uint64_t obj = (uint64_t)(*a.agg)[0].c;
        unwind(s, obj, s.excType[obj]);
        return;
    }
    case Instruction::AtomicRMW: {
        auto *rm = cast<AtomicRMWInst>(x.I);
        unsigned n = tbytes(rm->getType());
        Val p = get(f, x.o[0]), v = get(f, x.o[1]);
        Val old = memRead(s, p, n), nv;
        switch (rm->getOperation()) {
        case AtomicRMWInst::Add: nv = Val(eAdd(toE(old, n * 8), toE(v, n * 8))); break;
        case AtomicRMWInst::Sub: nv = Val(eSub(toE(old, n * 8), toE(v, n * 8))); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        default: throw EngineLimit{"atomicrmw"};
        }
        memWrite(s, p, n, nv);
        setv(old);
        return;
    }
    case Instruction::Fence: f.ip++; return;
    default: throw EngineLimit{std::string("instruction ") + x.I->getOpcodeName()};
    }
}

// ---------------------------------------------------------------- driver
static void jsonStr(std::ostream &o, const std::string &s)
{
    o << '"';
    for (char c : s) {
        if (c == '"' || c == '\\') o << '\\' << c;
        else if ((unsigned char)c < 32) o << ' ';
        else o << c;
    }
    o << '"';
}
static void jsonReport(std::ostream &o, const Report &r)
{
    o << "{\"kind\":"; jsonStr(o, r.kind); o << ",\"label\":"; jsonStr(o, r.label); o << ",\"loc\":"; jsonStr(o, r.loc);
    o << ",\"uf\":" << (r.usesUF ? "true" : "false") << ",\"inputs\":[";
    for (size_t i = 0; i < r.inputs.size(); i++) { o << (i ? "," : "") << "["; jsonStr(o, r.inputs[i].first); o << ",\"" << r.inputs[i].second << "\"]"; }
    o << "],\"regions\":{";
    bool first = true;
    for (auto &p : r.regions) {
        o << (first ? "" : ","); first = false;
        jsonStr(o, p.first); o << ":[";
        for (size_t i = 0; i < p.second.size(); i++) o << (i ? "," : "") << "[\"" << p.second[i].first << "\",\"" << p.second[i].second << "\"]";
        o << "]";
    }
    o << "},\"observes\":[";
    for (size_t i = 0; i < r.observes.size(); i++) { o << (i ? "," : "") << "["; jsonStr(o, r.observes[i].first); o << ",\"" << r.observes[i].second << "\"]"; }
    o << "]}";
}
template <class Map> static void jsonMap(std::ostream &o, const char *name, const Map &m)
{
    o << ",\n\"" << name << "\":{";
    bool f = true;
    for (auto &p : m) { o << (f ? "" : ","); f = false; jsonStr(o, p.first); o << ":" << p.second; }
    o << "}";
}

static void endPath(State &s, const std::string &why)
{
    nPaths++;
    endCount[why]++;
    // Reservoir-like sampling: the first ones, then exponentially rarer.
    if (s.uncertain) return;
    if ((int)samples.size() < optSamples || (nPaths & (nPaths - 1)) == 0) {
        if (why == "violation" || s.usesUF) return;
        Report r;
        r.kind = "sample"; r.label = why;
        fillReport(s, *s.model, r);
        samples.push_back(r);
    }
}

int main(int argc, char **argv)
{
    std::string file, entry = "harness", out;
    uint64_t arg = 0; bool haveArg = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "-entry") entry = val();
        else if (a == "-arg") { arg = std::stoull(val()); haveArg = true; }
        else if (a == "-o") out = val();
        else if (a == "-time") optMaxTime = std::stod(val());
        else if (a == "-steps") optMaxSteps = std::stoull(val());
        else if (a == "-paths") optMaxPaths = std::stoull(val());
        else if (a == "-samples") optSamples = std::stoi(val());
        else if (a == "-maxviol") optMaxViol = std::stoi(val());
        else if (a == "-slow") g_slowTimeout = std::stod(val());
        else if (a == "-fast") g_fastTimeout = std::stod(val());
        else if (a == "-inc") g_incLimit = (unsigned)std::stoul(val());
        else if (a == "-branch") optBranch = std::stod(val());
        else if (a == "-repo") optRepo = val();
        else if (a == "-ub") optUB = true;
        else if (a == "-uffp") optUFFP = true;
        else if (a == "-v") optVerbose = true;
        else file = a;
    }
    T0 = now();
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(file, err, ctx);
    if (!mod) { err.print("engine", errs()); return 2; }
    M = mod.get();
    DL = &M->getDataLayout();
    setupHandlers();
    auto s0 = std::make_shared<State>();
    s0->model = std::make_shared<Model>();
    s0->objs.push_back(nullptr);
    cur = s0;
    std::string fatal;
    try {
        // Functions and globals get addresses first.
        for (auto &F : *M) {
            uint64_t a = addObj(*s0, newObj(1, "function"));
            gaddr[&F] = a;
            faddr[a] = &F;
        }
        for (auto &G : M->globals()) {
            uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
            if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 4096); // external object: opaque storage
            auto o = newObj(sz, demangle(G.getName().str()));
            gaddr[&G] = addObj(*s0, o);
            std::string n = G.getName().str();
            if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") siVt = gaddr[&G];
            if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmiVt = gaddr[&G];
        }
        for (auto &G : M->globals()) {
            uint32_t id = gaddr[&G] >> 32;
            if (G.hasInitializer()) initMem(*s0->objs[id]->c, 0, G.getInitializer());
        }
        for (auto &G : M->globals())
            if (G.isConstant() && !G.isDeclaration()) s0->objs[gaddr[&G] >> 32]->readonly = true;
        // Static constructors, then the harness.
        auto runConcrete = [&](Function *F) {
            pushFrame(*s0, getD(F), {}, -1, false, -1, -1);
            try { for (;;) step(*s0); } catch (Stop &) {}
        };
        if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
            if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
                std::vector<std::pair<uint64_t, Function *>> fs;
                for (auto &o : ca->operands()) {
                    auto *st = cast<ConstantStruct>(o);
                    if (auto *F = dyn_cast<Function>(st->getOperand(1))) fs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F});
                }
                std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
                for (auto &p : fs) runConcrete(p.second);
            }
        }
        Function *F = M->getFunction(entry);
        if (!F || F->isDeclaration()) throw EngineLimit{"no entry function " + entry};
        std::vector<Val> args;
        if (haveArg || F->arg_size()) args.push_back(Val((u128)arg));
        s0->steps = 0;
        for (auto &d : dfuncs) { d.second->calls = 0; for (auto &b : d.second->bbs) b.hits = 0; }
        pushFrame(*s0, getD(F), args, -1, false, -1, -1);
        work.push_back(s0);
    } catch (Violation &v) { fatal = "initialisation: " + v.label + " at " + locStr(*s0); }
    catch (EngineLimit &l) { fatal = "initialisation: " + l.why + " at " + locStr(*s0); }
    cur.reset();
    s0.reset();
    bool complete = fatal.empty();
    std::string incompleteWhy = fatal;
    while (!work.empty() && fatal.empty()) {
        if (nPaths >= optMaxPaths) { complete = false; incompleteWhy = "path limit"; break; }
        if (now() - T0 > optMaxTime) { complete = false; incompleteWhy = "time limit"; break; }
        cur = work.back();
        work.pop_back();
        State &s = *cur;
        try {
            for (;;) {
                step(s);
                if ((nSteps & 0xfff) == 0) {
                    if (s.steps > optMaxSteps) throw EngineLimit{"step limit"};
                    if (now() - T0 > optMaxTime) throw EngineLimit{"time"};
                }
            }
        } catch (Stop &e) { endPath(s, e.why); }
        catch (Killed &) { nInfeasible++; }
        catch (Violation &v) { 
            try { settle(s); report(s, "error", v.label, s.model); nPaths++; endCount["violation"]++; }
            catch (Killed &) { nInfeasible++; }
            catch (EngineLimit &l) { limitCount[l.why]++; complete = false; }
        }
        catch (EngineLimit &l) {
            std::string w = l.why;
            if (w != "time" && !s.stack.empty()) w += " at " + locStr(s);
            limitCount[w]++;
            complete = false;
            nPaths++;
        }
        cur.reset();
    }
    if (!limitCount.empty()) complete = false;
    std::ofstream of;
    if (!out.empty()) of.open(out);
    std::ostream &o = out.empty() ? (std::ostream &)std::cout : of;
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    o << "{\"complete\":" << (complete ? "true" : "false") << ",\"why\":"; jsonStr(o, incompleteWhy);
    o << ",\n\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"steps\":" << nSteps << ",\"infeasible\":" << nInfeasible
      << ",\"asserts\":" << nAsserts << ",\"assert_queries\":" << nAssertQueries
      << ",\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown << ",\"uncertain\":" << nUncertain << ",\"bad_models\":" << g_ss.badModels << ",\"fresh\":" << g_ss.fresh
      << ",\"solver_time\":" << g_ss.time << ",\"max_query\":" << g_ss.maxTime << ",\"time\":" << now() - T0 << ",\"exprs\":" << exprCount()
      << ",\"rss_mb\":" << ru.ru_maxrss / 1024;
    jsonMap(o, "reach", reachCount);
    jsonMap(o, "assert_count", assertCount);
    jsonMap(o, "limits", limitCount);
    jsonMap(o, "ends", endCount);
    jsonMap(o, "violation_count", violCount);
    std::map<std::string, uint64_t> fns;
    auto note = [&](DISubprogram *sp, uint64_t n) {
        if (!sp) return;
        std::string path = (sp->getDirectory() + "/" + sp->getFilename()).str();
        if (sp->getFilename().starts_with("/")) path = sp->getFilename().str();
        if (path.find(optRepo + "/") != 0) return;
        std::string ln = sp->getLinkageName().str();
        uint64_t &c = fns[path.substr(optRepo.size() + 1) + ":" + (ln.empty() ? sp->getName().str() : demangle(ln))];
        c = std::max(c, n);
    };
    for (auto &d : dfuncs) {
        if (d.second->calls) note(d.second->F->getSubprogram(), d.second->calls);
        for (auto &b : d.second->bbs) {
            if (!b.hits || b.insts.empty() || !b.insts[0].I) continue;
            for (auto &in : *b.insts[0].I->getParent())
                for (const DILocation *dl = in.getDebugLoc().get(); dl; dl = dl->getInlinedAt()) note(dl->getScope()->getSubprogram(), b.hits);
        }
    }
    jsonMap(o, "functions", fns);
    o << ",\n\"violations\":[";
    for (size_t i = 0; i < violations.size(); i++) { o << (i ? ",\n" : "\n"); jsonReport(o, violations[i]); }
    o << "],\n\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) { o << (i ? ",\n" : "\n"); jsonReport(o, samples[i]); }
    o << "]}\n";
    o.flush();
    if (!out.empty()) of.close();
    _exit(0); // skip destructors of large tables
}
