#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <cstdlib>
#include <cstdio>
#include <unordered_set>

SolverStats g_ss;
double g_fastTimeout = 0.25, g_slowTimeout = 60;
unsigned g_incLimit = 3000; // literals before the incremental solver is renewed

static std::unordered_map<ER, std::vector<uint32_t>> symCache;
const std::vector<uint32_t> &symsOf(ER e)
{
    auto it = symCache.find(e);
    if (it != symCache.end()) return it->second;
    // Iterative to be safe on deep terms.
    std::vector<std::pair<ER, int>> st{{e, 0}};
    while (!st.empty()) {
        ER x = st.back().first;
        int i = st.back().second;
        if (i < x->nk) {
            st.back().second++;
            if (!symCache.count(x->k[i])) st.push_back({x->k[i], 0});
            continue;
        }
        st.pop_back();
        if (symCache.count(x)) continue;
        std::vector<uint32_t> s;
        if (x->op == VAR) s.push_back(x->aux);
        if (x->op == UF) s.push_back(x->aux | 0x80000000u);
        for (int j = 0; j < x->nk; j++) { auto &k = symCache[x->k[j]]; s.insert(s.end(), k.begin(), k.end()); }
        std::sort(s.begin(), s.end());
        s.erase(std::unique(s.begin(), s.end()), s.end());
        symCache[x] = std::move(s);
    }
    return symCache[e];
}

namespace {
z3::context *cx = nullptr;
std::unordered_map<ER, Z3_ast> tr;          // translation cache
std::vector<z3::expr> *keep = nullptr;
struct UfApp { ER e; z3::expr v; };
std::unordered_map<uint32_t, std::vector<ER>> ufApps;

z3::context &ctx()
{
    if (!cx) {
        cx = new z3::context();
        keep = new std::vector<z3::expr>();
    }
    return *cx;
}
Z3_ast reg(ER e, z3::expr x)
{
    keep->push_back(x);
    tr[e] = x;
    return x;
}
z3::expr get(ER e) { return z3::expr(*cx, tr.at(e)); }

z3::expr b2v(const z3::expr &b) { return b; }

// Width-1 expressions are translated to Bool; others to BitVec.
z3::expr asBv(ER e)
{
    z3::expr x = get(e);
    if (e->width == 1) return z3::ite(x, cx->bv_val(1, 1), cx->bv_val(0, 1));
    return x;
}
z3::expr bvConst(u128 v, unsigned w)
{
    return cx->bv_val(u128str(v).c_str(), w);
}

void translate1(ER e)
{
    z3::context &c = ctx();
    unsigned w = e->width;
    switch (e->op) {
    case CONST:
        if (w == 1) reg(e, c.bool_val(e->val != 0)); else reg(e, bvConst(e->val, w));
        return;
    case VAR: {
        std::string n = "v" + std::to_string(e->aux);
        if (w == 1) reg(e, c.bool_const(n.c_str())); else reg(e, c.bv_const(n.c_str(), w));
        return;
    }
    case UF: {
        std::string n = "u" + std::to_string(e->id);
        if (w == 1) reg(e, c.bool_const(n.c_str())); else reg(e, c.bv_const(n.c_str(), w));
        ufApps[e->aux].push_back(e);
        return;
    }
    case NOT:
        if (w == 1) reg(e, !get(e->k[0])); else reg(e, ~get(e->k[0]));
        return;
    case ITE: reg(e, z3::ite(get(e->k[0]), get(e->k[1]), get(e->k[2]))); return;
    case CONCAT: reg(e, z3::concat(asBv(e->k[0]), asBv(e->k[1]))); return;
    case EXTRACT: {
        z3::expr x = asBv(e->k[0]).extract(e->aux + w - 1, e->aux);
        if (w == 1) reg(e, x == c.bv_val(1, 1)); else reg(e, x);
        return;
    }
    case ZEXT: reg(e, z3::zext(asBv(e->k[0]), w - e->k[0]->width)); return;
    case SEXT: reg(e, z3::sext(asBv(e->k[0]), w - e->k[0]->width)); return;
    default: break;
    }
    ER A = e->k[0], B = e->k[1];
    if (A->width == 1 && (e->op == AND || e->op == OR || e->op == XOR || e->op == EQ)) {
        z3::expr a = get(A), b = get(B);
        switch (e->op) {
        case AND: reg(e, a && b); return;
        case OR: reg(e, a || b); return;
        case XOR: reg(e, a != b); return;
        default: reg(e, a == b); return;
        }
    }
    z3::expr a = asBv(A), b = asBv(B);
    z3::expr r(c);
    switch (e->op) {
    case ADD: r = a + b; break;
    case SUB: r = a - b; break;
    case MUL: r = a * b; break;
    case UDIV: r = z3::udiv(a, b); break;
    case SDIV: r = a / b; break;
    case UREM: r = z3::urem(a, b); break;
    case SREM: r = z3::srem(a, b); break;
    case AND: r = a & b; break;
    case OR: r = a | b; break;
    case XOR: r = a ^ b; break;
    case SHL: r = z3::shl(a, b); break;
    case LSHR: r = z3::lshr(a, b); break;
    case ASHR: r = z3::ashr(a, b); break;
    case EQ: reg(e, a == b); return;
    case ULT: reg(e, z3::ult(a, b)); return;
    case ULE: reg(e, z3::ule(a, b)); return;
    case SLT: reg(e, a < b); return;
    case SLE: reg(e, a <= b); return;
    default: abort();
    }
    if (w == 1) reg(e, r == c.bv_val(1, 1)); else reg(e, r);
}

Z3_ast translate(ER root)
{
    ctx();
    auto it = tr.find(root);
    if (it != tr.end()) return it->second;
    std::vector<std::pair<ER, int>> st{{root, 0}};
    while (!st.empty()) {
        ER e = st.back().first;
        int i = st.back().second;
        if (i < e->nk) {
            st.back().second++;
            if (!tr.count(e->k[i])) st.push_back({e->k[i], 0});
            continue;
        }
        st.pop_back();
        if (!tr.count(e)) translate1(e);
    }
    return tr[root];
}

void collectUf(ER root, std::vector<ER> &out, std::unordered_set<ER> &seen)
{
    std::vector<ER> st{root};
    while (!st.empty()) {
        ER e = st.back(); st.pop_back();
        if (!seen.insert(e).second) continue;
        if (e->op == UF) out.push_back(e);
        for (int i = 0; i < e->nk; i++) st.push_back(e->k[i]);
    }
}

u128 numeral(const z3::expr &v, unsigned w)
{
    if (w == 1) return v.is_true();
    std::string s = v.get_decimal_string(0);
    u128 r = 0;
    for (char ch : s) if (ch >= '0' && ch <= '9') r = r * 10 + (ch - '0');
    return r;
}

z3::solver *inc = nullptr;
std::unordered_map<ER, Z3_ast> lits;
unsigned incCount = 0;
double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
} // namespace

static bool fillModel(z3::model m, const std::vector<ER> &cs, const std::vector<ER> &ufs, Model &out)
{
    std::unordered_set<uint32_t> vs;
    for (ER c : cs) for (uint32_t s : symsOf(c)) vs.insert(s);
    for (uint32_t s : vs) {
        if (s & 0x80000000u) { out.ufs[s & 0x7fffffffu].clear(); continue; }
        unsigned w = g_syms[s].width;
        std::string n = "v" + std::to_string(s);
        z3::expr x = w == 1 ? cx->bool_const(n.c_str()) : cx->bv_const(n.c_str(), w);
        out.vars[s] = numeral(m.eval(x, true), w);
    }
    out.cache.clear();
    // UF tables: arguments evaluated innermost first.
    std::vector<ER> sorted = ufs;
    std::sort(sorted.begin(), sorted.end(), [](ER a, ER b) { return a->id < b->id; });
    for (ER u : sorted) {
        std::vector<u128> args;
        for (int i = 0; i < u->nk; i++) args.push_back(out.eval(u->k[i]));
        u128 v = numeral(m.eval(get(u), true), u->width);
        auto &tab = out.ufs[u->aux];
        bool found = false;
        for (auto &p : tab) if (p.first == args) found = true;
        if (!found) tab.push_back({args, v});
        out.cache.clear();
    }
    for (ER c : cs) if (!out.eval(c)) return false;
    return true;
}

Res solverCheck(const std::vector<ER> &pc, ER cond, const Model &base, std::shared_ptr<Model> *out, bool slice, double slow)
{
    if (slow <= 0) slow = g_slowTimeout;
    if (isFalse(cond)) return Res::UNSAT;
    double t0 = now();
    // Slice: constraints connected to cond through shared symbols.
    std::vector<ER> cs{cond};
    if (!slice) cs.insert(cs.end(), pc.begin(), pc.end());
    else {
        std::unordered_set<uint32_t> syms(symsOf(cond).begin(), symsOf(cond).end());
        std::vector<char> used(pc.size(), 0);
        for (bool more = true; more;) {
            more = false;
            for (size_t i = 0; i < pc.size(); i++) {
                if (used[i]) continue;
                for (uint32_t s : symsOf(pc[i]))
                    if (syms.count(s)) {
                        used[i] = 1; more = true;
                        cs.push_back(pc[i]);
                        syms.insert(symsOf(pc[i]).begin(), symsOf(pc[i]).end());
                        break;
                    }
            }
        }
    }
    g_ss.queries++;
    z3::context &c = ctx();
    bool heavy = false;
    for (ER e : cs) { translate(e); heavy |= e->heavy; }
    // Ackermann constraints.
    std::vector<ER> ufs;
    std::vector<z3::expr> ack;
    {
        std::unordered_set<ER> seen;
        for (ER e : cs) collectUf(e, ufs, seen);
        for (size_t i = 0; i < ufs.size(); i++)
            for (size_t j = i + 1; j < ufs.size(); j++) {
                ER a = ufs[i], b = ufs[j];
                if (a->aux != b->aux || a->nk != b->nk) continue;
                ER eq = eTrue();
                for (int k = 0; k < a->nk; k++) eq = eAnd(eq, eEq(a->k[k], b->k[k]));
                if (isFalse(eq)) continue;
                translate(eq);
                ack.push_back(z3::implies(get(eq), get(a) == get(b)));
            }
    }
    Res res = Res::UNKNOWN;
    std::shared_ptr<Model> m = std::make_shared<Model>();
    m->vars = base.vars;
    m->ufs = base.ufs;
    auto finish = [&](z3::check_result r, z3::solver &s) {
        if (r == z3::unsat) res = Res::UNSAT;
        else if (r == z3::sat) {
            // A check cancelled by its timeout can hand out a partial model: only a model that
            // satisfies every constraint counts.
            if (!fillModel(s.get_model(), cs, ufs, *m)) {
                g_ss.badModels++;
                m->vars = base.vars;
                m->ufs = base.ufs;
                return;
            }
            res = Res::SAT;
        }
    };
    try {
        if (!heavy) {
            if (!inc || incCount > g_incLimit) {
                delete inc;
                inc = new z3::solver(c, "QF_FD");
                lits.clear();
                incCount = 0;
            }
            z3::params p(c);
            p.set("timeout", (unsigned)(g_fastTimeout * 1000));
            inc->set(p);
            z3::expr_vector asmp(c);
            auto addLit = [&](const z3::expr &e, ER key) {
                auto it = key ? lits.find(key) : lits.end();
                if (key && it != lits.end()) { asmp.push_back(z3::expr(c, it->second)); return; }
                z3::expr l = c.bool_const(("l" + std::to_string(incCount++) + "_" + std::to_string((uintptr_t)inc)).c_str());
                keep->push_back(l);
                inc->add(z3::implies(l, e));
                if (key) lits[key] = l;
                asmp.push_back(l);
            };
            for (ER e : cs) addLit(get(e), e);
            for (auto &a : ack) addLit(a, nullptr);
            z3::check_result r = inc->check(asmp);
            finish(r, *inc);
        }
        if (res == Res::UNKNOWN) {
            g_ss.fresh++;
            z3::params p(c);
            p.set("timeout", (unsigned)(slow * 1000));
            z3::tactic t = z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") &
                           z3::tactic(c, "elim-uncnstr") & z3::tactic(c, "simplify") & z3::tactic(c, "max-bv-sharing") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat");
            z3::solver s = t.mk_solver();
            s.set(p);
            for (ER e : cs) s.add(get(e));
            for (auto &a : ack) s.add(a);
            if (getenv("ENGINE_DUMP")) {
                static int n = 0;
                FILE *f = fopen((std::string(getenv("ENGINE_DUMP")) + std::to_string(n++) + ".smt2").c_str(), "w");
                fputs(s.to_smt2().c_str(), f); fclose(f);
            }
            finish(s.check(), s);
        }
        if (res == Res::UNKNOWN && g_ss.badModels) {
            z3::params p(c);
            p.set("timeout", (unsigned)(slow * 1000));
            z3::tactic t = z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat");
            z3::solver s = t.mk_solver();
            s.set(p);
            for (ER e : cs) s.add(get(e));
            for (auto &a : ack) s.add(a);
            finish(s.check(), s);
        }
    } catch (z3::exception &e) {
        fprintf(stderr, "engine: z3: %s\n", e.msg());
        res = Res::UNKNOWN;
    }
    double dt = now() - t0;
    g_ss.time += dt;
    g_ss.maxTime = std::max(g_ss.maxTime, dt);
    if (res == Res::SAT) g_ss.sat++;
    else if (res == Res::UNSAT) g_ss.unsat++;
    else g_ss.unknown++;
    if (res == Res::SAT && out) *out = m;
    return res;
}
