#pragma once
#include "expr.h"
#include <memory>
#include <vector>

enum class Res { SAT, UNSAT, UNKNOWN };

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, fresh = 0, badModels = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
extern double g_fastTimeout, g_slowTimeout; // seconds
extern unsigned g_incLimit;

// Symbols (VAR numbers, UF numbers with the top bit set) an expression depends on.
const std::vector<uint32_t> &symsOf(ER e);

// Is (pc and cond) satisfiable?  base satisfies pc; on SAT *out satisfies pc and cond.
Res solverCheck(const std::vector<ER> &pc, ER cond, const Model &base, std::shared_ptr<Model> *out, bool slice = true, double slow = 0);
