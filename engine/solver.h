#pragma once
#include "expr.h"
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t relaxed = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, domainHits = 0, tabulated = 0; double time = 0, maxTime = 0; };
extern SolverStats g_sol;
extern unsigned g_solverTimeoutMs;
typedef std::vector<std::pair<uint32_t, uint64_t>> Model;   // var id -> value
// satisfiability of the conjunction
Res solve(std::vector<E> cs, Model* out);
std::string toSmt(const std::vector<E>& cs);
