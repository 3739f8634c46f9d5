#pragma once
#include "expr.h"
// Incremental decision procedure: one Z3 solver whose assertion stack mirrors the current path condition.
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxTime = 0; u64 asserted = 0; u64 crossChecked = 0, crossDisagree = 0; };
extern SolverStats gSolver;
extern unsigned gQueryTimeoutMs;
extern std::string gDumpDir; extern u64 gDumpMax;
enum class Res { SAT, UNSAT, UNKNOWN };
// pc: path condition (each of width 1), extra: additional condition (may be null)
Res solve(const std::vector<E> &pc, E extra, Model *m);
