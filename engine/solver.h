#pragma once
#include "expr.h"
enum SRes { S_UNSAT, S_SAT, S_UNKNOWN };
void solverInit(u64 rlimit);
// Decide PC-slice /\ extra.  On SAT the global MODEL is left untouched and newModel receives the full updated model.
SRes solve(const std::vector<u32>& pc, u32 extra, std::vector<u64>& newModel);
struct SolverStats { u64 queries, sat, unsat, unknown, ns, fp; };
extern SolverStats SST;
extern int DUMPQ; extern const char* DUMPDIR;
