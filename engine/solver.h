#pragma once
#include "expr.h"
enum SatRes { SR_UNSAT = 0, SR_SAT = 1, SR_UNKNOWN = 2 };
struct SolverStats { u64 queries, cacheHits, sat, unsat, unknown, assertQueries; double time, maxTime; };
extern SolverStats g_ss;
void solverInit(unsigned rlimit);
// Satisfiability of the conjunction; on SAT the model of the symbols occurring is written over *wit.
SatRes solveConj(std::vector<E*> cs, std::vector<u64>* wit, bool isAssert);
std::string toSmt2(const std::vector<E*>& cs);
