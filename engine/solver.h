// Incremental SAT/BV back end (z3, QF_FD: incremental SAT with bit-blasting).
#pragma once
#include "expr.h"
#include <memory>
struct SolverStats { u64 queries=0, sat=0, unsat=0, cacheHits=0, modelHits=0, unknown=0; double secs=0; };
extern SolverStats gSolver;
typedef std::shared_ptr<Model> ModelP;
// decides satisfiability of the conjunction. Returns 1 sat, 0 unsat, -1 unknown. On sat a model is stored.
int solveSat(const std::vector<E> &conj, ModelP *out);
void solverInit(unsigned timeoutMs);
int solveSmall(const std::vector<E> &conj, ModelP *out, const Model*base);
