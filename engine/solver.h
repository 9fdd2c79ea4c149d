// Incremental bit-vector solving with assumption literals (Z3), plus lazy tie refinement.
#pragma once
#include "real.h"
#include <memory>

typedef std::shared_ptr<Model> MP;
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, lemmas = 0, resets = 0; double time = 0, maxTime = 0; };
extern SolverStats gSS;
extern unsigned gQueryTimeoutMs;
extern uint64_t gEpoch;
enum SR { SAT, UNSAT, UNK };
// Is pc /\ extra satisfiable?  On SAT a tie-consistent model is returned.
SR solve(const std::vector<Expr*>& pc, Expr* extra, MP& out, const Model* hint);
// Make the model's tie variables reachable from e consistent (they are unconstrained by the path condition so far).
void fixTies(MP& m, Expr* e);
void fixTiesR(MP& m, const Val& v);
void solverDestroy();
