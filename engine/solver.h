#pragma once
#include "expr.h"
struct SolverStats { u64 queries = 0, z3 = 0, dom = 0, cached = 0, model_hits = 0, unknown = 0, mismatch = 0; double z3_time = 0; };
extern SolverStats g_ss;
enum Sat { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
// Is conj(cs) satisfiable? On SAT fills m (only variables mentioned).
Sat z3check(const std::vector<E> &cs, Model *m, unsigned timeout_ms);
std::string z3smt2(const std::vector<E> &cs);
const u64 *truthset(E cond, u32 var); // 256-bit truth table of a condition on one 8-bit (or narrower) variable
