#pragma once
#include "expr.h"
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats {
    unsigned long queries = 0, unsat = 0, sat = 0, unknown = 0, intq = 0, bvq = 0;
    double time = 0, maxq = 0;
};
extern SolverStats sstats;
// conjunction of 1-bit values; on SAT fills the model for the symbols involved
Res solve(const std::vector<V>& conj, ex::Model* out, int timeout_ms, const std::vector<Node*>* extraSyms = nullptr);
Res proveLemma(const ex::Lemma& l, int timeout_ms);
std::string smt2(const std::vector<V>& conj);
// r is what the normaliser returned for op(a,b,c); R_UNSAT: no values of the symbols make them differ
// tab: the step is a table filled by evaluating the operation on the whole finite pivot range
Res proveStep(OpK op, V a, V b, V c, int w, int aw, V r, int timeout_ms, bool& tab);
