// ionsym: path-constraint solver (independence slicing, byte-domain procedure, query cache, z3).
#pragma once
#include "expr.h"

namespace sym {

enum class Sat { Yes, No, Unknown };

struct SolverStats {
    uint64_t queries = 0;        // feasibility/assertion questions asked
    uint64_t z3 = 0, z3sat = 0, z3unsat = 0, z3unknown = 0;
    uint64_t cacheHits = 0, byteDomain = 0, modelHits = 0, trivial = 0;
    double z3seconds = 0;
};
extern SolverStats g_stats;
extern unsigned g_z3TimeoutMs;

class Constraints {   // copied with states
public:
    std::vector<E> list;
    std::unordered_map<uint32_t, uint64_t> known;   // expr id -> value implied by a constraint
    // per variable: domain from unary constraints; -1 when unconstrained
    std::unordered_map<uint32_t, TruthTable> dom;
    std::unordered_map<uint32_t, bool> multi;       // variable occurs in a constraint with other variables
    Assignment model;                               // satisfies all constraints
    void add(E e);                                  // caller guarantees satisfiability; model must already satisfy
};

// Is constraints && q satisfiable?  On Yes, `out` receives a full model (extension of c.model).
Sat checkSat(const Constraints& c, E q, Assignment& out, bool forceZ3 = false);
std::string toSmt2(const Constraints& c, E q);
}  // namespace sym
