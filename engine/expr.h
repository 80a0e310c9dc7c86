// ionsym: bit-vector expressions, hash-consed and simplified on construction.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <map>
#include <memory>
#include <algorithm>
#include <functional>

namespace sym {

enum class K : uint8_t {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Not,
    Shl, LShr, AShr, Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle
};

struct VarSet {  // interned sorted set of variable ids
    std::vector<uint32_t> v;
};

struct Expr {
    K k;
    uint32_t width;
    uint32_t id;
    uint32_t aux;        // Extract: low bit; Var: variable id
    uint64_t cval;       // Const with width <= 64
    const Expr *a, *b, *c;
    const VarSet* vars;
    uint64_t umin, umax;     // unsigned range (width <= 64), else 0..~0
    uint32_t depth;
    mutable void* z3 = nullptr;
    mutable const struct TruthTable* tt = nullptr;  // 1-bit, single variable
    bool isConst() const { return k == K::Const; }
};
using E = const Expr*;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

struct TruthTable { uint64_t w[4]; };

E mkConst(uint64_t v, unsigned w);          // w <= 64
E mkConstWide(const std::vector<uint64_t>& limbs, unsigned w);  // any width, little-endian limbs (built from Concat for w>64)
E mkVar(const std::string& name);           // fresh 8-bit variable
const std::string& varName(uint32_t id);
uint32_t numVars();

E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkConcat(E hi, E lo); E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isTrue(E e) { return e->isConst() && e->cval == 1; }
inline bool isFalse(E e) { return e->isConst() && e->cval == 0; }

const VarSet* emptyVars();

// Evaluate under an assignment (missing variables read as 0). width <= 64 results; wide handled through parts.
struct Assignment {
    std::vector<uint8_t> val;   // indexed by var id
    uint8_t get(uint32_t id) const { return id < val.size() ? val[id] : 0; }
    void set(uint32_t id, uint8_t v) { if (id >= val.size()) val.resize(id + 1); val[id] = v; }
};
class Evaluator {
public:
    explicit Evaluator(const Assignment& m) : m_(m) {}
    uint64_t eval(E e);             // width <= 64
    void evalWide(E e, std::vector<uint8_t>& bits);  // bit array, little endian
private:
    const Assignment& m_;
    std::unordered_map<uint32_t, uint64_t> memo_;
};
// single-variable 1-bit expression: its truth table over the 256 values
const TruthTable* truthTable(E e);

std::string toString(E e, int depth = 6);
size_t exprCount();
}  // namespace sym
