#include "solver.h"
#include <z3.h>
#include <chrono>
#include <sstream>

namespace sym {
SolverStats g_stats;
unsigned g_z3TimeoutMs = 10000;

void Constraints::add(E e) {
    if (isTrue(e)) return;
    if (e->k == K::And) { add(e->a); add(e->b); return; }
    if (known.count(e->id) && known[e->id] == 1) return;
    list.push_back(e);
    known[e->id] = 1;
    known[mkNot(e)->id] = 0;
    if (e->k == K::Eq && e->b->isConst() && e->b->width <= 64) known[e->a->id] = e->b->cval;
    const auto& vs = e->vars->v;
    if (vs.size() == 1) {
        const TruthTable* t = truthTable(e);
        auto it = dom.find(vs[0]);
        if (it == dom.end()) dom[vs[0]] = *t;
        else for (int i = 0; i < 4; ++i) it->second.w[i] &= t->w[i];
    } else for (auto v : vs) multi[v] = true;
}

// ---------------------------------------------------------------- z3
static Z3_context Z() {
    static Z3_context c = nullptr;
    if (!c) {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        c = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    }
    return c;
}
static Z3_ast tr(E e) {
    if (e->z3) return (Z3_ast)e->z3;
    // iterative post-order to avoid deep recursion
    std::vector<E> st{e};
    Z3_context c = Z();
    while (!st.empty()) {
        E x = st.back();
        if (x->z3) { st.pop_back(); continue; }
        bool ready = true;
        for (E y : {x->a, x->b, x->c}) if (y && !y->z3) { st.push_back(y); ready = false; }
        if (!ready) continue;
        st.pop_back();
        Z3_ast a = x->a ? (Z3_ast)x->a->z3 : nullptr, b = x->b ? (Z3_ast)x->b->z3 : nullptr, d = x->c ? (Z3_ast)x->c->z3 : nullptr;
        Z3_ast r = nullptr;
        auto bv1 = [&](Z3_ast p) { return Z3_mk_ite(c, p, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1))); };
        // width-1 expressions are z3 booleans; conversions inserted where bit-vectors are needed
        auto asBV = [&](E y, Z3_ast z) { return y->width == 1 ? bv1(z) : z; };
        auto asBool = [&](Z3_ast z) { return Z3_mk_eq(c, z, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); };
        bool w1 = x->width == 1;
        switch (x->k) {
            case K::Const:
                if (w1) r = x->cval ? Z3_mk_true(c) : Z3_mk_false(c);
                else r = Z3_mk_unsigned_int64(c, x->cval, Z3_mk_bv_sort(c, x->width));
                break;
            case K::Var: r = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)x->aux), Z3_mk_bv_sort(c, 8)); break;
            case K::And: if (w1) { Z3_ast v[2] = {a, b}; r = Z3_mk_and(c, 2, v); } else r = Z3_mk_bvand(c, a, b); break;
            case K::Or: if (w1) { Z3_ast v[2] = {a, b}; r = Z3_mk_or(c, 2, v); } else r = Z3_mk_bvor(c, a, b); break;
            case K::Xor: r = w1 ? Z3_mk_xor(c, a, b) : Z3_mk_bvxor(c, a, b); break;
            case K::Not: r = w1 ? Z3_mk_not(c, a) : Z3_mk_bvnot(c, a); break;
            case K::Ite: r = Z3_mk_ite(c, a, b, d); break;
            case K::Eq: r = Z3_mk_eq(c, a, b); break;
            case K::Ult: r = Z3_mk_bvult(c, asBV(x->a, a), asBV(x->b, b)); break;
            case K::Ule: r = Z3_mk_bvule(c, asBV(x->a, a), asBV(x->b, b)); break;
            case K::Slt: r = Z3_mk_bvslt(c, asBV(x->a, a), asBV(x->b, b)); break;
            case K::Sle: r = Z3_mk_bvsle(c, asBV(x->a, a), asBV(x->b, b)); break;
            case K::Concat: r = Z3_mk_concat(c, asBV(x->a, a), asBV(x->b, b)); break;
            case K::Extract: r = Z3_mk_extract(c, x->aux + x->width - 1, x->aux, a); if (w1) r = asBool(r); break;
            case K::ZExt: r = Z3_mk_zero_ext(c, x->width - x->a->width, asBV(x->a, a)); break;
            case K::SExt: r = Z3_mk_sign_ext(c, x->width - x->a->width, asBV(x->a, a)); break;
            default: {
                Z3_ast p = asBV(x->a, a), q = asBV(x->b, b);
                switch (x->k) {
                    case K::Add: r = Z3_mk_bvadd(c, p, q); break;
                    case K::Sub: r = Z3_mk_bvsub(c, p, q); break;
                    case K::Mul: r = Z3_mk_bvmul(c, p, q); break;
                    case K::UDiv: r = Z3_mk_bvudiv(c, p, q); break;
                    case K::SDiv: r = Z3_mk_bvsdiv(c, p, q); break;
                    case K::URem: r = Z3_mk_bvurem(c, p, q); break;
                    case K::SRem: r = Z3_mk_bvsrem(c, p, q); break;
                    case K::Shl: r = Z3_mk_bvshl(c, p, q); break;
                    case K::LShr: r = Z3_mk_bvlshr(c, p, q); break;
                    case K::AShr: r = Z3_mk_bvashr(c, p, q); break;
                    default: abort();
                }
                if (w1) r = asBool(r);
            }
        }
        x->z3 = r;
    }
    return (Z3_ast)e->z3;
}

static Sat z3check(const std::vector<E>& cs, const std::vector<uint32_t>& vars, std::vector<std::pair<uint32_t, uint8_t>>& out) {
    auto t0 = std::chrono::steady_clock::now();
    Z3_context c = Z();
    static Z3_solver s = nullptr;
    static unsigned uses = 0;
    if (!s || uses++ > 2000) {
        if (s) Z3_solver_dec_ref(c, s);
        s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), g_z3TimeoutMs);
        Z3_solver_set_params(c, s, p);
        Z3_params_dec_ref(c, p);
        uses = 0;
    }
    Z3_solver_push(c, s);
    for (E e : cs) Z3_solver_assert(c, s, tr(e));
    ++g_stats.z3;
    Z3_lbool r = Z3_solver_check(c, s);
    Sat res = Sat::Unknown;
    if (r == Z3_L_TRUE) {
        ++g_stats.z3sat;
        res = Sat::Yes;
        Z3_model m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        for (auto v : vars) {
            Z3_ast val = nullptr;
            Z3_ast k = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)v), Z3_mk_bv_sort(c, 8));
            if (Z3_model_eval(c, m, k, true, &val)) {
                uint64_t u = 0;
                Z3_get_numeral_uint64(c, val, &u);
                out.push_back({v, (uint8_t)u});
            }
        }
        Z3_model_dec_ref(c, m);
    } else if (r == Z3_L_FALSE) { ++g_stats.z3unsat; res = Sat::No; }
    else ++g_stats.z3unknown;
    Z3_solver_pop(c, s, 1);
    g_stats.z3seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return res;
}

struct CacheEntry { Sat r; std::vector<std::pair<uint32_t, uint8_t>> m; };
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEntry, VecHash> g_cache;

static bool sliceFor(const Constraints& c, E q, std::vector<E>& cs, std::vector<uint32_t>& vars) {
    std::vector<bool> in;
    auto mark = [&](uint32_t v) { if (v >= in.size()) in.resize(v + 1); if (!in[v]) { in[v] = true; vars.push_back(v); return true; } return false; };
    for (auto v : q->vars->v) mark(v);
    std::vector<bool> used(c.list.size());
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < c.list.size(); ++i) {
            if (used[i]) continue;
            const auto& vs = c.list[i]->vars->v;
            bool hit = false;
            for (auto v : vs) if (v < in.size() && in[v]) { hit = true; break; }
            if (!hit) continue;
            used[i] = true;
            for (auto v : vs) if (mark(v)) ch = true;
        }
    }
    for (size_t i = 0; i < c.list.size(); ++i) if (used[i]) cs.push_back(c.list[i]);
    return true;
}

Sat checkSat(const Constraints& c, E q, Assignment& out, bool forceZ3) {
    ++g_stats.queries;
    if (q->isConst()) { ++g_stats.trivial; if (q->cval) { out = c.model; return Sat::Yes; } return Sat::No; }
    if (auto it = c.known.find(q->id); it != c.known.end() && !forceZ3) { ++g_stats.trivial; if (it->second) { out = c.model; return Sat::Yes; } return Sat::No; }
    // exact byte-domain procedure: one variable, all of whose constraints are unary
    if (!forceZ3 && q->vars->v.size() == 1) {
        uint32_t v = q->vars->v[0];
        TruthTable t = *truthTable(q);
        auto it = c.dom.find(v);
        if (it != c.dom.end()) for (int i = 0; i < 4; ++i) t.w[i] &= it->second.w[i];
        bool empty = !(t.w[0] | t.w[1] | t.w[2] | t.w[3]);
        if (empty) { ++g_stats.byteDomain; return Sat::No; }
        if (!c.multi.count(v)) {
            ++g_stats.byteDomain;
            out = c.model;
            for (int i = 0; i < 4; ++i) if (t.w[i]) { out.set(v, (uint8_t)(i * 64 + __builtin_ctzll(t.w[i]))); break; }
            return Sat::Yes;
        }
    }
    std::vector<E> cs;
    std::vector<uint32_t> vars;
    sliceFor(c, q, cs, vars);
    cs.push_back(q);
    std::vector<uint32_t> key;
    for (E e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_cache.find(key);
    if (it == g_cache.end()) {
        CacheEntry ce;
        ce.r = z3check(cs, vars, ce.m);
        it = g_cache.emplace(std::move(key), std::move(ce)).first;
    } else ++g_stats.cacheHits;
    if (it->second.r == Sat::Yes) {
        out = c.model;
        for (auto& [v, b] : it->second.m) out.set(v, b);
    }
    return it->second.r;
}

std::string toSmt2(const Constraints& c, E q) {
    std::vector<E> cs; std::vector<uint32_t> vars;
    sliceFor(c, q, cs, vars);
    cs.push_back(q);
    Z3_context z = Z();
    std::vector<Z3_ast> as;
    for (E e : cs) as.push_back(tr(e));
    return Z3_benchmark_to_smtlib_string(z, "ionsym", "QF_BV", "unknown", "", as.size() - 1, as.data(), as.back());
}
}  // namespace sym
