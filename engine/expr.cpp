#include <memory>
#include "expr.h"
#include <deque>

namespace sym {

static std::deque<Expr> g_pool;
struct Key { K k; uint32_t w, aux; uint64_t cval; E a, b, c; };
struct KeyHash {
    size_t operator()(const Expr* e) const {
        uint64_t h = (uint64_t)e->k * 0x9E3779B97F4A7C15ull ^ e->width;
        auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
        mix(e->aux); mix(e->cval);
        mix(e->a ? e->a->id : 0); mix(e->b ? e->b->id + 7 : 0); mix(e->c ? e->c->id + 13 : 0);
        return h;
    }
};
struct KeyEq {
    bool operator()(const Expr* x, const Expr* y) const {
        return x->k == y->k && x->width == y->width && x->aux == y->aux && x->cval == y->cval &&
               x->a == y->a && x->b == y->b && x->c == y->c;
    }
};
static std::unordered_set<Expr*, KeyHash, KeyEq> g_tab;
static std::vector<std::string> g_varNames;

struct VSHash { size_t operator()(const std::vector<uint32_t>* v) const { size_t h = v->size(); for (auto x : *v) h = h * 1000003u ^ x; return h; } };
struct VSEq { bool operator()(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b) const { return *a == *b; } };
static std::unordered_map<const std::vector<uint32_t>*, VarSet*, VSHash, VSEq> g_vs;
static std::deque<VarSet> g_vspool;
static const VarSet* internVS(std::vector<uint32_t>&& v) {
    auto it = g_vs.find(&v);
    if (it != g_vs.end()) return it->second;
    g_vspool.push_back(VarSet{std::move(v)});
    VarSet* p = &g_vspool.back();
    g_vs[&p->v] = p;
    return p;
}
const VarSet* emptyVars() { static const VarSet* e = internVS({}); return e; }
struct PairHash { size_t operator()(const std::pair<const VarSet*, const VarSet*>& p) const { return (size_t)p.first * 0x9E3779B97F4A7C15ull ^ ((size_t)p.second >> 4); } };
static std::unordered_map<std::pair<const VarSet*, const VarSet*>, const VarSet*, PairHash> g_union;
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (std::less<const VarSet*>()(b, a)) std::swap(a, b);
    std::pair<const VarSet*, const VarSet*> key{a, b};
    auto it = g_union.find(key);
    std::vector<uint32_t> r;
    if (it != g_union.end()) return it->second;
    r.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    auto* u = internVS(std::move(r));
    g_union[key] = u;
    return u;
}

size_t exprCount() { return g_pool.size(); }

static void computeRange(Expr& e) {
    unsigned w = e.width;
    e.umin = 0; e.umax = w >= 64 ? ~0ull : maskw(w);
    if (w > 64) return;
    E a = e.a, b = e.b;
    switch (e.k) {
        case K::Const: e.umin = e.umax = e.cval; break;
        case K::ZExt: e.umin = a->umin; e.umax = a->umax; break;
        case K::Concat: {
            unsigned lw = b->width;
            e.umin = (a->umin << lw) | b->umin;
            e.umax = (a->umax << lw) | b->umax;
            break;
        }
        case K::Extract:
            if (e.a->width <= 64) {
                if (e.aux == 0) { if (a->umax <= maskw(w)) { e.umin = a->umin; e.umax = a->umax; } }
                else if ((a->umax >> e.aux) <= maskw(w)) { e.umin = a->umin >> e.aux; e.umax = a->umax >> e.aux; }
            }
            break;
        case K::Ite: e.umin = std::min(b->umin, e.c->umin); e.umax = std::max(b->umax, e.c->umax); break;
        case K::Add: {
            uint64_t hi; bool o1 = __builtin_add_overflow(a->umax, b->umax, &hi) || hi > maskw(w);
            if (!o1) { e.umin = a->umin + b->umin; e.umax = hi; }
            else {
                // both bounds overflow the same number of times (constant negative offsets)
                uint64_t lo; bool o2 = __builtin_add_overflow(a->umin, b->umin, &lo) || lo > maskw(w);
                if (o2) { e.umin = (a->umin + b->umin) & maskw(w); e.umax = (a->umax + b->umax) & maskw(w); }
            }
            break;
        }
        case K::Sub: if (a->umin >= b->umax) { e.umin = a->umin - b->umax; e.umax = a->umax - b->umin; } break;
        case K::Mul: {
            uint64_t hi; if (!__builtin_mul_overflow(a->umax, b->umax, &hi) && hi <= maskw(w)) { e.umin = a->umin * b->umin; e.umax = hi; }
            break;
        }
        case K::And: e.umax = std::min(a->umax, b->umax); break;
        case K::Or: e.umin = std::max(a->umin, b->umin); {
            uint64_t m = a->umax | b->umax; unsigned bits = m ? 64 - __builtin_clzll(m) : 0; e.umax = std::min<uint64_t>(e.umax, maskw(bits ? bits : 1) & (bits ? ~0ull : 0ull)); }
            break;
        case K::UDiv: if (b->umin > 0) { e.umin = a->umin / b->umax; e.umax = a->umax / b->umin; } break;
        case K::URem: if (b->umin > 0) e.umax = std::min(a->umax, b->umax - 1); break;
        case K::LShr: if (b->isConst() && b->cval < w) { e.umin = a->umin >> b->cval; e.umax = a->umax >> b->cval; } else e.umax = a->umax; break;
        default: break;
    }
}

static E intern(K k, unsigned w, uint32_t aux, uint64_t cval, E a, E b, E c) {
    Expr tmp{};
    tmp.k = k; tmp.width = w; tmp.aux = aux; tmp.cval = cval; tmp.a = a; tmp.b = b; tmp.c = c;
    auto it = g_tab.find(&tmp);
    if (it != g_tab.end()) return *it;
    tmp.id = (uint32_t)g_pool.size() + 1;
    tmp.vars = emptyVars();
    tmp.depth = 0;
    if (k == K::Var) tmp.vars = internVS({aux});
    for (E x : {a, b, c}) if (x) { tmp.vars = unionVS(tmp.vars, x->vars); tmp.depth = std::max(tmp.depth, x->depth + 1); }
    computeRange(tmp);
    g_pool.push_back(tmp);
    Expr* p = &g_pool.back();
    g_tab.insert(p);
    return p;
}

E mkConst(uint64_t v, unsigned w) {
    if (w > 64) return mkConcat(intern(K::Const, w - 64, 0, 0, 0, 0, 0), mkConst(v, 64));
    return intern(K::Const, w, 0, v & maskw(w), 0, 0, 0);
}
E mkConstWide(const std::vector<uint64_t>& l, unsigned w) {
    if (w <= 64) return mkConst(l[0], w);
    E r = mkConst(l[0], 64);
    unsigned done = 64; size_t i = 1;
    while (done < w) { unsigned n = std::min(64u, w - done); r = intern(K::Concat, done + n, 0, 0, mkConst(i < l.size() ? l[i] : 0, n), r, 0); done += n; ++i; }
    return r;
}
E mkVar(const std::string& name) {
    uint32_t id = g_varNames.size();
    g_varNames.push_back(name);
    return intern(K::Var, 8, id, 0, 0, 0, 0);
}
const std::string& varName(uint32_t id) { return g_varNames[id]; }
uint32_t numVars() { return g_varNames.size(); }

// ---- segments: MSB-first decomposition into Concat parts
static void segs(E e, std::vector<E>& out) {
    if (e->k == K::Concat) { segs(e->a, out); segs(e->b, out); }
    else if (e->k == K::ZExt) { unsigned n = e->width - e->a->width; while (n > 64) { out.push_back(mkConst(0, 64)); n -= 64; } out.push_back(mkConst(0, n)); segs(e->a, out); }
    else out.push_back(e);
}
static bool hasSegs(E e) { return e->k == K::Concat || e->k == K::ZExt; }

E mkExtract(E a, unsigned lo, unsigned w) {
    assert(lo + w <= a->width);
    if (lo == 0 && w == a->width) return a;
    switch (a->k) {
        case K::Const: return mkConst(a->cval >> lo, w);
        case K::Extract: return mkExtract(a->a, a->aux + lo, w);
        case K::Concat: {
            unsigned lw = a->b->width;
            if (lo + w <= lw) return mkExtract(a->b, lo, w);
            if (lo >= lw) return mkExtract(a->a, lo - lw, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
        }
        case K::ZExt: {
            unsigned iw = a->a->width;
            if (lo >= iw) return mkConst(0, w);
            if (lo + w <= iw) return mkExtract(a->a, lo, w);
            return mkZExt(mkExtract(a->a, lo, iw - lo), w);
        }
        case K::SExt: {
            unsigned iw = a->a->width;
            if (lo + w <= iw) return mkExtract(a->a, lo, w);
            if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
            return mkSExt(mkExtract(a->a, iw - 1, 1), w);
        }
        case K::Ite: {
            E x = a->b, y = a->c;
            // Ite is pushed through: keeps boolean structure visible
            if (x->isConst() || y->isConst() || hasSegs(x) || hasSegs(y)) return mkIte(a->a, mkExtract(x, lo, w), mkExtract(y, lo, w));
            break;
        }
        case K::And: return mkAnd(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        case K::Or: return mkOr(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        case K::Xor: return mkXor(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        case K::Not: return mkNot(mkExtract(a->a, lo, w));
        case K::Add: if (lo == 0) return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
        case K::Sub: if (lo == 0) return mkSub(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
        case K::Mul: if (lo == 0) return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
        default: break;
    }
    if (a->width <= 64 && lo > 0 && (a->umax >> lo) == 0) return mkConst(0, w);
    return intern(K::Extract, w, lo, 0, a, 0, 0);
}

E mkConcat(E hi, E lo) {
    unsigned w = hi->width + lo->width;
    if (w <= 64 && hi->isConst() && lo->isConst()) return mkConst((hi->cval << lo->width) | lo->cval, w);
    // right-nested normal form: first part is never a Concat
    if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->k == K::ZExt) return mkConcat(mkConst(0, hi->width - hi->a->width), mkConcat(hi->a, lo));
    if (hi->isConst() && hi->cval == 0 && hi->width <= 64) {
        return mkZExt(lo, w);
    }
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
        return mkExtract(hi->a, lo->aux, w);
    if (lo->k == K::Concat) {
        E m = lo->a;
        if (hi->isConst() && m->isConst() && hi->width + m->width <= 64)
            return mkConcat(mkConst((hi->cval << m->width) | m->cval, hi->width + m->width), lo->b);
        if (hi->k == K::Extract && m->k == K::Extract && hi->a == m->a && hi->aux == m->aux + m->width)
            return mkConcat(mkExtract(hi->a, m->aux, hi->width + m->width), lo->b);
    }
    // sign replication folded back: Ite-free only
    if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->isConst() && lo->k == K::Ite && lo->b->isConst() && lo->c->isConst())
        return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    return intern(K::Concat, w, 0, 0, hi, lo, 0);
}
E mkZExt(E a, unsigned w) {
    if (a->width == w) return a;
    if (a->isConst() && w <= 64) return mkConst(a->cval, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->k == K::Ite && a->width <= 64 && w <= 64 && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    return intern(K::ZExt, w, 0, 0, a, 0, 0);
}
E mkSExt(E a, unsigned w) {
    if (a->width == w) return a;
    if (a->isConst() && w <= 64) return mkConst((uint64_t)sextw(a->cval, a->width), w);
    if (a->k == K::SExt) return mkSExt(a->a, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->width <= 64 && a->width > 1 && (a->umax >> (a->width - 1)) == 0) return mkZExt(a, w);
    if (a->k == K::Ite && w <= 64 && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    if (a->width == 1 && w <= 64) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
    return intern(K::SExt, w, 0, 0, a, 0, 0);
}

E mkNot(E a) {
    if (a->isConst()) return mkConst(~a->cval, a->width);
    if (a->k == K::Not) return a->a;
    if (a->width == 1) {
        if (a->k == K::Ult) return mkUle(a->b, a->a);
        if (a->k == K::Ule) return mkUlt(a->b, a->a);
        if (a->k == K::Slt) return mkSle(a->b, a->a);
        if (a->k == K::Sle) return mkSlt(a->b, a->a);
    }
    if (a->k == K::Ite && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
    return intern(K::Not, a->width, 0, 0, a, 0, 0);
}

static E bitwise(K k, E a, E b);
static unsigned constRuns(uint64_t v, unsigned w) {
    unsigned runs = 1;
    for (unsigned i = 1; i < w; ++i) if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) ++runs;
    return runs;
}
// try a piecewise evaluation of a bitwise operator; returns null when not trivial
static E piecewise(K k, E a, E b) {
    std::vector<E> sa, sb;
    auto split = [](E e, std::vector<E>& out) {
        std::vector<E> t; segs(e, t);
        for (E s : t) {
            if (s->isConst() && s->width > 1 && constRuns(s->cval, s->width) <= 5) {
                int i = (int)s->width - 1;
                while (i >= 0) {
                    int j = i; uint64_t bit = (s->cval >> i) & 1;
                    while (j - 1 >= 0 && ((s->cval >> (j - 1)) & 1) == bit) --j;
                    out.push_back(mkConst(bit ? ~0ull : 0, i - j + 1));
                    i = j - 1;
                }
            } else out.push_back(s);
        }
    };
    split(a, sa); split(b, sb);
    if (sa.size() == 1 && sb.size() == 1) return nullptr;
    if (sa.size() + sb.size() > 24) return nullptr;
    // align from the LSB
    std::vector<std::pair<E, E>> pieces;  // lsb first
    size_t i = sa.size(), j = sb.size();
    E ca = nullptr, cb = nullptr; unsigned oa = 0, ob = 0;
    while (i > 0 || ca) {
        if (!ca) { ca = sa[--i]; oa = 0; }
        if (!cb) { cb = sb[--j]; ob = 0; }
        unsigned n = std::min(ca->width - oa, cb->width - ob);
        E pa = mkExtract(ca, oa, n), pb = mkExtract(cb, ob, n);
        bool triv = pa == pb;
        for (E p : {pa, pb}) if (p->isConst() && (p->cval == 0 || p->cval == maskw(p->width))) triv = true;
        if (pa->isConst() && pb->isConst()) triv = true;
        if (!triv) return nullptr;
        pieces.push_back({pa, pb});
        oa += n; ob += n;
        if (oa == ca->width) ca = nullptr;
        if (ob == cb->width) cb = nullptr;
    }
    E r = nullptr;
    for (auto& [x, y] : pieces) {
        E p = bitwise(k, x, y);
        r = r ? mkConcat(p, r) : p;
    }
    return r;
}
static E bitwise(K k, E a, E b) {
    unsigned w = a->width;
    assert(w == b->width);
    if (a->isConst() && b->isConst()) {
        uint64_t v = k == K::And ? a->cval & b->cval : k == K::Or ? a->cval | b->cval : a->cval ^ b->cval;
        return mkConst(v, w);
    }
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        bool zero = b->cval == 0, ones = b->cval == maskw(w);
        if (k == K::And) { if (zero) return b; if (ones) return a; }
        if (k == K::Or) { if (zero) return a; if (ones) return b; }
        if (k == K::Xor) { if (zero) return a; if (ones) return mkNot(a); }
    }
    if (a == b) return k == K::Xor ? mkConst(0, w) : a;
    if ((a->k == K::Not && a->a == b) || (b->k == K::Not && b->a == a))
        return mkConst(k == K::And ? 0 : ~0ull, w);
    if (w == 1) {
        if (k == K::Xor) {  // a xor b == not (a == b)
            if (a->k == K::Not) return mkNot(mkXor(a->a, b));
            if (b->k == K::Not) return mkNot(mkXor(a, b->a));
        }
        if (k == K::And || k == K::Or) {
            // absorb: (x & y) & x
            if ((a->k == k) && (a->a == b || a->b == b)) return a;
            if ((b->k == k) && (b->a == a || b->b == a)) return b;
        }
    } else {
        if (b->isConst() && a->k == k && a->b->isConst()) return bitwise(k, a->a, bitwise(k, a->b, b));
        if (w <= 64 || true) if (E p = piecewise(k, a, b)) return p;
        if (a->k == K::Ite && b->isConst() && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, bitwise(k, a->b, b), bitwise(k, a->c, b));
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return intern(k, w, 0, 0, a, b, 0);
}
E mkAnd(E a, E b) { return bitwise(K::And, a, b); }
E mkOr(E a, E b) {
    // De Morgan keeps one normal form for booleans: (not a) or (not b) stays as is
    return bitwise(K::Or, a, b);
}
E mkXor(E a, E b) { return bitwise(K::Xor, a, b); }

E mkAdd(E a, E b) {
    unsigned w = a->width;
    if (a->isConst() && b->isConst() && w <= 64) return mkConst(a->cval + b->cval, w);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (b->cval == 0 && w <= 64) return a;
        if (a->k == K::Add && a->b->isConst()) return mkAdd(a->a, mkConst(a->b->cval + b->cval, w));
        if (a->k == K::Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
    } else {
        if (b->k == K::Add && b->b->isConst()) return mkAdd(mkAdd(a, b->a), b->b);
        if (a->k == K::Add && a->b->isConst()) return mkAdd(mkAdd(a->a, b), a->b);
        if (a->k == K::Sub && a->b == b) return a->a;
        if (b->k == K::Sub && b->b == a) return b->a;
        // disjoint concatenations: x<<k + zext(y) is an or
        if (hasSegs(a) && hasSegs(b)) {
            // only when every aligned piece has a zero side
            std::vector<E> sa, sb; segs(a, sa); segs(b, sb);
            if (sa.size() + sb.size() <= 12) {
                size_t i = sa.size(), j = sb.size(); E ca = nullptr, cb = nullptr; unsigned oa = 0, ob = 0; bool ok = true; E r = nullptr;
                while (i > 0 || ca) {
                    if (!ca) { ca = sa[--i]; oa = 0; }
                    if (!cb) { cb = sb[--j]; ob = 0; }
                    unsigned n = std::min(ca->width - oa, cb->width - ob);
                    E pa = mkExtract(ca, oa, n), pb = mkExtract(cb, ob, n);
                    E p = (pa->isConst() && pa->cval == 0) ? pb : (pb->isConst() && pb->cval == 0) ? pa : nullptr;
                    if (!p) { ok = false; break; }
                    r = r ? mkConcat(p, r) : p;
                    oa += n; ob += n;
                    if (oa == ca->width) ca = nullptr;
                    if (ob == cb->width) cb = nullptr;
                }
                if (ok) return r;
            }
        }
        if (a->id > b->id) std::swap(a, b);
    }
    return intern(K::Add, w, 0, 0, a, b, 0);
}
E mkSub(E a, E b) {
    unsigned w = a->width;
    if (a == b && w <= 64) return mkConst(0, w);
    if (b->isConst() && w <= 64) return mkAdd(a, mkConst(0 - b->cval, w));
    if (a->isConst() && b->isConst() && w <= 64) return mkConst(a->cval - b->cval, w);
    if (w <= 64) {
        if (a->k == K::Add && a->b->isConst() && a->a == b) return a->b;
        if (a->k == K::Add && a->b->isConst() && b->k == K::Add && b->b->isConst()) return mkAdd(mkSub(a->a, b->a), mkConst(a->b->cval - b->b->cval, w));
        if (a->k == K::Add && a->b->isConst()) return mkAdd(mkSub(a->a, b), a->b);
        if (b->k == K::Add && b->b->isConst()) return mkAdd(mkSub(a, b->a), mkConst(0 - b->b->cval, w));
        if (a->k == K::Add && a->a == b) return a->b;
        if (a->k == K::Add && a->b == b) return a->a;
        if (b->k == K::Add && b->a == a) return mkSub(mkConst(0, w), b->b);
        if (b->k == K::Add && b->b == a) return mkSub(mkConst(0, w), b->a);
    }
    return intern(K::Sub, w, 0, 0, a, b, 0);
}
E mkMul(E a, E b) {
    unsigned w = a->width;
    if (a->isConst() && b->isConst() && w <= 64) return mkConst(a->cval * b->cval, w);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst() && w <= 64) {
        if (b->cval == 0) return b;
        if (b->cval == 1) return a;
        if ((b->cval & (b->cval - 1)) == 0) return mkShl(a, mkConst(__builtin_ctzll(b->cval), w));
        if (a->k == K::Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
    } else if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return intern(K::Mul, w, 0, 0, a, b, 0);
}
#define CC (a->isConst() && b->isConst() && w <= 64)
E mkUDiv(E a, E b) {
    unsigned w = a->width;
    if (CC && b->cval) return mkConst(a->cval / b->cval, w);
    if (b->isConst() && w <= 64 && b->cval && (b->cval & (b->cval - 1)) == 0) return mkLShr(a, mkConst(__builtin_ctzll(b->cval), w));
    if (w <= 64 && b->umin > a->umax) return mkConst(0, w);
    return intern(K::UDiv, w, 0, 0, a, b, 0);
}
E mkURem(E a, E b) {
    unsigned w = a->width;
    if (CC && b->cval) return mkConst(a->cval % b->cval, w);
    if (b->isConst() && w <= 64 && b->cval && (b->cval & (b->cval - 1)) == 0) return mkAnd(a, mkConst(b->cval - 1, w));
    if (w <= 64 && b->umin > a->umax) return a;
    return intern(K::URem, w, 0, 0, a, b, 0);
}
E mkSDiv(E a, E b) {
    unsigned w = a->width;
    if (CC && b->cval && !(sextw(b->cval, w) == -1)) return mkConst((uint64_t)(sextw(a->cval, w) / sextw(b->cval, w)), w);
    if (w <= 64 && w > 1 && !(a->umax >> (w - 1)) && !(b->umax >> (w - 1))) return mkUDiv(a, b);
    return intern(K::SDiv, w, 0, 0, a, b, 0);
}
E mkSRem(E a, E b) {
    unsigned w = a->width;
    if (CC && b->cval && !(sextw(b->cval, w) == -1)) return mkConst((uint64_t)(sextw(a->cval, w) % sextw(b->cval, w)), w);
    if (w <= 64 && w > 1 && !(a->umax >> (w - 1)) && !(b->umax >> (w - 1))) return mkURem(a, b);
    return intern(K::SRem, w, 0, 0, a, b, 0);
}
E mkShl(E a, E b) {
    unsigned w = a->width;
    if (b->isConst()) {
        uint64_t s = b->cval;
        if (s >= w) return mkConst(0, w);
        if (s == 0) return a;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
    }
    if (a->isConst() && a->cval == 0 && w <= 64) return a;
    return intern(K::Shl, w, 0, 0, a, b, 0);
}
E mkLShr(E a, E b) {
    unsigned w = a->width;
    if (b->isConst()) {
        uint64_t s = b->cval;
        if (s >= w) return mkConst(0, w);
        if (s == 0) return a;
        return mkZExt(mkExtract(a, s, w - s), w);
    }
    if (a->isConst() && a->cval == 0 && w <= 64) return a;
    return intern(K::LShr, w, 0, 0, a, b, 0);
}
E mkAShr(E a, E b) {
    unsigned w = a->width;
    if (b->isConst()) {
        uint64_t s = b->cval;
        if (s >= w) s = w - 1;
        if (s == 0) return a;
        return mkSExt(mkExtract(a, s, w - s), w);
    }
    if (w <= 64 && w > 1 && !(a->umax >> (w - 1))) return mkLShr(a, b);
    return intern(K::AShr, w, 0, 0, a, b, 0);
}

E mkIte(E c, E t, E f) {
    assert(c->width == 1 && t->width == f->width);
    if (c->isConst()) return c->cval ? t : f;
    if (t == f) return t;
    if (c->k == K::Not) return mkIte(c->a, f, t);
    if (t->width == 1) {
        if (t->isConst() && f->isConst()) return t->cval ? c : mkNot(c);
        if (t->isConst()) return t->cval ? mkOr(c, f) : mkAnd(mkNot(c), f);
        if (f->isConst()) return f->cval ? mkOr(mkNot(c), t) : mkAnd(c, t);
        if (t == c) return mkOr(c, f);
        if (f == c) return mkAnd(c, t);
    }
    if (t->k == K::Ite && t->a == c) t = t->b;
    if (f->k == K::Ite && f->a == c) f = f->c;
    if (t == f) return t;
    if (f->k == K::Ite && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
    if (t->k == K::Ite && t->c == f) return mkIte(mkAnd(c, t->a), t->b, f);
    if (f->k == K::Ite && f->c == t) return mkIte(mkAnd(mkNot(c), f->a), f->b, t);
    return intern(K::Ite, t->width, 0, 0, c, t, f);
}

// small cache for pushing comparisons with a constant into Ite trees
static std::unordered_map<uint64_t, E> g_cmpMemo;
static bool constLeafIte(E e, int depth) {
    if (e->isConst()) return true;
    if (e->k != K::Ite || depth <= 0) return false;
    return constLeafIte(e->b, depth - 1) && constLeafIte(e->c, depth - 1);
}
static bool someConstLeaf(E e) { return e->k == K::Ite && (e->b->isConst() || e->c->isConst() || someConstLeaf(e->b) || someConstLeaf(e->c)); }

static E pushCmp(K k, E ite, E cst, bool constRight) {
    uint64_t key = ((uint64_t)ite->id << 32) ^ ((uint64_t)cst->id << 4) ^ ((uint64_t)k << 1) ^ constRight;
    key = key * 0x9E3779B97F4A7C15ull + (uint64_t)k * 31 + constRight;
    auto it = g_cmpMemo.find(key);
    if (it != g_cmpMemo.end()) return it->second;
    auto rec = [&](E x) -> E {
        if (k == K::Eq) return mkEq(x, cst);
        if (k == K::Ult) return constRight ? mkUlt(x, cst) : mkUlt(cst, x);
        if (k == K::Ule) return constRight ? mkUle(x, cst) : mkUle(cst, x);
        if (k == K::Slt) return constRight ? mkSlt(x, cst) : mkSlt(cst, x);
        return constRight ? mkSle(x, cst) : mkSle(cst, x);
    };
    E r = mkIte(ite->a, rec(ite->b), rec(ite->c));
    g_cmpMemo[key] = r;
    return r;
}

E mkEq(E a, E b) {
    assert(a->width == b->width);
    unsigned w = a->width;
    if (a == b) return mkTrue();
    if (a->isConst() && b->isConst()) return mkConst(a->cval == b->cval, 1);
    if (a->isConst()) std::swap(a, b);
    if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkFalse();
    if (w == 1) {
        if (b->isConst()) return b->cval ? a : mkNot(a);
        if (a->k == K::Not && b->k == K::Not) return mkEq(a->a, b->a);
        if (a->k == K::Not) return mkNot(mkEq(a->a, b));
        if (b->k == K::Not) return mkNot(mkEq(a, b->a));
    }
    if (hasSegs(a) || hasSegs(b)) {
        if (b->isConst()) {
            if (a->k == K::ZExt) {
                unsigned iw = a->a->width;
                if (iw < 64 && w <= 64 && (b->cval >> iw)) return mkFalse();
                if (w <= 64) return mkEq(a->a, mkConst(b->cval, iw));
            } else {
                unsigned lw = a->b->width;
                E e1 = mkEq(a->a, mkExtract(b, lw, w - lw));
                if (isFalse(e1)) return e1;
                return mkAnd(e1, mkEq(a->b, mkExtract(b, 0, lw)));
            }
        } else if (a->k == K::ZExt && b->k == K::ZExt) {
            if (a->a->width == b->a->width) return mkEq(a->a, b->a);
            if (a->a->width < b->a->width) return mkEq(mkZExt(a->a, b->a->width), b->a);
            return mkEq(a->a, mkZExt(b->a, a->a->width));
        } else if (w > 64 || (a->k == K::Concat && b->k == K::Concat && a->b->width == b->b->width)) {
            // split at a's (or b's) lowest boundary
            E s = hasSegs(a) ? a : b; E o = s == a ? b : a;
            unsigned lw = s->k == K::Concat ? s->b->width : s->a->width;
            E e1 = mkEq(mkExtract(s, lw, w - lw), mkExtract(o, lw, w - lw));
            if (isFalse(e1)) return e1;
            return mkAnd(e1, mkEq(mkExtract(s, 0, lw), mkExtract(o, 0, lw)));
        } else if (a->k == K::Concat || b->k == K::Concat) {
            E s = a->k == K::Concat ? a : b; E o = s == a ? b : a;
            if (o->k == K::ZExt) {
                unsigned lw = s->b->width;
                E e1 = mkEq(s->a, mkExtract(o, lw, w - lw));
                if (isFalse(e1)) return e1;
                return mkAnd(e1, mkEq(s->b, mkExtract(o, 0, lw)));
            }
        }
    }
    if (b->isConst() && w <= 64) {
        if (a->k == K::Add && a->b->isConst()) return mkEq(a->a, mkConst(b->cval - a->b->cval, w));
        if (a->k == K::Xor && a->b->isConst()) return mkEq(a->a, mkConst(b->cval ^ a->b->cval, w));
        if (a->k == K::Not) return mkEq(a->a, mkConst(~b->cval, w));
        if (a->k == K::Sub && b->cval == 0) return mkEq(a->a, a->b);
        if (a->k == K::Sub && a->a->isConst()) return mkEq(a->b, mkConst(a->a->cval - b->cval, w));
        if (a->k == K::SExt) {
            unsigned iw = a->a->width;
            uint64_t lowv = b->cval & maskw(iw);
            if ((uint64_t)(sextw(lowv, iw)) == (uint64_t)sextw(b->cval, w)) return mkEq(a->a, mkConst(lowv, iw));
            return mkFalse();
        }
        if (a->k == K::Ite && someConstLeaf(a)) return pushCmp(K::Eq, a, b, true);
        if (a->k == K::Or && b->cval == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
    }
    if (a->k == K::Ite && (a->b == b || a->c == b)) {
        if (a->b == b) return mkOr(a->a, mkEq(a->c, b));
        return mkOr(mkNot(a->a), mkEq(a->b, b));
    }
    if (b->k == K::Ite && (b->b == a || b->c == a)) return mkEq(b, a);
    if (a->k == K::Ite && b->k == K::Ite && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
    if (a->k == K::Add && b->k == K::Add && a->b->isConst() && b->b->isConst() && w <= 64)
        return mkEq(a->a, mkAdd(b->a, mkConst(b->b->cval - a->b->cval, w)));
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return intern(K::Eq, 1, 0, 0, a, b, 0);
}
E mkUlt(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkFalse();
    if (w <= 64) {
        if (a->isConst() && b->isConst()) return mkConst(a->cval < b->cval, 1);
        if (a->umax < b->umin) return mkTrue();
        if (a->umin >= b->umax) return mkFalse();
        if (b->isConst() && b->cval == 1) return mkEq(a, mkConst(0, w));
        if (a->isConst() && a->cval == 0) return mkNot(mkEq(b, mkConst(0, w)));
        if (b->isConst() && b->cval == maskw(w)) return mkNot(mkEq(a, b));
        if (a->k == K::ZExt && b->isConst()) return mkUlt(a->a, mkConst(b->cval, a->a->width));
        if (b->k == K::ZExt && a->isConst()) return mkUlt(mkConst(a->cval, b->a->width), b->a);
        if (a->k == K::ZExt && b->k == K::ZExt) {
            unsigned m = std::max(a->a->width, b->a->width);
            return mkUlt(mkZExt(a->a, m), mkZExt(b->a, m));
        }
        if (b->isConst() && a->k == K::Ite && someConstLeaf(a)) return pushCmp(K::Ult, a, b, true);
        if (a->isConst() && b->k == K::Ite && someConstLeaf(b)) return pushCmp(K::Ult, b, a, false);
        if (w == 1) return mkAnd(mkNot(a), b);
    }
    return intern(K::Ult, 1, 0, 0, a, b, 0);
}
E mkUle(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkTrue();
    if (w <= 64) {
        if (a->isConst() && b->isConst()) return mkConst(a->cval <= b->cval, 1);
        if (a->umax <= b->umin) return mkTrue();
        if (a->umin > b->umax) return mkFalse();
        // with a constant: canonicalise to Ult
        if (b->isConst()) return mkUlt(a, mkConst(b->cval + 1, w));
        if (a->isConst()) return mkUlt(mkConst(a->cval - 1, w), b);
        if (a->k == K::ZExt && b->k == K::ZExt) {
            unsigned m = std::max(a->a->width, b->a->width);
            return mkUle(mkZExt(a->a, m), mkZExt(b->a, m));
        }
        if (w == 1) return mkOr(mkNot(a), b);
    }
    return intern(K::Ule, 1, 0, 0, a, b, 0);
}
static bool nonneg(E a) { return a->width <= 64 && a->width > 1 && !(a->umax >> (a->width - 1)); }
static bool negv(E a) { return a->width <= 64 && a->width > 1 && (a->umin >> (a->width - 1)); }
E mkSlt(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkFalse();
    if (w <= 64) {
        if (a->isConst() && b->isConst()) return mkConst(sextw(a->cval, w) < sextw(b->cval, w), 1);
        if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
        if (negv(a) && negv(b)) return mkUlt(a, b);
        if (negv(a) && nonneg(b)) return mkTrue();
        if (nonneg(a) && negv(b)) return mkFalse();
        if (b->isConst() && b->cval == 0) return mkExtract(a, w - 1, 1);
        if (a->isConst() && a->cval == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
        if (a->k == K::SExt && b->isConst() && (uint64_t)sextw(b->cval & maskw(a->a->width), a->a->width) == (uint64_t)sextw(b->cval, w)) return mkSlt(a->a, mkConst(b->cval, a->a->width));
        if (b->k == K::SExt && a->isConst() && (uint64_t)sextw(a->cval & maskw(b->a->width), b->a->width) == (uint64_t)sextw(a->cval, w)) return mkSlt(mkConst(a->cval, b->a->width), b->a);
        if (b->isConst() && a->k == K::Ite && someConstLeaf(a)) return pushCmp(K::Slt, a, b, true);
        if (a->isConst() && b->k == K::Ite && someConstLeaf(b)) return pushCmp(K::Slt, b, a, false);
    }
    return intern(K::Slt, 1, 0, 0, a, b, 0);
}
E mkSle(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkTrue();
    if (w <= 64) {
        if (a->isConst() && b->isConst()) return mkConst(sextw(a->cval, w) <= sextw(b->cval, w), 1);
        if (nonneg(a) && nonneg(b)) return mkUle(a, b);
        if (negv(a) && negv(b)) return mkUle(a, b);
        if (negv(a) && nonneg(b)) return mkTrue();
        if (nonneg(a) && negv(b)) return mkFalse();
        if (b->isConst() && sextw(b->cval, w) != (int64_t)(maskw(w) >> 1)) return mkSlt(a, mkConst(b->cval + 1, w));
        if (a->isConst() && a->cval != (1ull << (w - 1))) return mkSlt(mkConst(a->cval - 1, w), b);
    }
    return intern(K::Sle, 1, 0, 0, a, b, 0);
}

// ---- evaluation
uint64_t Evaluator::eval(E e) {
    if (e->k == K::Const) return e->cval;
    if (e->k == K::Var) return m_.get(e->aux);
    auto it = memo_.find(e->id);
    if (it != memo_.end()) return it->second;
    unsigned w = e->width;
    uint64_t m = maskw(w), r = 0;
    auto wideOp = [&](E x) { return x && x->width > 64; };
    if (wideOp(e->a) || wideOp(e->b) || w > 64) {
        std::vector<uint8_t> bits;
        if (w <= 64 && (e->k == K::Extract)) {
            evalWide(e->a, bits);
            for (unsigned i = 0; i < w; ++i) r |= (uint64_t)bits[e->aux + i] << i;
        } else if (e->k == K::Eq) {
            std::vector<uint8_t> b2; evalWide(e->a, bits); evalWide(e->b, b2); r = bits == b2;
        } else if (e->k == K::Ult || e->k == K::Ule) {
            std::vector<uint8_t> b2; evalWide(e->a, bits); evalWide(e->b, b2);
            int c = 0; for (int i = (int)bits.size() - 1; i >= 0 && !c; --i) c = (int)bits[i] - (int)b2[i];
            r = e->k == K::Ult ? c < 0 : c <= 0;
        } else { fprintf(stderr, "eval: unsupported wide op %d\n", (int)e->k); abort(); }
        return memo_[e->id] = r;
    }
    uint64_t a = 0, b = 0;
    if (e->k == K::Ite) { r = eval(e->a) ? eval(e->b) : eval(e->c); return memo_[e->id] = r; }
    if (e->a) a = eval(e->a);
    if (e->b) b = eval(e->b);
    unsigned aw = e->a ? e->a->width : 0;
    switch (e->k) {
        case K::Add: r = a + b; break;
        case K::Sub: r = a - b; break;
        case K::Mul: r = a * b; break;
        case K::UDiv: r = b ? a / b : ~0ull; break;
        case K::URem: r = b ? a % b : a; break;
        case K::SDiv: { int64_t x = sextw(a, w), y = sextw(b, w); r = y == 0 ? (x < 0 ? 1 : ~0ull) : y == -1 ? (uint64_t)(-(uint64_t)x) : (uint64_t)(x / y); break; }
        case K::SRem: { int64_t x = sextw(a, w), y = sextw(b, w); r = y == 0 ? (uint64_t)x : y == -1 ? 0 : (uint64_t)(x % y); break; }
        case K::And: r = a & b; break;
        case K::Or: r = a | b; break;
        case K::Xor: r = a ^ b; break;
        case K::Not: r = ~a; break;
        case K::Shl: r = b >= w ? 0 : a << b; break;
        case K::LShr: r = b >= w ? 0 : a >> b; break;
        case K::AShr: r = (uint64_t)(sextw(a, w) >> (b >= w ? w - 1 : b)); if (b >= 64) r = sextw(a, w) < 0 ? ~0ull : 0; break;
        case K::Concat: r = (a << e->b->width) | b; break;
        case K::Extract: r = a >> e->aux; break;
        case K::ZExt: r = a; break;
        case K::SExt: r = (uint64_t)sextw(a, aw); break;
        case K::Eq: r = a == b; break;
        case K::Ult: r = a < b; break;
        case K::Ule: r = a <= b; break;
        case K::Slt: r = sextw(a, aw) < sextw(b, aw); break;
        case K::Sle: r = sextw(a, aw) <= sextw(b, aw); break;
        default: abort();
    }
    return memo_[e->id] = r & m;
}
void Evaluator::evalWide(E e, std::vector<uint8_t>& out) {
    unsigned w = e->width;
    out.assign(w, 0);
    if (w <= 64) { uint64_t v = eval(e); for (unsigned i = 0; i < w; ++i) out[i] = (v >> i) & 1; return; }
    std::vector<uint8_t> x, y;
    switch (e->k) {
        case K::Const: return;  // only zero constants are wider than 64
        case K::Concat: evalWide(e->b, x); evalWide(e->a, y); std::copy(x.begin(), x.end(), out.begin()); std::copy(y.begin(), y.end(), out.begin() + x.size()); return;
        case K::ZExt: evalWide(e->a, x); std::copy(x.begin(), x.end(), out.begin()); return;
        case K::SExt: evalWide(e->a, x); std::copy(x.begin(), x.end(), out.begin()); for (size_t i = x.size(); i < w; ++i) out[i] = x.back(); return;
        case K::Extract: evalWide(e->a, x); for (unsigned i = 0; i < w; ++i) out[i] = x[e->aux + i]; return;
        case K::Ite: if (eval(e->a)) evalWide(e->b, out); else evalWide(e->c, out); return;
        case K::And: case K::Or: case K::Xor:
            evalWide(e->a, x); evalWide(e->b, y);
            for (unsigned i = 0; i < w; ++i) out[i] = e->k == K::And ? x[i] & y[i] : e->k == K::Or ? x[i] | y[i] : x[i] ^ y[i];
            return;
        case K::Not: evalWide(e->a, x); for (unsigned i = 0; i < w; ++i) out[i] = !x[i]; return;
        case K::Add: case K::Sub: {
            evalWide(e->a, x); evalWide(e->b, y);
            int carry = e->k == K::Sub;
            for (unsigned i = 0; i < w; ++i) { int s = x[i] + (e->k == K::Sub ? !y[i] : y[i]) + carry; out[i] = s & 1; carry = s >> 1; }
            return;
        }
        case K::Mul: {
            evalWide(e->a, x); evalWide(e->b, y);
            for (unsigned i = 0; i < w; ++i) if (y[i]) { int carry = 0; for (unsigned j = 0; i + j < w; ++j) { int s = out[i + j] + x[j] + carry; out[i + j] = s & 1; carry = s >> 1; } }
            return;
        }
        default: fprintf(stderr, "evalWide: unsupported op %d\n", (int)e->k); abort();
    }
}

// values of an expression over one variable, for each of its 256 values
struct VTab { uint64_t v[256]; };
static std::unordered_map<uint32_t, std::unique_ptr<VTab>> g_vt;
static const VTab* valTabRec(E e) {
    auto it = g_vt.find(e->id);
    if (it != g_vt.end()) return it->second.get();
    auto t = std::make_unique<VTab>();
    uint64_t* r = t->v;
    unsigned w = e->width;
    uint64_t m = maskw(w);
    bool wide = w > 64 || (e->a && e->a->width > 64) || (e->b && e->b->width > 64) || (e->c && e->c->width > 64);
    if (e->k == K::Const) for (int i = 0; i < 256; ++i) r[i] = e->cval;
    else if (e->k == K::Var) for (int i = 0; i < 256; ++i) r[i] = i;
    else if (wide) {
        Assignment as;
        for (int i = 0; i < 256; ++i) { as.set(e->vars->v[0], (uint8_t)i); Evaluator ev(as); r[i] = ev.eval(e); }
    } else {
        const uint64_t* a = e->a ? valTabRec(e->a)->v : nullptr;
        const uint64_t* b = e->b ? valTabRec(e->b)->v : nullptr;
        const uint64_t* c = e->c ? valTabRec(e->c)->v : nullptr;
        unsigned aw = e->a ? e->a->width : 0;
        #define L(x) for (int i = 0; i < 256; ++i) r[i] = (x) & m; break
        switch (e->k) {
            case K::Ite: L(a[i] ? b[i] : c[i]);
            case K::Add: L(a[i] + b[i]);
            case K::Sub: L(a[i] - b[i]);
            case K::Mul: L(a[i] * b[i]);
            case K::And: L(a[i] & b[i]);
            case K::Or: L(a[i] | b[i]);
            case K::Xor: L(a[i] ^ b[i]);
            case K::Not: L(~a[i]);
            case K::Shl: L(b[i] >= w ? 0 : a[i] << b[i]);
            case K::LShr: L(b[i] >= w ? 0 : a[i] >> b[i]);
            case K::Concat: L((a[i] << e->b->width) | b[i]);
            case K::Extract: L(a[i] >> e->aux);
            case K::ZExt: L(a[i]);
            case K::SExt: L((uint64_t)sextw(a[i], aw));
            case K::Eq: L(a[i] == b[i]);
            case K::Ult: L(a[i] < b[i]);
            case K::Ule: L(a[i] <= b[i]);
            case K::Slt: L(sextw(a[i], aw) < sextw(b[i], aw));
            case K::Sle: L(sextw(a[i], aw) <= sextw(b[i], aw));
            default: {
                Assignment as;
                for (int i = 0; i < 256; ++i) { as.set(e->vars->v[0], (uint8_t)i); Evaluator ev(as); r[i] = ev.eval(e); }
            }
        }
        #undef L
    }
    return (g_vt[e->id] = std::move(t)).get();
}
static const VTab* valTab(E e) {
    if (g_vt.size() > 30000) g_vt.clear();
    return valTabRec(e);
}
static std::deque<TruthTable> g_tts;
const TruthTable* truthTable(E e) {
    if (e->tt) return e->tt;
    assert(e->width == 1 && e->vars->v.size() == 1);
    TruthTable t{};
    if (e->k == K::Not) {
        const TruthTable* x = truthTable(e->a);
        for (int i = 0; i < 4; ++i) t.w[i] = ~x->w[i];
    } else if ((e->k == K::And || e->k == K::Or || e->k == K::Xor) && !e->a->isConst() && !e->b->isConst()) {
        const TruthTable *x = truthTable(e->a), *y = truthTable(e->b);
        for (int i = 0; i < 4; ++i) t.w[i] = e->k == K::And ? x->w[i] & y->w[i] : e->k == K::Or ? x->w[i] | y->w[i] : x->w[i] ^ y->w[i];
    } else {
        const VTab* x = valTab(e);
        for (int i = 0; i < 256; ++i) if (x->v[i]) t.w[i >> 6] |= 1ull << (i & 63);
    }
    g_tts.push_back(t);
    e->tt = &g_tts.back();
    return e->tt;
}

std::string toString(E e, int d) {
    static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle"};
    if (e->k == K::Const) return std::to_string(e->cval) + ":" + std::to_string(e->width);
    if (e->k == K::Var) return varName(e->aux);
    if (d <= 0) return "...";
    std::string s = std::string("(") + n[(int)e->k];
    if (e->k == K::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + toString(x, d - 1);
    return s + ")";
}
}  // namespace sym
