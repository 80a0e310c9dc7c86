// ionsym: intrinsics, exceptions, memory management and harness primitives.
#include "exec.h"
#include <llvm/IR/Intrinsics.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
using namespace llvm;

namespace sym {

// ------------------------------------------------------------------ bytes
bool Exec::getByte(State& s, uint64_t a, Val& v) {
    std::string why;
    const Obj* o = objAt(s, a, 1, why, false);
    if (!o) { fatal(s, "memory-error", "read: " + why); return false; }
    E sy; uint8_t b = o->byte((uint32_t)a, sy);
    v = sy ? simp(s, Val::ex(sy)) : Val(b);
    return true;
}
bool Exec::readCStr(State& s, uint64_t a, std::string& out) {
    out.clear();
    for (int i = 0; i < 100000; ++i) {
        Val v;
        if (!getByte(s, a + i, v)) return false;
        if (v.e) { Evaluator ev(s.cs.model); v = Val(ev.eval(v.e)); }
        if (!v.c) return true;
        out += (char)v.c;
    }
    return true;
}
void Exec::memcpyBytes(State& s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return;
    std::string why;
    const Obj* so = objAt(s, src, n, why, false);
    if (!so) { fatal(s, "memory-error", "read: " + why); return; }
    if (!objAt(s, d, n, why, true)) { fatal(s, "memory-error", "write: " + why); return; }
    uint32_t so0 = (uint32_t)src, do0 = (uint32_t)d;
    if (!so->anySym(so0, (uint32_t)n)) {
        std::vector<uint8_t> t(n);
        so->readRaw(so0, t.data(), (uint32_t)n);
        s.mem.wget((uint32_t)(d >> 32) - 1)->writeRaw(do0, t.data(), (uint32_t)n);
        return;
    }
    std::vector<std::pair<uint8_t, E>> t(n);
    for (uint64_t i = 0; i < n; ++i) { E sy; uint8_t b = so->byte(so0 + (uint32_t)i, sy); t[i] = {b, sy}; }
    Obj* o = s.mem.wget((uint32_t)(d >> 32) - 1);
    for (uint64_t i = 0; i < n; ++i) o->setByte(do0 + (uint32_t)i, t[i].first, t[i].second);
}

// ------------------------------------------------------------------ intrinsics
bool Exec::intrinsic(State& s, DInst& d, std::vector<Val>& a, unsigned iid) {
    Frame& f = s.st.back();
    auto fin = [&](Val v) { finishCall(s, d, std::move(v)); return true; };
    unsigned w = d.w;
    bool bad = false;
    auto vec2 = [&](auto fn) -> bool {   // element-wise binary intrinsic on vectors
        unsigned ew = width(d.I->getType()->getScalarType());
        Val r; r.g = Ref<Agg>(new Agg);
        for (size_t i = 0; i < a[0].g->v.size(); ++i) r.g->v.push_back(fn(a[0].g->v[i], a.size() > 1 && a[1].g ? a[1].g->v[i] : Val(0), ew));
        return fin(r);
    };
    switch (iid) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            uint64_t dst, src, n;
            if (!concretize(s, simp(s, a[2]), 64, n) || s.done) return false;
            if (!n) return fin(Val(0));
            if (!concretize(s, simp(s, a[0]), 64, dst) || s.done || !concretize(s, simp(s, a[1]), 64, src) || s.done) return false;
            memcpyBytes(s, dst, src, n);
            if (s.done) return false;
            return fin(Val(0));
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            uint64_t dst, n;
            if (!concretize(s, simp(s, a[2]), 64, n) || s.done) return false;
            if (!n) return fin(Val(0));
            if (!concretize(s, simp(s, a[0]), 64, dst) || s.done) return false;
            std::string why;
            if (!objAt(s, dst, n, why, true)) { fatal(s, "memory-error", "write: " + why); return false; }
            Obj* o = s.mem.wget((uint32_t)(dst >> 32) - 1);
            if (!a[1].e) o->setRaw((uint32_t)dst, (uint8_t)a[1].c, (uint32_t)n);
            else for (uint64_t i = 0; i < n; ++i) o->setByte((uint32_t)(dst + i), 0, a[1].e);
            return fin(Val(0));
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned ow = width(d.I->getOperand(0)->getType());
            bool sg = iid == Intrinsic::sadd_with_overflow || iid == Intrinsic::ssub_with_overflow || iid == Intrinsic::smul_with_overflow;
            unsigned op = (iid == Intrinsic::uadd_with_overflow || iid == Intrinsic::sadd_with_overflow) ? 0 : (iid == Intrinsic::usub_with_overflow || iid == Intrinsic::ssub_with_overflow) ? 1 : 2;
            Val r, o;
            if (!a[0].e && !a[1].e && ow <= 64) {
                __int128 x = sg ? (__int128)sextw(a[0].c, ow) : (__int128)a[0].c, y = sg ? (__int128)sextw(a[1].c, ow) : (__int128)a[1].c;
                __int128 z = op == 0 ? x + y : op == 1 ? x - y : 0;
                bool ov = false;
                if (op == 2) {
                    if (sg) { __int128 q; ov = __builtin_mul_overflow(x, y, &q); z = q; }
                    else { unsigned __int128 q = (unsigned __int128)x * (unsigned __int128)y; ov = ow < 64 ? (q >> ow) != 0 : (q >> 64) != 0; z = (__int128)q; }
                }
                uint64_t m = (uint64_t)z & maskw(ow);
                if (sg) ov = ov || (__int128)sextw(m, ow) != z;
                else if (op != 2) ov = z < 0 || z > (__int128)maskw(ow);
                r = Val(m); o = Val((uint64_t)ov);
            } else {
                unsigned ew = op == 2 ? ow * 2 : ow + 1;
                E x = toE(a[0], ow), y = toE(a[1], ow);
                E X = sg ? mkSExt(x, ew) : mkZExt(x, ew), Y = sg ? mkSExt(y, ew) : mkZExt(y, ew);
                E z = op == 0 ? mkAdd(X, Y) : op == 1 ? mkSub(X, Y) : mkMul(X, Y);
                E lo = op == 0 ? mkAdd(x, y) : op == 1 ? mkSub(x, y) : mkMul(x, y);
                r = Val::ex(lo);
                E ov;
                if (!sg && op == 0) ov = mkUlt(lo, x);
                else if (!sg && op == 1) ov = mkUlt(x, y);
                else ov = mkNe(sg ? mkSExt(lo, ew) : mkZExt(lo, ew), z);
                o = Val::ex(ov);
            }
            Val v; v.g = Ref<Agg>(new Agg); v.g->v = {r, o};
            return fin(v);
        }
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
            if (!w) { bad = true; break; }
            E x = toE(a[0], w), y = toE(a[1], w);
            if (iid == Intrinsic::uadd_sat) { E z = mkAdd(x, y); return fin(Val::ex(mkIte(mkUlt(z, x), mkConst(maskw(w), w), z))); }
            return fin(Val::ex(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y))));
        }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            auto one = [&](const Val& p, const Val& q, unsigned ew) {
                E x = toE(p, ew), y = toE(q, ew);
                switch (iid) {
                    case Intrinsic::umin: return Val::ex(mkIte(mkUlt(x, y), x, y));
                    case Intrinsic::umax: return Val::ex(mkIte(mkUlt(x, y), y, x));
                    case Intrinsic::smin: return Val::ex(mkIte(mkSlt(x, y), x, y));
                    default: return Val::ex(mkIte(mkSlt(x, y), y, x));
                }
            };
            if (!w) return vec2(one);
            return fin(one(a[0], a[1], w));
        }
        case Intrinsic::scmp: case Intrinsic::ucmp: {
            unsigned ow = width(d.I->getOperand(0)->getType());
            E x = toE(a[0], ow), y = toE(a[1], ow);
            E lt = iid == Intrinsic::scmp ? mkSlt(x, y) : mkUlt(x, y);
            return fin(Val::ex(mkIte(lt, mkConst(maskw(w), w), mkIte(mkEq(x, y), mkConst(0, w), mkConst(1, w)))));
        }
        case Intrinsic::abs: {
            E x = toE(a[0], w);
            return fin(Val::ex(mkIte(mkSlt(x, mkConst(0, w)), mkSub(mkConst(0, w), x), x)));
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            if (!a[0].e) {
                uint64_t x = a[0].c; unsigned r = 0;
                if (iid == Intrinsic::ctlz) { for (int i = (int)w - 1; i >= 0 && !((x >> i) & 1); --i) ++r; }
                else { for (unsigned i = 0; i < w && !((x >> i) & 1); ++i) ++r; }
                return fin(Val(r));
            }
            E r = mkConst(w, w);
            if (iid == Intrinsic::ctlz) for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(w - 1 - i, w), r);
            else for (int i = (int)w - 1; i >= 0; --i) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, w), r);
            return fin(Val::ex(r));
        }
        case Intrinsic::ctpop: {
            if (!a[0].e) return fin(Val((uint64_t)__builtin_popcountll(a[0].c)));
            E r = mkConst(0, w);
            for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(a[0].e, i, 1), w));
            return fin(Val::ex(r));
        }
        case Intrinsic::bswap: {
            if (!a[0].e) { uint64_t r = 0; for (unsigned i = 0; i < w / 8; ++i) r |= ((a[0].c >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return fin(Val(r)); }
            E r = nullptr;
            for (unsigned i = 0; i < w / 8; ++i) { E b = mkExtract(a[0].e, i * 8, 8); r = r ? mkConcat(r, b) : b; }
            return fin(Val::ex(r));
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            Val sh = simp(s, a[2]); uint64_t k;
            if (!concretize(s, sh, w, k) || s.done) return false;
            k %= w;
            E x = toE(a[0], w), y = toE(a[1], w);
            if (!k) return fin(iid == Intrinsic::fshl ? a[0] : a[1]);
            unsigned l = iid == Intrinsic::fshl ? (unsigned)k : w - (unsigned)k;
            return fin(Val::ex(mkOr(mkShl(x, mkConst(l, w)), mkLShr(y, mkConst(w - l, w)))));
        }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ptrmask:
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy:
            return fin(a[0]);
        case Intrinsic::objectsize: return fin(Val(a[1].c ? 0 : maskw(w)));
        case Intrinsic::is_constant: return fin(Val(0));
        case Intrinsic::stacksave: return fin(Val(0));
        case Intrinsic::stackrestore: return fin(Val(0));
        case Intrinsic::trap: case Intrinsic::debugtrap: fatal(s, "undefined-behaviour", "trap reached"); return false;
        case Intrinsic::ubsantrap: {
            static const char* names[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type", "float-cast", "function-type", "implicit-conversion", "invalid-builtin", "invalid-objc", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla-bound"};
            fatal(s, "undefined-behaviour", a[0].c < sizeof(names) / sizeof(*names) ? names[a[0].c] : "sanitizer trap");
            return false;
        }
        case Intrinsic::eh_typeid_for: return fin(Val((uint64_t)(uint32_t)typeId(a[0].c)));
        case Intrinsic::vastart: {
            // x86-64 va_list: everything is placed in the overflow area
            uint64_t va;
            if (!concretize(s, a[0], 64, va) || s.done) return false;
            uint64_t area = newObj(s, std::max<size_t>(8, f.va.size() * 8), OK::Stack, 0, "variadic arguments");
            f.allocas.push_back((uint32_t)(area >> 32) - 1);
            for (size_t i = 0; i < f.va.size(); ++i) storeMem(s, Val(area + i * 8), 8, 64, f.va[i].e ? Val::ex(mkZExt(f.va[i].e, 64)) : f.va[i]);
            storeMem(s, Val(va), 4, 32, Val(48)); storeMem(s, Val(va + 4), 4, 32, Val(304));
            storeMem(s, Val(va + 8), 8, 64, Val(area)); storeMem(s, Val(va + 16), 8, 64, Val(0));
            if (s.done) return false;
            return fin(Val(0));
        }
        case Intrinsic::vaend: return fin(Val(0));
        case Intrinsic::fabs: if (a[0].e) break; return fin(Val(a[0].c & ~(1ull << (w - 1))));
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::sqrt: {
            if (a[0].e || w != 64) break;
            double x; memcpy(&x, &a[0].c, 8);
            x = iid == Intrinsic::floor ? std::floor(x) : iid == Intrinsic::ceil ? std::ceil(x) : iid == Intrinsic::round ? std::round(x) : iid == Intrinsic::trunc ? std::trunc(x) : iid == Intrinsic::sqrt ? std::sqrt(x) : std::nearbyint(x);
            uint64_t u; memcpy(&u, &x, 8);
            return fin(Val(u));
        }
        case Intrinsic::fmuladd: {
            if (a[0].e || a[1].e || a[2].e || w != 64) break;
            double x, y, z; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); memcpy(&z, &a[2].c, 8);
            x = x * y + z; uint64_t u; memcpy(&u, &x, 8);
            return fin(Val(u));
        }
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
            unsigned ew = w;
            E r = toE(a[0].g->v[0], ew);
            for (size_t i = 1; i < a[0].g->v.size(); ++i) { E x = toE(a[0].g->v[i], ew); r = iid == Intrinsic::vector_reduce_or ? mkOr(r, x) : iid == Intrinsic::vector_reduce_and ? mkAnd(r, x) : mkAdd(r, x); }
            return fin(Val::ex(r));
        }
        default: break;
    }
    (void)bad;
    incomplete(s, "unsupported intrinsic " + d.I->getOperand(d.I->getNumOperands() - 1)->getName().str());
    return false;
}

// ------------------------------------------------------------------ exceptions
int Exec::typeId(uint64_t a) {
    auto it = tid.find(a);
    if (it != tid.end()) return it->second;
    int id = (int)tid.size() + 1;
    // the id must be the same in every process: derived from the address
    id = (int)((a >> 32) & 0x3fffffff) + 1;
    tid[a] = id;
    return id;
}
static uint64_t rd(const Obj* o, uint32_t off, unsigned n) { uint64_t v = 0; if (o && off + n <= o->size) o->readRaw(off, (uint8_t*)&v, n); return v; }
bool Exec::tiWalk(State& s, uint64_t t, uint64_t target, int64_t off, int64_t& adj) {
    if (t == target) { adj = off; return true; }
    if (t < (1ull << 32)) return false;
    const Obj* o = s.mem.get((uint32_t)(t >> 32) - 1);
    if (!o) return false;
    uint64_t vt = rd(o, (uint32_t)t, 8);
    const Obj* vo = vt >= (1ull << 32) ? s.mem.get((uint32_t)(vt >> 32) - 1) : nullptr;
    if (!vo) return false;
    std::string n = vo->name;
    if (n.find("__si_class_type_info") != std::string::npos) return tiWalk(s, rd(o, (uint32_t)t + 16, 8), target, off, adj);
    if (n.find("__vmi_class_type_info") != std::string::npos) {
        uint32_t cnt = (uint32_t)rd(o, (uint32_t)t + 20, 4);
        for (uint32_t i = 0; i < cnt; ++i) {
            uint64_t b = rd(o, (uint32_t)t + 24 + i * 16, 8); int64_t fl = (int64_t)rd(o, (uint32_t)t + 32 + i * 16, 8);
            if (fl & 1) continue;
            if (tiWalk(s, b, target, off + (fl >> 8), adj)) return true;
        }
    }
    return false;
}
bool Exec::tiMatch(State& s, uint64_t thrown, uint64_t handler, int64_t& adj) {
    adj = 0;
    if (!handler) return true;
    return tiWalk(s, thrown, handler, 0, adj);
}
bool Exec::landingMatches(State& s, Frame& f, DInst& inv, uint64_t tinfo, int32_t& sel, int64_t& adj, bool& cleanup) {
    DBlock& b = f.f->bb[inv.targets[1]];
    cleanup = false;
    if (b.lpad < 0) return false;
    DInst& lp = b.in[b.lpad];
    for (size_t i = 0; i < lp.ops.size(); ++i) {
        if (!lp.idx[i]) { sel = -1; adj = 0; return true; }   // dynamic exception specification: always a filter hit
        if (tiMatch(s, tinfo, lp.ops[i].cv.c, adj)) { sel = typeId(lp.ops[i].cv.c); return true; }
    }
    cleanup = lp.flag;
    return false;
}
void Exec::unwind(State& s, uint64_t exc, bool popTop) {
    ExcRec* rec = nullptr;
    for (auto& r : s.exc) if (r.obj == exc) rec = &r;
    if (!rec) { fatal(s, "internal", "unwinding an unknown exception"); return; }
    // phase 1: is there a handler at all?
    bool found = false;
    int top = (int)s.st.size() - 1 - (popTop ? 1 : 0);
    for (int i = top; i >= 0 && !found; --i) {
        Frame& f = s.st[i];
        DInst& d = f.f->bb[f.bb].in[f.ip];
        if (d.opc != Instruction::Invoke) continue;
        int32_t sel; int64_t adj; bool cl;
        if (landingMatches(s, f, d, rec->tinfo, sel, adj, cl)) found = true;
    }
    if (!found) {
        std::string n;
        if (auto* o = rec->tinfo ? s.mem.get((uint32_t)(rec->tinfo >> 32) - 1) : nullptr) n = llvm::demangle(o->name);
        fatal(s, "uncaught-exception", "exception leaves the code under test: " + n);
        return;
    }
    if (popTop) popFrame(s);
    while (true) {
        Frame& f = s.st.back();
        DInst& d = f.f->bb[f.bb].in[f.ip];
        if (d.opc == Instruction::Invoke) {
            int32_t sel = 0; int64_t adj = 0; bool cl = false;
            bool m = landingMatches(s, f, d, rec->tinfo, sel, adj, cl);
            if (m || cl) {
                s.curExc = exc; s.curSel = m ? sel : 0;
                if (m) rec->adj = adj;
                jump(s, d.targets[1]);
                return;
            }
        }
        popFrame(s);
    }
}
void Exec::b_cxa_alloc(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t n; if (!concretize(s, a[0], 64, n) || s.done) return;
    finishCall(s, d, Val(newObj(s, n, OK::Exc, 0xBE, "exception object")));
}
void Exec::b_cxa_freeexc(State& s, DInst& d, std::vector<Val>& a) {
    s.mem.free((uint32_t)(a[0].c >> 32) - 1);
    finishCall(s, d, Val(0));
}
void Exec::b_cxa_throw(State& s, DInst&, std::vector<Val>& a) {
    ExcRec r; r.obj = a[0].c; r.tinfo = a[1].c; r.dtor = a[2].c;
    s.exc.push_back(r);
    ++s.uncaught;
    unwind(s, r.obj, false);
}
void Exec::b_cxa_begin(State& s, DInst& d, std::vector<Val>& a) {
    for (auto& r : s.exc) if (r.obj == a[0].c) {
        ++r.handlers; r.rethrown = false;
        if (s.uncaught > 0) --s.uncaught;
        s.caught.push_back(r.obj);
        finishCall(s, d, Val(r.obj + (uint64_t)r.adj));
        return;
    }
    finishCall(s, d, a[0]);
}
void Exec::b_cxa_end(State& s, DInst& d, std::vector<Val>&) {
    if (s.caught.empty()) { finishCall(s, d, Val(0)); return; }
    uint64_t obj = s.caught.back();
    s.caught.pop_back();
    for (size_t i = 0; i < s.exc.size(); ++i) if (s.exc[i].obj == obj) {
        auto& r = s.exc[i];
        if (--r.handlers > 0 || r.rethrown) { finishCall(s, d, Val(0)); return; }
        uint64_t dt = r.dtor;
        s.exc.erase(s.exc.begin() + (long)i);
        if (dt) {
            auto it = fobj.find((uint32_t)(dt >> 32) - 1);
            if (it != fobj.end()) {
                DFunc* f = it->second;
                if (!f->decoded) decode(f);
                if (!f->bb.empty()) { callFn(s, f, {Val(obj)}, true, 1, obj); return; }
            }
        }
        s.mem.free((uint32_t)(obj >> 32) - 1);
        finishCall(s, d, Val(0));
        return;
    }
    finishCall(s, d, Val(0));
}
void Exec::b_cxa_rethrow(State& s, DInst&, std::vector<Val>&) {
    if (s.caught.empty()) { fatal(s, "terminate", "rethrow without an exception"); return; }
    uint64_t obj = s.caught.back();
    for (auto& r : s.exc) if (r.obj == obj) r.rethrown = true;
    ++s.uncaught;
    unwind(s, obj, false);
}
void Exec::b_cxa_getptr(State& s, DInst& d, std::vector<Val>& a) {
    int64_t adj = 0;
    for (auto& r : s.exc) if (r.obj == a[0].c) adj = r.adj;
    finishCall(s, d, Val(a[0].c + (uint64_t)adj));
}
void Exec::b_uncaught(State& s, DInst& d, std::vector<Val>&) { finishCall(s, d, Val((uint64_t)s.uncaught)); }
void Exec::b_terminate(State& s, DInst&, std::vector<Val>&) { fatal(s, "terminate", "std::terminate called (exception in a noexcept context)"); }
void Exec::b_purevirt(State& s, DInst&, std::vector<Val>&) { fatal(s, "undefined-behaviour", "pure virtual call"); }
void Exec::b_dyncast(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p; if (!concretize(s, a[0], 64, p) || s.done) return;
    Val vp; if (!loadMem(s, Val(p), 8, 64, vp) || s.done) return;
    Val ott, ti;
    if (!loadMem(s, Val(vp.c - 16), 8, 64, ott) || !loadMem(s, Val(vp.c - 8), 8, 64, ti) || s.done) return;
    int64_t adj;
    uint64_t full = p + ott.c;
    if (tiWalk(s, ti.c, a[2].c, 0, adj)) finishCall(s, d, Val(full + (uint64_t)adj)); else finishCall(s, d, Val(0));
}

// ------------------------------------------------------------------ heap
static constexpr uint64_t MAXALLOC = 256ull << 20;
void Exec::b_mallocf(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t n; if (!concretize(s, simp(s, a[0]), 64, n) || s.done) return;
    if (n > MAXALLOC) { fatal(s, "resource", "allocation of " + std::to_string(n) + " bytes"); return; }
    finishCall(s, d, Val(newObj(s, n, OK::Malloc, 0xBE, "malloc'd block")));
}
void Exec::b_newf(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t n; if (!concretize(s, simp(s, a[0]), 64, n) || s.done) return;
    if (n > MAXALLOC) { fatal(s, "resource", "allocation of " + std::to_string(n) + " bytes"); return; }
    finishCall(s, d, Val(newObj(s, n, OK::New, 0xBE, "heap object")));
}
void Exec::b_newarr(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t n; if (!concretize(s, simp(s, a[0]), 64, n) || s.done) return;
    if (n > MAXALLOC) { fatal(s, "resource", "allocation of " + std::to_string(n) + " bytes"); return; }
    finishCall(s, d, Val(newObj(s, n, OK::NewArr, 0xBE, "heap array")));
}
void Exec::b_calloc(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t n, m; if (!concretize(s, simp(s, a[0]), 64, n) || s.done || !concretize(s, simp(s, a[1]), 64, m) || s.done) return;
    if (n * m > MAXALLOC) { fatal(s, "resource", "allocation of " + std::to_string(n * m) + " bytes"); return; }
    finishCall(s, d, Val(newObj(s, n * m, OK::Malloc, 0, "calloc'd block")));
}
bool Exec::doFree(State& s, uint64_t a, OK kind) {
    if (!a) return true;
    uint32_t id = (uint32_t)(a >> 32) - 1;
    const Obj* o = a >= (1ull << 32) ? s.mem.get(id) : nullptr;
    if (!o) { fatal(s, "memory-error", "free of an invalid or already freed pointer"); return false; }
    if ((uint32_t)a) { fatal(s, "memory-error", "free of a pointer into the middle of an object"); return false; }
    if (o->kind != kind) { fatal(s, "memory-error", std::string("mismatched or invalid deallocation of ") + o->name); return false; }
    s.mem.free(id);
    return true;
}
void Exec::b_freef(State& s, DInst& d, std::vector<Val>& a) { uint64_t p; if (!concretize(s, simp(s, a[0]), 64, p) || s.done) return; if (doFree(s, p, OK::Malloc)) finishCall(s, d, Val(0)); }
void Exec::b_delf(State& s, DInst& d, std::vector<Val>& a) { uint64_t p; if (!concretize(s, simp(s, a[0]), 64, p) || s.done) return; if (doFree(s, p, OK::New)) finishCall(s, d, Val(0)); }
void Exec::b_delarr(State& s, DInst& d, std::vector<Val>& a) { uint64_t p; if (!concretize(s, simp(s, a[0]), 64, p) || s.done) return; if (doFree(s, p, OK::NewArr)) finishCall(s, d, Val(0)); }
void Exec::b_realloc(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p, n; if (!concretize(s, simp(s, a[0]), 64, p) || s.done || !concretize(s, simp(s, a[1]), 64, n) || s.done) return;
    uint64_t q = newObj(s, n, OK::Malloc, 0xBE, "realloc'd block");
    if (p) {
        const Obj* o = s.mem.get((uint32_t)(p >> 32) - 1);
        if (!o) { fatal(s, "memory-error", "realloc of an invalid pointer"); return; }
        memcpyBytes(s, q, p, std::min<uint64_t>(n, o->size));
        if (s.done || !doFree(s, p, OK::Malloc)) return;
    }
    finishCall(s, d, Val(q));
}

// ------------------------------------------------------------------ string.h
void Exec::b_memcpyf(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t dst, src, n;
    if (!concretize(s, simp(s, a[2]), 64, n) || s.done || !concretize(s, simp(s, a[0]), 64, dst) || s.done || !concretize(s, simp(s, a[1]), 64, src) || s.done) return;
    memcpyBytes(s, dst, src, n);
    if (!s.done) finishCall(s, d, Val(dst));
}
void Exec::b_memmove(State& s, DInst& d, std::vector<Val>& a) { b_memcpyf(s, d, a); }
void Exec::b_memset(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t dst, n;
    if (!concretize(s, simp(s, a[2]), 64, n) || s.done || !concretize(s, simp(s, a[0]), 64, dst) || s.done) return;
    std::string why;
    if (n) {
        if (!objAt(s, dst, n, why, true)) { fatal(s, "memory-error", "write: " + why); return; }
        E b = mkExtract(toE(a[1], 32), 0, 8);
        Obj* o = s.mem.wget((uint32_t)(dst >> 32) - 1);
        if (b->isConst()) o->setRaw((uint32_t)dst, (uint8_t)b->cval, (uint32_t)n);
        else for (uint64_t i = 0; i < n; ++i) o->setByte((uint32_t)(dst + i), 0, b);
    }
    finishCall(s, d, Val(dst));
}
void Exec::b_memcmp(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p, q, n;
    if (!concretize(s, simp(s, a[2]), 64, n) || s.done || !concretize(s, simp(s, a[0]), 64, p) || s.done || !concretize(s, simp(s, a[1]), 64, q) || s.done) return;
    if (n) {
        std::string why;
        if (!objAt(s, p, n, why, false) || !objAt(s, q, n, why, false)) { fatal(s, "memory-error", "read: " + why); return; }
    }
    std::vector<std::pair<Val, Val>> b;
    for (uint64_t i = 0; i < n; ++i) {
        Val x, y; getByte(s, p + i, x); getByte(s, q + i, y);
        if (!x.e && !y.e) { if (x.c == y.c) continue; b.push_back({x, y}); break; }
        if (x.e == y.e && x.e) continue;
        b.push_back({x, y});
    }
    E r = mkConst(0, 32);
    for (size_t i = b.size(); i-- > 0;) {
        E x = toE(b[i].first, 8), y = toE(b[i].second, 8);
        r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    finishCall(s, d, simp(s, Val::ex(r)));
}
void Exec::b_bcmp(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p, q, n;
    if (!concretize(s, simp(s, a[2]), 64, n) || s.done || !concretize(s, simp(s, a[0]), 64, p) || s.done || !concretize(s, simp(s, a[1]), 64, q) || s.done) return;
    if (n) {
        std::string why;
        if (!objAt(s, p, n, why, false) || !objAt(s, q, n, why, false)) { fatal(s, "memory-error", "read: " + why); return; }
    }
    E eq = mkTrue();
    for (uint64_t i = 0; i < n; ++i) {
        Val x, y; getByte(s, p + i, x); getByte(s, q + i, y);
        if (!x.e && !y.e) { if (x.c != y.c) { eq = mkFalse(); break; } continue; }
        eq = mkAnd(eq, mkEq(toE(x, 8), toE(y, 8)));
        if (isFalse(eq)) break;
    }
    finishCall(s, d, simp(s, Val::ex(mkIte(eq, mkConst(0, 32), mkConst(1, 32)))));
}
void Exec::b_memchr(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p, n;
    if (!concretize(s, simp(s, a[2]), 64, n) || s.done || !concretize(s, simp(s, a[0]), 64, p) || s.done) return;
    E c = mkExtract(toE(simp(s, a[1]), 32), 0, 8);
    for (uint64_t i = 0; i < n; ++i) {
        Val x; if (!getByte(s, p + i, x)) return;
        E eq = mkEq(toE(x, 8), c);
        if (branch(s, eq)) { finishCall(s, d, Val(p + i)); return; }
        if (s.done) return;
    }
    finishCall(s, d, Val(0));
}
void Exec::b_strlen(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p; if (!concretize(s, simp(s, a[0]), 64, p) || s.done) return;
    for (uint64_t i = 0;; ++i) {
        Val x; if (!getByte(s, p + i, x)) return;
        if (branch(s, mkEq(toE(x, 8), mkConst(0, 8)))) { finishCall(s, d, Val(i)); return; }
        if (s.done) return;
    }
}

// ------------------------------------------------------------------ process
void Exec::b_abort(State& s, DInst&, std::vector<Val>&) { fatal(s, "abort", "abort called"); }
void Exec::b_exitf(State& s, DInst&, std::vector<Val>&) { fatal(s, "exit", "process exit requested"); }
// a C string argument, whose address may depend on symbolic values
bool Exec::cstrArg(State& s, const Val& v, std::string& out) {
    uint64_t p; if (!concretize(s, simp(s, v), 64, p) || s.done) return false;
    return readCStr(s, p, out);
}
void Exec::b_assertfail(State& s, DInst&, std::vector<Val>& a) { std::string m; cstrArg(s, a[0], m); if (s.done) return; fatal(s, "assertion-in-code", m); }
void Exec::b_gassert(State& s, DInst&, std::vector<Val>& a) { std::string m; if (a.size() > 3 && a[3].c) readCStr(s, a[3].c, m); fatal(s, "library-precondition", "libstdc++ precondition violated: " + m); }
void Exec::b_guardacq(State& s, DInst& d, std::vector<Val>& a) { Val v; if (!loadMem(s, a[0], 1, 8, v) || s.done) return; finishCall(s, d, Val(v.c ? 0 : 1)); }
void Exec::b_guardrel(State& s, DInst& d, std::vector<Val>& a) { if (!storeMem(s, a[0], 1, 8, Val(1)) || s.done) return; finishCall(s, d, Val(0)); }
void Exec::b_zero(State& s, DInst& d, std::vector<Val>&) { finishCall(s, d, Val(0)); }
void Exec::b_errno_(State& s, DInst& d, std::vector<Val>&) { finishCall(s, d, Val(errnoAddr)); }
void Exec::b_getenv(State& s, DInst& d, std::vector<Val>&) { finishCall(s, d, Val(0)); }
void Exec::b_putsf(State& s, DInst& d, std::vector<Val>&) { finishCall(s, d, Val(0)); }

// ------------------------------------------------------------------ harness primitives
static E condE(const Val& v, unsigned w) { return mkNe(v.e ? v.e : mkConst(v.c, w), mkConst(0, w)); }
void Exec::b_make(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p, n;
    if (!concretize(s, simp(s, a[1]), 64, n) || s.done || !concretize(s, simp(s, a[0]), 64, p) || s.done) return;
    std::string name; if (!cstrArg(s, a[2], name)) return;
    int k = s.nameCount[name]++;
    if (k) name += "#" + std::to_string(k);
    InputRec r; r.name = name;
    if (n) {
        std::string why;
        if (!objAt(s, p, n, why, true)) { fatal(s, "harness", "sym_make: " + why); return; }
        Obj* o = s.mem.wget((uint32_t)(p >> 32) - 1);
        for (uint64_t i = 0; i < n; ++i) {
            E v = mkVar(name + "[" + std::to_string(i) + "]");
            r.vars.push_back(v->aux);
            o->setByte((uint32_t)(p + i), 0, v);
        }
    }
    s.inputs.push_back(r);
    finishCall(s, d, Val(0));
}
void Exec::b_choose(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t n; if (!concretize(s, simp(s, a[0]), 64, n) || s.done) return;
    std::string name; if (!cstrArg(s, a[1], name)) return;
    if (n == 0 || n > 65536) { fatal(s, "harness", "sym_choose range"); return; }
    int k = s.nameCount[name]++;
    if (k) name += "#" + std::to_string(k);
    InputRec r; r.name = name;
    E v = mkVar(name + "[0]");
    r.vars.push_back(v->aux);
    E full = v;
    if (n > 256) { E v2 = mkVar(name + "[1]"); r.vars.push_back(v2->aux); full = mkConcat(v2, v); }
    s.inputs.push_back(r);
    for (uint64_t i = n; i-- > 1;) {
        State* o = clone(s);
        o->cs.model.set(r.vars[0], (uint8_t)i);
        if (n > 256) o->cs.model.set(r.vars[1], (uint8_t)(i >> 8));
        o->cs.add(mkEq(full, mkConst(i, full->width)));
        finishCall(*o, d, Val(i));
        push(o);
        ++totalForks; ++cst[s.caseId].forks; ++s.forks;
    }
    s.cs.model.set(r.vars[0], 0);
    if (n > 256) s.cs.model.set(r.vars[1], 0);
    s.cs.add(mkEq(full, mkConst(0, full->width)));
    finishCall(s, d, Val(0));
}
void Exec::b_assume(State& s, DInst& d, std::vector<Val>& a) {
    if (assume(s, condE(a[0], 32)) && !s.done) finishCall(s, d, Val(0));
}
void Exec::b_assert_(State& s, DInst& d, std::vector<Val>& a) {
    std::string m; if (!cstrArg(s, a[1], m)) return;
    auto& c = cst[s.caseId];
    ++c.asserts; ++c.assertMsgs[m];
    E q = condE(a[0], 32);
    if (isTrue(q)) { ++c.assertTrivial; finishCall(s, d, Val(0)); return; }
    if (isFalse(q)) { fatal(s, "assertion", m); return; }
    ++c.assertQueries;
    Assignment mo;
    Sat r = checkSat(s.cs, mkNot(q), mo, true);
    if (r == Sat::Yes) {
        error(s, "assertion", m, mo);
        if (!assume(s, q) || s.done) { s.done = true; return; }
    } else if (r == Sat::Unknown) { ++c.incomplete; ++c.incompleteWhy["solver unknown on assertion: " + m]; }
    finishCall(s, d, Val(0));
}
void Exec::b_symq(State& s, DInst& d, std::vector<Val>& a) {   // is the value symbolic?
    finishCall(s, d, Val(simp(s, a[0]).e ? 1 : 0));
}
void Exec::b_observe(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p, n;
    if (!concretize(s, simp(s, a[2]), 64, n) || s.done || !concretize(s, simp(s, a[1]), 64, p) || s.done) return;
    ObsRec r; if (!cstrArg(s, a[0], r.tag)) return;
    for (uint64_t i = 0; i < n; ++i) { Val v; if (!getByte(s, p + i, v)) return; r.bytes.push_back(v); }
    s.obs.push_back(r);
    finishCall(s, d, Val(0));
}
void Exec::b_reach(State& s, DInst& d, std::vector<Val>& a) {
    std::string m; if (!cstrArg(s, a[0], m)) return;
    ++cst[s.caseId].reach[m];
    finishCall(s, d, Val(0));
}
void Exec::b_param(State& s, DInst& d, std::vector<Val>& a) {
    auto& p = cases[s.caseId].params;
    finishCall(s, d, Val(a[0].c < p.size() ? (uint64_t)p[a[0].c] : 0));
}
void Exec::b_concretize(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t v; if (!concretize(s, simp(s, a[0]), 64, v) || s.done) return;
    finishCall(s, d, Val(v));
}
void Exec::b_steplimit(State& s, DInst& d, std::vector<Val>& a) { s.stepLimit = a[0].c ? s.steps + a[0].c : 0; finishCall(s, d, Val(0)); }
void Exec::b_heaplive(State& s, DInst& d, std::vector<Val>&) { finishCall(s, d, Val(s.mem.heapLive)); }
void Exec::b_heapcount(State& s, DInst& d, std::vector<Val>&) { finishCall(s, d, Val(s.mem.heapCount)); }
void Exec::b_isengine(State& s, DInst& d, std::vector<Val>&) { finishCall(s, d, Val(1)); }
void Exec::b_end(State& s, DInst&, std::vector<Val>&) { s.st.clear(); s.done = true; }
void Exec::b_note(State& s, DInst& d, std::vector<Val>& a) {
    if (opt.verbose) {
        std::string m; if (!cstrArg(s, a[0], m)) return;
        Val v = simp(s, a[1]);
        fprintf(stderr, "NOTE [%s] %s %s\n", s.caseId < (int)cases.size() ? cases[s.caseId].name.c_str() : "-", m.c_str(), v.e ? toString(v.e, 8).c_str() : std::to_string(v.c).c_str());
    }
    finishCall(s, d, Val(0));
}
void Exec::b_fail(State& s, DInst&, std::vector<Val>& a) {
    std::string m; if (!cstrArg(s, a[0], m)) return;
    fatal(s, "assertion", m);
}
void Exec::b_objsize(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p; if (!concretize(s, simp(s, a[0]), 64, p) || s.done) return;
    const Obj* o = p >= (1ull << 32) ? s.mem.get((uint32_t)(p >> 32) - 1) : nullptr;
    finishCall(s, d, Val(o && (uint32_t)p <= o->size ? o->size - (uint32_t)p : 0));
}
void Exec::b_objmem(State& s, DInst& d, std::vector<Val>& a) { b_objsize(s, d, a); }
void Exec::b_ptrkind(State& s, DInst& d, std::vector<Val>& a) {
    uint64_t p; if (!concretize(s, simp(s, a[0]), 64, p) || s.done) return;
    const Obj* o = p >= (1ull << 32) ? s.mem.get((uint32_t)(p >> 32) - 1) : nullptr;
    finishCall(s, d, Val(o ? (uint64_t)o->kind + 1 : 0));
}
void Exec::b_allocalimit(State& s, DInst& d, std::vector<Val>& a) { s.allocLimitBase = a[0].c; finishCall(s, d, Val(0)); }

void Exec::registerBuiltins() {
    auto R = [&](std::initializer_list<const char*> n, Builtin b) { for (auto x : n) btab[x] = b; };
    R({"sym_make"}, &Exec::b_make); R({"sym_choose"}, &Exec::b_choose); R({"sym_assume"}, &Exec::b_assume); R({"sym_assert"}, &Exec::b_assert_);
    R({"sym_observe"}, &Exec::b_observe); R({"sym_reach"}, &Exec::b_reach); R({"sym_param"}, &Exec::b_param); R({"sym_concretize"}, &Exec::b_concretize);
    R({"sym_step_limit"}, &Exec::b_steplimit); R({"sym_heap_live"}, &Exec::b_heaplive); R({"sym_heap_count"}, &Exec::b_heapcount); R({"sym_is_engine"}, &Exec::b_isengine);
    R({"sym_end"}, &Exec::b_end); R({"sym_note"}, &Exec::b_note); R({"sym_fail"}, &Exec::b_fail); R({"sym_objsize"}, &Exec::b_objsize); R({"sym_is_symbolic"}, &Exec::b_symq);
    R({"sym_ptr_kind"}, &Exec::b_ptrkind);
    R({"malloc"}, &Exec::b_mallocf); R({"calloc"}, &Exec::b_calloc); R({"realloc"}, &Exec::b_realloc); R({"free"}, &Exec::b_freef);
    R({"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}, &Exec::b_newf); R({"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}, &Exec::b_newarr);
    R({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, &Exec::b_delf); R({"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}, &Exec::b_delarr);
    R({"memcpy"}, &Exec::b_memcpyf); R({"memmove"}, &Exec::b_memmove); R({"memset"}, &Exec::b_memset); R({"memcmp"}, &Exec::b_memcmp); R({"bcmp"}, &Exec::b_bcmp); R({"memchr"}, &Exec::b_memchr); R({"strlen"}, &Exec::b_strlen);
    R({"abort"}, &Exec::b_abort); R({"exit", "_exit", "_Exit", "quick_exit"}, &Exec::b_exitf); R({"__assert_fail"}, &Exec::b_assertfail); R({"_ZSt21__glibcxx_assert_failPKciS0_S0_"}, &Exec::b_gassert);
    R({"__cxa_allocate_exception"}, &Exec::b_cxa_alloc); R({"__cxa_free_exception"}, &Exec::b_cxa_freeexc); R({"__cxa_throw"}, &Exec::b_cxa_throw); R({"__cxa_begin_catch"}, &Exec::b_cxa_begin); R({"__cxa_end_catch"}, &Exec::b_cxa_end);
    R({"__cxa_rethrow"}, &Exec::b_cxa_rethrow); R({"__cxa_get_exception_ptr"}, &Exec::b_cxa_getptr); R({"__cxa_guard_acquire"}, &Exec::b_guardacq); R({"__cxa_guard_release"}, &Exec::b_guardrel);
    R({"__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit", "atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_once", "sched_yield", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_init", "pthread_rwlock_destroy", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}, &Exec::b_zero);
    R({"__errno_location"}, &Exec::b_errno_); R({"_ZSt9terminatev", "__cxa_call_unexpected", "__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_call_terminate"}, &Exec::b_terminate); R({"__cxa_pure_virtual", "__cxa_deleted_virtual"}, &Exec::b_purevirt);
    R({"_ZSt19uncaught_exceptionsv", "_ZSt18uncaught_exceptionv"}, &Exec::b_uncaught); R({"__dynamic_cast"}, &Exec::b_dyncast);
    R({"getenv", "secure_getenv"}, &Exec::b_getenv); R({"puts", "printf", "fputs", "fputc", "putchar", "fflush", "fwrite"}, &Exec::b_putsf);
}
}  // namespace sym
