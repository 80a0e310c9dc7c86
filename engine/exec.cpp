// ionsym: instruction execution, forking, scheduling.
#include "exec.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Operator.h>
#include <cmath>
#include <chrono>
#include <atomic>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <signal.h>
using namespace llvm;

namespace sym {

struct Shared { std::atomic<int> active, nextProc, stop, maxWorkers; };
static Shared* SH(void* p) { return (Shared*)p; }
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ values
static float asF(uint64_t v) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; }
static double asD(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static uint64_t fromF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t fromD(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }

Val Exec::binop(State& s, unsigned op, unsigned w, const Val& a, const Val& b, bool& bad) {
    bad = false;
    if (w == 0) { bad = true; return Val(0); }
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c, m = maskw(w);
        switch (op) {
            case Instruction::Add: return Val((x + y) & m);
            case Instruction::Sub: return Val((x - y) & m);
            case Instruction::Mul: return Val((x * y) & m);
            case Instruction::UDiv: if (!y) break; return Val(x / y);
            case Instruction::URem: if (!y) break; return Val(x % y);
            case Instruction::SDiv: { int64_t p = sextw(x, w), q = sextw(y, w); if (!q) break; return Val((q == -1 ? 0 - (uint64_t)p : (uint64_t)(p / q)) & m); }
            case Instruction::SRem: { int64_t p = sextw(x, w), q = sextw(y, w); if (!q) break; return Val((q == -1 ? 0 : (uint64_t)(p % q)) & m); }
            case Instruction::And: return Val(x & y);
            case Instruction::Or: return Val(x | y);
            case Instruction::Xor: return Val(x ^ y);
            case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
            case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
            case Instruction::AShr: return Val((uint64_t)(sextw(x, w) >> (y >= w ? w - 1 : y)) & m);
        }
        fatal(s, "undefined-behaviour", "division by zero");
        bad = true;
        return Val(0);
    }
    E x = toE(a, w), y = toE(b, w);
    switch (op) {
        case Instruction::Add: return Val::ex(mkAdd(x, y));
        case Instruction::Sub: return Val::ex(mkSub(x, y));
        case Instruction::Mul: return Val::ex(mkMul(x, y));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            if (!y->isConst() || y->cval == 0) {
                check(s, mkNe(y, mkConst(0, w)), "undefined-behaviour", "division by zero");
                if (s.done) { bad = true; return Val(0); }
            }
            return Val::ex(op == Instruction::UDiv ? mkUDiv(x, y) : op == Instruction::URem ? mkURem(x, y) : op == Instruction::SDiv ? mkSDiv(x, y) : mkSRem(x, y));
        }
        case Instruction::And: return Val::ex(mkAnd(x, y));
        case Instruction::Or: return Val::ex(mkOr(x, y));
        case Instruction::Xor: return Val::ex(mkXor(x, y));
        case Instruction::Shl: return Val::ex(mkShl(x, y));
        case Instruction::LShr: return Val::ex(mkLShr(x, y));
        case Instruction::AShr: return Val::ex(mkAShr(x, y));
    }
    bad = true;
    return Val(0);
}

Val Exec::fbinop(State& s, unsigned op, unsigned w, const Val& a, const Val& b, bool& bad) {
    bad = false;
    if (a.e || b.e || (w != 32 && w != 64)) { bad = true; incomplete(s, "symbolic or extended floating point"); return Val(0); }
    auto f = [&](auto x, auto y) {
        switch (op) {
            case Instruction::FAdd: return x + y;
            case Instruction::FSub: return x - y;
            case Instruction::FMul: return x * y;
            case Instruction::FDiv: return x / y;
            default: return (decltype(x))std::fmod(x, y);
        }
    };
    if (w == 32) return Val(fromF(f(asF(a.c), asF(b.c))));
    return Val(fromD(f(asD(a.c), asD(b.c))));
}

Val Exec::icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c; int64_t sx = sextw(x, w), sy = sextw(y, w);
        bool r = false;
        switch (p) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break;
            case CmpInst::ICMP_SGE: r = sx >= sy; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break;
            case CmpInst::ICMP_SLE: r = sx <= sy; break;
        }
        return Val(r);
    }
    E x = toE(a, w), y = toE(b, w);
    switch (p) {
        case CmpInst::ICMP_EQ: return Val::ex(mkEq(x, y));
        case CmpInst::ICMP_NE: return Val::ex(mkNe(x, y));
        case CmpInst::ICMP_UGT: return Val::ex(mkUlt(y, x));
        case CmpInst::ICMP_UGE: return Val::ex(mkUle(y, x));
        case CmpInst::ICMP_ULT: return Val::ex(mkUlt(x, y));
        case CmpInst::ICMP_ULE: return Val::ex(mkUle(x, y));
        case CmpInst::ICMP_SGT: return Val::ex(mkSlt(y, x));
        case CmpInst::ICMP_SGE: return Val::ex(mkSle(y, x));
        case CmpInst::ICMP_SLT: return Val::ex(mkSlt(x, y));
        default: return Val::ex(mkSle(x, y));
    }
}

Val Exec::castOp(State& s, unsigned op, unsigned sw, unsigned dw, const Val& a, bool& bad) {
    bad = false;
    switch (op) {
        case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt:
            if (sw == dw) return a;
            if (dw < sw) { if (!a.e) return Val(a.c & maskw(dw)); return Val::ex(mkExtract(a.e, 0, dw)); }
            if (!a.e && dw <= 64) return a;
            return Val::ex(mkZExt(toE(a, sw), dw));
        case Instruction::SExt:
            if (!a.e && dw <= 64) return Val((uint64_t)sextw(a.c, sw) & maskw(dw));
            return Val::ex(mkSExt(toE(a, sw), dw));
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
        default: break;
    }
    if (a.e) { bad = true; incomplete(s, "symbolic value converted to floating point"); return Val(0); }
    switch (op) {
        case Instruction::FPTrunc: if (sw == 64 && dw == 32) return Val(fromF((float)asD(a.c))); break;
        case Instruction::FPExt: if (sw == 32 && dw == 64) return Val(fromD(asF(a.c))); break;
        case Instruction::UIToFP: return dw == 32 ? Val(fromF((float)a.c)) : Val(fromD((double)a.c));
        case Instruction::SIToFP: return dw == 32 ? Val(fromF((float)sextw(a.c, sw))) : Val(fromD((double)sextw(a.c, sw)));
        case Instruction::FPToUI: return Val((uint64_t)(sw == 32 ? asF(a.c) : asD(a.c)) & maskw(dw));
        case Instruction::FPToSI: return Val((uint64_t)(int64_t)(sw == 32 ? asF(a.c) : asD(a.c)) & maskw(dw));
    }
    bad = true;
    incomplete(s, "unsupported cast");
    return Val(0);
}

// ------------------------------------------------------------------ path management
State* Exec::clone(State& s) {
    State* n = new State(s);
    n->id = nextState++;
    ++statesCreated;
    return n;
}
void Exec::push(State* s) { work[s->caseId].push_back(s); }

void Exec::endPath(State& s, const char*) {
    s.done = true;
}
void Exec::incomplete(State& s, const std::string& why) {
    if (s.done) return;
    s.done = true;
    if (initPhase) { fprintf(stderr, "ionsym: init incomplete: %s at %s\n", why.c_str(), where(s, nullptr).c_str()); return; }
    auto& c = cst[s.caseId];
    ++c.incomplete;
    std::string w = why;
    if (opt.verbose || c.incompleteWhy.size() < 8) w += " @ " + where(s, nullptr);
    if (c.incompleteWhy.size() < 24 || c.incompleteWhy.count(w)) ++c.incompleteWhy[w];
    else ++c.incompleteWhy["other"];
}
std::string Exec::where(State& s, std::string* stack) {
    std::string first;
    for (int i = (int)s.st.size() - 1; i >= 0; --i) {
        Frame& f = s.st[i];
        if (f.ip >= f.f->bb[f.bb].in.size()) continue;
        const Instruction* I = f.f->bb[f.bb].in[f.ip].I;
        std::string loc = llvm::demangle(f.f->name);
        if (loc.size() > 110) loc = loc.substr(0, 110) + "...";
        if (auto& dl = I->getDebugLoc()) {
            auto* sc = dl->getScope();
            loc += " (" + (sc ? sc->getFilename().str() : std::string("?")) + ":" + std::to_string(dl.getLine());
            if (auto* ia = dl.getInlinedAt()) {
                const DILocation* top = ia;
                while (top->getInlinedAt()) top = top->getInlinedAt();
                loc += " inlined at " + top->getFilename().str() + ":" + std::to_string(top->getLine());
            }
            loc += ")";
        }
        if (first.empty()) first = loc;
        if (stack) *stack += loc + "\n"; else break;
    }
    return first;
}
std::vector<std::pair<std::string, std::vector<uint8_t>>> Exec::inputsOf(State& s, const Assignment& m) {
    std::vector<std::pair<std::string, std::vector<uint8_t>>> r;
    for (auto& i : s.inputs) {
        std::vector<uint8_t> b;
        for (auto v : i.vars) b.push_back(m.get(v));
        r.push_back({i.name, b});
    }
    return r;
}
void Exec::error(State& s, const std::string& kind, const std::string& msg, const Assignment& m) {
    if (initPhase) { fprintf(stderr, "ionsym: error during initialisation: %s %s\n", kind.c_str(), msg.c_str()); std::string st; where(s, &st); fprintf(stderr, "%s", st.c_str()); return; }
    ++cst[s.caseId].errors;
    Violation v;
    v.kind = kind; v.msg = msg; v.caseId = s.caseId;
    v.where = where(s, &v.stack);
    std::string key = std::to_string(s.caseId) + kind + msg + v.where;
    if (violSeen[key]++ >= 2 || (int)viols.size() >= opt.maxViolations * 4) return;
    v.inputs = inputsOf(s, m);
    viols.push_back(v);
    if (opt.verbose) fprintf(stderr, "VIOL [%s] %s: %s at %s\n", cases[s.caseId].name.c_str(), kind.c_str(), msg.c_str(), v.where.c_str());
    if ((int)viols.size() >= opt.maxViolations) SH(shared)->stop = 1;
}
void Exec::fatal(State& s, const std::string& kind, const std::string& msg) {
    if (s.done) return;
    error(s, kind, msg, s.cs.model);
    s.done = true;
}
bool Exec::assume(State& s, E c) {
    if (isTrue(c)) return true;
    if (isFalse(c)) { s.done = true; return false; }
    auto it = s.cs.known.find(c->id);
    if (it != s.cs.known.end()) { if (it->second) return true; s.done = true; return false; }
    Evaluator ev(s.cs.model);
    if (ev.eval(c)) { ++g_stats.modelHits; s.cs.add(c); return true; }
    Assignment m;
    Sat r = checkSat(s.cs, c, m);
    if (r == Sat::Yes) { s.cs.model = m; s.cs.add(c); return true; }
    if (r == Sat::Unknown) { incomplete(s, "solver unknown"); return false; }
    s.done = true;
    return false;
}
void Exec::check(State& s, E c, const std::string& kind, const std::string& msg) {
    if (isTrue(c)) return;
    if (isFalse(c)) { fatal(s, kind, msg); return; }
    Assignment m;
    Sat r = checkSat(s.cs, mkNot(c), m);
    if (r == Sat::Yes) {
        error(s, kind, msg, m);
        assume(s, c);
    } else if (r == Sat::Unknown) { ++cst[s.caseId].incomplete; ++cst[s.caseId].incompleteWhy["solver unknown on " + kind]; assume(s, c); }
}
// ------------------------------------------------------------------ merging of small conditional regions
static bool specSimple(unsigned opc) {
    switch (opc) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::ICmp: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze:
        case Instruction::GetElementPtr: case Instruction::ExtractValue: case Instruction::InsertValue: return true;
        default: return false;
    }
}
void Exec::specRun(State& a, int target, SpecTrace& t) {
    auto entered = [&]() {
        Frame& f = a.st.back();
        t.bb.push_back(f.bb); t.nst.push_back(t.st.size());
        std::vector<Val> pv;
        auto& ph = f.f->bb[f.bb].phis;
        auto it = ph.find(f.prev);
        if (it != ph.end()) for (auto& m : it->second) pv.push_back(f.regs[m.dst]);
        t.phis.push_back(std::move(pv));
    };
    // joining across an iteration would leave the loop counters symbolic
    auto back = [&](int from, int to) { for (int h : a.st.back().f->bb[from].loops) if (h == to) return true; return false; };
    if (back(a.st.back().bb, target)) return;
    jump(a, target);
    entered();
    for (int n = 0; n < 40 && t.bb.size() < 6; ++n) {
        Frame& f = a.st.back();
        DInst& d = f.f->bb[f.bb].in[f.ip];
        if (specSimple(d.opc)) { if (d.w == 0 && d.I->getType()->isVectorTy()) return; if (!step(a)) return; continue; }
        switch (d.opc) {
            case Instruction::Select: { Val c = get(f, d.ops[0]); if (c.g || d.w == 0) return; if (!step(a)) return; break; }
            case Instruction::Load: {
                Val p = simp(a, get(f, d.ops[0])); std::string why;
                if (p.e || d.flag || !objAt(a, p.c, d.w2, why, false)) return;
                if (!step(a)) return;
                break;
            }
            case Instruction::Store: {
                Val p = simp(a, get(f, d.ops[1])); std::string why;
                if (p.e || d.flag || !objAt(a, p.c, d.w2, why, true)) return;
                Val v = get(f, d.ops[0]);
                t.st.push_back({p.c, d.w2, d.w, v, d.I->getOperand(0)->getType()->isPointerTy()});
                if (!step(a)) return;
                break;
            }
            case Instruction::Br: {
                if (!d.ops.empty()) { Val c = simp(a, get(f, d.ops[0])); if (c.e) return; jump(a, c.c ? d.targets[0] : d.targets[1]); }
                else jump(a, d.targets[0]);
                if (back(f.prev, f.bb)) return;
                entered();
                break;
            }
            default: return;
        }
    }
}
bool Exec::tryMerge(State& s, DInst& d, E cond, int tb, int fb) {
    if (d.mergeTry > 6 && d.mergeOk * 8 < d.mergeTry) return false;
    ++d.mergeTry;
    SpecTrace ta, tb2;
    {
        State* a = clone(s); a->cs.add(cond); specRun(*a, tb, ta); delete a;
        State* b = clone(s); b->cs.add(mkNot(cond)); specRun(*b, fb, tb2); delete b;
        statesCreated -= 2;
    }
    size_t ia = 0, ib = 0; bool found = false;
    for (ib = 0; ib < tb2.bb.size() && !found; ++ib) for (ia = 0; ia < ta.bb.size(); ++ia) if (ta.bb[ia] == tb2.bb[ib]) { found = true; break; }
    if (!found) return false;
    --ib;
    Frame& f = s.st.back();
    int J = ta.bb[ia];
    // phi values at the join
    std::vector<Val> pv;
    std::vector<int32_t> dst;
    std::vector<unsigned> wd; std::vector<bool> isPtr;
    for (auto& I : f.f->bb[J].phis) { for (auto& m : I.second) dst.push_back(m.dst); break; }
    if (ta.phis[ia].size() != dst.size() || tb2.phis[ib].size() != dst.size()) return false;
    {
        // widths: from the phi instructions, in order
        const BasicBlock* bb = f.f->bb[J].in.empty() ? nullptr : f.f->bb[J].in[0].I->getParent();
        if (!bb) return false;
        for (auto& ph : bb->phis()) { wd.push_back(width(ph.getType())); isPtr.push_back(ph.getType()->isPointerTy()); }
        if (wd.size() != dst.size()) return false;
    }
    for (size_t i = 0; i < dst.size(); ++i) {
        const Val &x = ta.phis[ia][i], &y = tb2.phis[ib][i];
        if (!x.g && !y.g && !x.e && !y.e && x.c == y.c) { pv.push_back(x); continue; }
        if (!x.g && !y.g && x.e && x.e == y.e) { pv.push_back(x); continue; }
        if (x.g || y.g || !wd[i] || isPtr[i]) return false;
        pv.push_back(Val::ex(mkIte(cond, toE(x, wd[i]), toE(y, wd[i]))));
    }
    // bytes written on either side
    std::map<uint64_t, std::pair<E, E>> by;
    auto put = [&](SpecTrace& t, size_t n, bool first) {
        for (size_t i = 0; i < n; ++i) {
            auto& st = t.st[i];
            if (st.ptr) return false;
            E e = toE(st.v, st.bits);
            if (st.bits < st.bytes * 8) e = mkZExt(e, st.bytes * 8);
            for (unsigned k = 0; k < st.bytes; ++k) { auto& q = by[st.addr + k]; (first ? q.first : q.second) = mkExtract(e, k * 8, 8); }
        }
        return true;
    };
    if (!put(ta, ta.nst[ia], true) || !put(tb2, tb2.nst[ib], false)) return false;
    if (by.size() > 64) return false;
    std::vector<std::pair<uint64_t, E>> nw;
    for (auto& [ad, q] : by) {
        std::string why;
        const Obj* o = objAt(s, ad, 1, why, true);
        if (!o) return false;
        E sy; uint8_t b = o->byte((uint32_t)ad, sy);
        E old = sy ? sy : mkConst(b, 8);
        nw.push_back({ad, mkIte(cond, q.first ? q.first : old, q.second ? q.second : old)});
    }
    for (auto& [ad, e] : nw) s.mem.wget((uint32_t)(ad >> 32) - 1)->setByte((uint32_t)ad, 0, e);
    for (size_t i = 0; i < dst.size(); ++i) f.regs[dst[i]] = pv[i].e ? simp(s, pv[i]) : pv[i];
    f.prev = f.bb; f.bb = J; f.ip = 0;
    ++d.mergeOk; ++merges;
    return true;
}
int Exec::branchFeasible(State& s, E c, Assignment& m) {
    if (c->isConst()) return (int)c->cval;
    auto it = s.cs.known.find(c->id);
    if (it != s.cs.known.end()) return (int)it->second;
    Evaluator ev(s.cs.model);
    bool side = ev.eval(c);
    Sat r = checkSat(s.cs, side ? mkNot(c) : c, m);
    if (r == Sat::No) { s.cs.known[c->id] = side; s.cs.known[mkNot(c)->id] = !side; return side; }
    if (r == Sat::Unknown) {
        ++cst[s.caseId].incomplete; ++cst[s.caseId].incompleteWhy["solver unknown at branch"];
        s.cs.add(side ? c : mkNot(c));
        return side;
    }
    return 2;
}
int Exec::branch(State& s, E c) {
    if (c->isConst()) return (int)c->cval;
    auto it = s.cs.known.find(c->id);
    if (it != s.cs.known.end()) return (int)it->second;
    Evaluator ev(s.cs.model);
    bool side = ev.eval(c);
    E mine = side ? c : mkNot(c), q = side ? mkNot(c) : c;
    Assignment m;
    Sat r = checkSat(s.cs, q, m);
    if (r == Sat::No) { s.cs.known[c->id] = side; s.cs.known[mkNot(c)->id] = !side; return side; }
    if (r == Sat::Unknown) {
        ++cst[s.caseId].incomplete; ++cst[s.caseId].incompleteWhy["solver unknown at branch"];
        s.cs.add(mine);
        return side;
    }
    State* o = clone(s);
    o->cs.model = m;
    o->cs.add(q);
    ++o->forks;
    push(o);
    s.cs.add(mine);
    ++s.forks; ++totalForks; ++cst[s.caseId].forks;
    return side;
}
bool Exec::concretize(State& s, const Val& v, unsigned w, uint64_t& out) {
    if (!v.e) { out = v.c; return true; }
    auto it = s.cs.known.find(v.e->id);
    if (it != s.cs.known.end()) { out = it->second; return true; }
    Evaluator ev(s.cs.model);
    uint64_t val = ev.eval(v.e);
    E eq = mkEq(v.e, mkConst(val, w));
    if (isTrue(eq)) { out = val; return true; }
    Assignment m;
    Sat r = checkSat(s.cs, mkNot(eq), m);
    if (r == Sat::No) { s.cs.known[v.e->id] = val; out = val; return true; }
    if (r == Sat::Unknown) { ++cst[s.caseId].incomplete; ++cst[s.caseId].incompleteWhy["solver unknown at concretisation"]; }
    else {
        unsigned& n = s.conc[v.e->id];
        if (++n > opt.concLimit) {
            ++cst[s.caseId].incomplete;
            ++cst[s.caseId].incompleteWhy["concretisation limit @ " + where(s, nullptr)];
        } else {
            State* o = clone(s);
            o->cs.model = m;
            o->cs.add(mkNot(eq));
            push(o);
            ++s.forks; ++totalForks; ++cst[s.caseId].forks;
        }
    }
    s.cs.add(eq);
    s.cs.known[v.e->id] = val;
    s.conc.erase(v.e->id);
    out = val;
    return true;
}

// ------------------------------------------------------------------ memory
const Obj* Exec::objAt(State& s, uint64_t a, uint64_t n, std::string& why, bool write) {
    if (a < (1ull << 32)) { why = a < 4096 ? "null pointer dereference" : "wild pointer dereference"; return nullptr; }
    uint32_t id = (uint32_t)(a >> 32) - 1, off = (uint32_t)a;
    const Obj* o = s.mem.get(id);
    if (!o) {
        if (off > 0x80000000u && s.mem.get(id + 1)) why = std::string("out-of-bounds access before object ") + s.mem.get(id + 1)->name;
        else why = "access to freed or invalid object";
        return nullptr;
    }
    if ((uint64_t)off + n > o->size) { why = "out-of-bounds access (offset " + std::to_string((int32_t)off) + ", " + std::to_string(n) + " bytes, object " + o->name + " of " + std::to_string(o->size) + " bytes)"; return nullptr; }
    if (o->kind == OK::Func) { why = "data access to a function"; return nullptr; }
    if (write && o->ro && !initPhase) { why = std::string("write to constant object ") + o->name; return nullptr; }
    return o;
}
E Exec::readE(const Obj* o, uint32_t off, unsigned bytes) {
    E r = nullptr;
    uint64_t acc = 0; unsigned accBits = 0;   // pending constant low part
    // from least significant byte upwards
    for (unsigned i = 0; i < bytes; ++i) {
        E sy; uint8_t b = o->byte(off + i, sy);
        if (!sy && accBits < 64) { acc |= (uint64_t)b << accBits; accBits += 8; continue; }
        if (accBits) { E c = mkConst(acc, accBits); r = r ? mkConcat(c, r) : c; acc = 0; accBits = 0; }
        if (!sy) { acc = b; accBits = 8; continue; }
        r = r ? mkConcat(sy, r) : sy;
    }
    if (accBits) { E c = mkConst(acc, accBits); r = r ? mkConcat(c, r) : c; }
    return r;
}
static unsigned knownTZ(E e) {
    switch (e->k) {
        case K::Const: return e->cval ? __builtin_ctzll(e->cval) : e->width;
        case K::Concat: { unsigned t = knownTZ(e->b); return t == e->b->width ? t + knownTZ(e->a) : t; }
        case K::ZExt: case K::SExt: return std::min(knownTZ(e->a), e->a->width);
        case K::Add: case K::Sub: return std::min(knownTZ(e->a), knownTZ(e->b));
        case K::Mul: return std::min<unsigned>(e->width, knownTZ(e->a) + knownTZ(e->b));
        case K::Ite: return std::min(knownTZ(e->b), knownTZ(e->c));
        default: return 0;
    }
}
static bool iteTop(E e) { return e->k == K::Ite; }
static E distribute(E a) {   // Add over a top-level Ite of addresses
    if (a->k == K::Add) {
        if (iteTop(a->a)) return mkIte(a->a->a, mkAdd(a->a->b, a->b), mkAdd(a->a->c, a->b));
        if (iteTop(a->b) && a->b->umin >= (1ull << 32)) return mkIte(a->b->a, mkAdd(a->a, a->b->b), mkAdd(a->a, a->b->c));
    }
    return a;
}
bool Exec::baseOf(State& s, E a, uint32_t& id) {
    // the object is determined by a constant base in the sum
    uint64_t c = 0; bool found = false;
    if (a->k == K::Add && a->b->isConst()) { c = a->b->cval; found = c >= (1ull << 32) && c < (1ull << 62); }
    Evaluator ev(s.cs.model);
    uint64_t mv = ev.eval(a);
    uint32_t hm = (uint32_t)(mv >> 32);
    if (found) {
        uint32_t hc = (uint32_t)(c >> 32);
        if (hm == hc || hm == hc + 1 || hm + 1 == hc) {
            if ((uint32_t)c > 0x80000000u) hc += 1;      // base minus a small constant
            id = hc - 1;
            return s.mem.get(id) != nullptr;
        }
    }
    return false;
}
Exec::SymAcc Exec::loadSym(State& s, E a, unsigned bytes, int& budget, std::unordered_map<uint32_t, SymAcc>& memo, bool& giveup) {
    auto it = memo.find(a->id);
    if (it != memo.end()) return it->second;
    SymAcc r{mkFalse(), mkConst(0, 8)};
    unsigned bits = bytes * 8;
    r.val = bits <= 64 ? mkConst(0, bits) : mkZExt(mkConst(0, 8), bits);
    if (giveup || --budget < 0) { giveup = true; return r; }
    a = distribute(a);
    if (a->isConst()) {
        std::string why;
        const Obj* o = objAt(s, a->cval, bytes, why, false);
        if (o) r = {mkTrue(), readE(o, (uint32_t)a->cval, bytes)};
    } else if (a->k == K::Ite) {
        SymAcc x = loadSym(s, a->b, bytes, budget, memo, giveup), y = loadSym(s, a->c, bytes, budget, memo, giveup);
        r = {mkIte(a->a, x.ok, y.ok), isFalse(x.ok) ? y.val : isFalse(y.ok) ? x.val : mkIte(a->a, x.val, y.val)};
    } else {
        uint32_t id;
        if (!baseOf(s, a, id)) { giveup = true; return r; }
        const Obj* o = s.mem.get(id);
        if (o->size < bytes || o->kind == OK::Func) { memo[a->id] = r; return r; }
        E off = mkSub(a, mkConst(Mem::addr(id), 64));
        uint64_t maxOff = o->size - bytes;
        r.ok = mkUle(off, mkConst(maxOff, 64));
        // multiplexer over the feasible offsets
        E x = off; uint64_t c = 0;
        if (off->k == K::Add && off->b->isConst()) { x = off->a; c = off->b->cval; }
        uint64_t xmax = x->umax;
        if (xmax > maxOff + (0 - c) && xmax > maxOff) {
            // x is not obviously small: bound by the object when the constant is a plain offset
            if (c <= maxOff) xmax = maxOff - c; else xmax = maxOff + (0 - c);
        }
        if (xmax > 70000) { giveup = true; return r; }
        unsigned tz = std::min(knownTZ(x), 12u);
        unsigned nb = 0; while ((xmax >> tz) >> nb) ++nb;
        if (nb > 13) { giveup = true; return r; }
        std::function<E(uint64_t, int)> build = [&](uint64_t idx, int bit) -> E {
            if (bit < 0) {
                uint64_t oo = (idx << tz) + c;
                if (oo > maxOff) return nullptr;
                return readE(o, (uint32_t)oo, bytes);
            }
            if ((idx << tz) > xmax) return nullptr;
            E l = build(idx, bit - 1), h = build(idx | (1ull << bit), bit - 1);
            if (!l) return h;
            if (!h) return l;
            return mkIte(mkExtract(x, tz + bit, 1), h, l);
        };
        E v = build(0, (int)nb - 1);
        if (v) r.val = v; else r.ok = mkFalse();
    }
    memo[a->id] = r;
    return r;
}
bool Exec::loadMem(State& s, const Val& addr0, unsigned bytes, unsigned bits, Val& out) {
    Val addr = simp(s, addr0);
    if (!addr.e) {
        std::string why;
        const Obj* o = objAt(s, addr.c, bytes, why, false);
        if (!o) { fatal(s, "memory-error", "read: " + why); return false; }
        uint32_t off = (uint32_t)addr.c;
        if (bytes <= 8) {
            // fast path
            if (off / PG == (off + bytes - 1) / PG) {
                auto& p = o->pg[off / PG];
                if (!p) { uint64_t v = 0; memset(&v, o->fill, bytes); out = Val(v & maskw(bits)); return true; }
                bool sy = false;
                if (p.p->s) for (unsigned i = 0; i < bytes; ++i) if (p.p->s[off % PG + i]) { sy = true; break; }
                if (!sy) { uint64_t v = 0; memcpy(&v, p.p->d + off % PG, bytes); out = Val(v & maskw(bits)); return true; }
            }
        }
        E e = readE(o, off, bytes);
        out = simp(s, Val::ex(e->width > bits ? mkExtract(e, 0, bits) : e));
        return true;
    }
    int budget = 3000; bool giveup = false;
    std::unordered_map<uint32_t, SymAcc> memo;
    SymAcc r = loadSym(s, addr.e, bytes, budget, memo, giveup);
    if (giveup) {
        uint64_t a;
        if (!concretize(s, addr, 64, a)) return false;
        if (s.done) return false;
        return loadMem(s, Val(a), bytes, bits, out);
    }
    if (!isTrue(r.ok)) {
        check(s, r.ok, "memory-error", "read outside any live object through a symbolic address");
        if (s.done) return false;
    }
    out = simp(s, Val::ex(r.val->width > bits ? mkExtract(r.val, 0, bits) : r.val));
    return true;
}
E Exec::okStore(State& s, E a, unsigned bytes, int& budget, bool& giveup) {
    if (giveup || --budget < 0) { giveup = true; return mkFalse(); }
    a = distribute(a);
    std::string why;
    if (a->isConst()) return objAt(s, a->cval, bytes, why, true) ? mkTrue() : mkFalse();
    if (a->k == K::Ite) return mkIte(a->a, okStore(s, a->b, bytes, budget, giveup), okStore(s, a->c, bytes, budget, giveup));
    uint32_t id;
    if (!baseOf(s, a, id)) { giveup = true; return mkFalse(); }
    const Obj* o = s.mem.get(id);
    if (o->size < bytes || o->kind == OK::Func || o->ro) return mkFalse();
    E off = mkSub(a, mkConst(Mem::addr(id), 64));
    if (o->size > 4096) { giveup = true; return mkFalse(); }
    budget -= o->size / 64;
    return mkUle(off, mkConst(o->size - bytes, 64));
}
void Exec::doStoreSym(State& s, E a, unsigned bytes, E v, E guard) {
    a = distribute(a);
    if (isFalse(guard)) return;
    if (a->isConst()) {
        std::string why;
        if (!objAt(s, a->cval, bytes, why, true)) return;   // excluded by the ok condition
        Obj* o = s.mem.wget((uint32_t)(a->cval >> 32) - 1);
        uint32_t off = (uint32_t)a->cval;
        for (unsigned i = 0; i < bytes; ++i) {
            E sy; uint8_t b = o->byte(off + i, sy);
            E old = sy ? sy : mkConst(b, 8);
            E nv = mkIte(guard, mkExtract(v, i * 8, 8), old);
            o->setByte(off + i, 0, nv);
        }
        return;
    }
    if (a->k == K::Ite) {
        doStoreSym(s, a->b, bytes, v, mkAnd(guard, a->a));
        doStoreSym(s, a->c, bytes, v, mkAnd(guard, mkNot(a->a)));
        return;
    }
    uint32_t id;
    baseOf(s, a, id);
    Obj* o = s.mem.wget(id);
    E off = mkSub(a, mkConst(Mem::addr(id), 64));
    unsigned tz = knownTZ(off); uint64_t stride = 1ull << std::min(tz, 12u);
    uint64_t lo = off->umin <= o->size ? off->umin / stride * stride : 0;
    for (uint64_t k = lo; k + bytes <= o->size && k <= off->umax; k += stride) {
        E g = mkAnd(guard, mkEq(off, mkConst(k, 64)));
        if (isFalse(g)) continue;
        for (unsigned i = 0; i < bytes; ++i) {
            E sy; uint8_t b = o->byte(k + i, sy);
            E old = sy ? sy : mkConst(b, 8);
            o->setByte(k + i, 0, mkIte(g, mkExtract(v, i * 8, 8), old));
        }
    }
}
bool Exec::storeMem(State& s, const Val& addr0, unsigned bytes, unsigned bits, const Val& v) {
    Val addr = simp(s, addr0);
    if (!addr.e) {
        std::string why;
        if (!objAt(s, addr.c, bytes, why, true)) { fatal(s, "memory-error", "write: " + why); return false; }
        Obj* o = s.mem.wget((uint32_t)(addr.c >> 32) - 1);
        uint32_t off = (uint32_t)addr.c;
        if (!v.e && bytes <= 8) { uint8_t b[8]; memcpy(b, &v.c, 8); o->writeRaw(off, b, bytes); return true; }
        E e = toE(v, bits);
        if (bits < bytes * 8) e = mkZExt(e, bytes * 8);
        for (unsigned i = 0; i < bytes; ++i) o->setByte(off + i, 0, mkExtract(e, i * 8, 8));
        return true;
    }
    int budget = 600; bool giveup = false;
    E ok = okStore(s, addr.e, bytes, budget, giveup);
    if (giveup) {
        uint64_t a;
        if (!concretize(s, addr, 64, a) || s.done) return false;
        return storeMem(s, Val(a), bytes, bits, v);
    }
    if (!isTrue(ok)) { check(s, ok, "memory-error", "write outside any live object through a symbolic address"); if (s.done) return false; }
    E e = toE(v, bits);
    if (bits < bytes * 8) e = mkZExt(e, bytes * 8);
    doStoreSym(s, addr.e, bytes, e, mkTrue());
    return true;
}
bool Exec::loadTy(State& s, const Val& addr, Type* t, Val& out) {
    if (unsigned w = width(t)) return loadMem(s, addr, DL.getTypeStoreSize(t).getFixedValue(), w, out);
    out = Val(); out.g = Ref<Agg>(new Agg);
    auto at = [&](uint64_t off) { return addr.e ? Val::ex(mkAdd(addr.e, mkConst(off, 64))) : Val(addr.c + off); };
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) { Val v; if (!loadTy(s, at(sl->getElementOffset(i)), st->getElementType(i), v)) return false; out.g->v.push_back(v); }
        return true;
    }
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    if (t->isVectorTy() && width(et) % 8) {   // packed sub-byte vector
        Val v; unsigned by = DL.getTypeStoreSize(t).getFixedValue();
        if (!loadMem(s, addr, by, by * 8, v)) return false;
        for (unsigned i = 0; i < n; ++i) out.g->v.push_back(v.e ? Val::ex(mkExtract(v.e, i * width(et), width(et))) : Val((v.c >> (i * width(et))) & maskw(width(et))));
        return true;
    }
    uint64_t es = t->isVectorTy() ? width(et) / 8 : DL.getTypeAllocSize(et).getFixedValue();
    for (unsigned i = 0; i < n; ++i) { Val v; if (!loadTy(s, at(i * es), et, v)) return false; out.g->v.push_back(v); }
    return true;
}
bool Exec::storeTy(State& s, const Val& addr, Type* t, const Val& v) {
    if (unsigned w = width(t)) return storeMem(s, addr, DL.getTypeStoreSize(t).getFixedValue(), w, v);
    if (!v.g) return true;
    auto at = [&](uint64_t off) { return addr.e ? Val::ex(mkAdd(addr.e, mkConst(off, 64))) : Val(addr.c + off); };
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) if (!storeTy(s, at(sl->getElementOffset(i)), st->getElementType(i), v.g->v[i])) return false;
        return true;
    }
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    unsigned n = v.g->v.size();
    if (t->isVectorTy() && width(et) % 8) {
        E e = nullptr;
        for (unsigned i = 0; i < n; ++i) { E x = toE(v.g->v[i], width(et)); e = e ? mkConcat(x, e) : x; }
        unsigned by = DL.getTypeStoreSize(t).getFixedValue();
        return storeMem(s, addr, by, e->width, Val::ex(e));
    }
    uint64_t es = t->isVectorTy() ? width(et) / 8 : DL.getTypeAllocSize(et).getFixedValue();
    for (unsigned i = 0; i < n; ++i) if (!storeTy(s, at(i * es), et, v.g->v[i])) return false;
    return true;
}

// ------------------------------------------------------------------ calls and returns
void Exec::popFrame(State& s) {
    Frame& f = s.st.back();
    for (uint32_t id : f.allocas) if (s.mem.get(id)) s.mem.free(id);
    s.st.pop_back();
}
void Exec::finishCall(State& s, DInst& d, Val v) {
    Frame& f = s.st.back();
    if (d.dst >= 0) f.regs[d.dst] = std::move(v);
    if (d.opc == Instruction::Invoke) jump(s, d.targets[0]);
    else ++f.ip;
}
void Exec::doReturn(State& s, bool, Val v) {
    Frame& f = s.st.back();
    bool discard = f.discardRet; int after = f.after; uint64_t aarg = f.afterArg;
    popFrame(s);
    if (s.st.empty()) { s.done = true; return; }
    if (after == 1) { if (s.mem.get((uint32_t)(aarg >> 32) - 1)) s.mem.free((uint32_t)(aarg >> 32) - 1); }
    Frame& c = s.st.back();
    DInst& d = c.f->bb[c.bb].in[c.ip];
    if (discard) { finishCall(s, d, Val(0)); return; }
    finishCall(s, d, std::move(v));
}
void Exec::callFn(State& s, DFunc* f, std::vector<Val> args, bool discard, int after, uint64_t aarg) {
    Frame n;
    n.f = f;
    n.regs.resize(f->nregs);
    for (size_t i = 0; i < args.size() && i < f->F->arg_size(); ++i) n.regs[i] = args[i];
    n.discardRet = discard; n.after = after; n.afterArg = aarg;
    f->entered = true; ++f->calls;
    s.st.push_back(std::move(n));
}
void Exec::doCall(State& s, DInst& d, DFunc* f, std::vector<Val>& args) {
    if (!f->decoded) decode(f);
    if (f->builtin) { (this->*(f->builtin))(s, d, args); return; }
    if (f->bb.empty()) {
        if (initPhase) { if (opt.verbose) fprintf(stderr, "ionsym: init: unresolved external %s\n", f->name.c_str()); finishCall(s, d, Val(0)); return; }
        incomplete(s, "unmodelled external function " + llvm::demangle(f->name));
        return;
    }
    if (s.st.size() > 400) { fatal(s, "stack-overflow", "recursion deeper than 400 frames"); return; }
    auto* cb = cast<CallBase>(d.I);
    Frame n;
    n.f = f;
    n.regs.resize(f->nregs);
    size_t np = f->F->arg_size();
    for (size_t i = 0; i < args.size(); ++i) {
        Val a = args[i];
        if (i < np && cb->isByValArgument(i)) {
            uint64_t src;
            if (!concretize(s, a, 64, src) || s.done) return;
            uint64_t sz = DL.getTypeAllocSize(cb->getParamByValType(i)).getFixedValue();
            uint32_t id = s.mem.alloc(sz, OK::Stack, 0xBE, "byval argument");
            n.allocas.push_back(id);
            memcpyBytes(s, Mem::addr(id), src, sz);
            if (s.done) return;
            a = Val(Mem::addr(id));
        }
        if (i < np) n.regs[i] = std::move(a); else n.va.push_back(std::move(a));
    }
    f->entered = true; ++f->calls;
    s.st.push_back(std::move(n));
}

void Exec::jump(State& s, int b) {
    Frame& f = s.st.back();
    int from = f.bb;
    DBlock& B = f.f->bb[b];
    if (!B.phis.empty()) {
        auto it = B.phis.find(from);
        if (it != B.phis.end()) {
            auto& mv = it->second;
            if (mv.size() == 1) f.regs[mv[0].dst] = get(f, mv[0].op);
            else {
                std::vector<Val> t;
                t.reserve(mv.size());
                for (auto& m : mv) t.push_back(get(f, m.op));
                for (size_t i = 0; i < mv.size(); ++i) f.regs[mv[i].dst] = std::move(t[i]);
            }
        }
    }
    f.prev = from;
    f.bb = b;
    f.ip = 0;
}

bool Exec::elementwise(State& s, DInst& d, Frame& f) {
    // vector operands of arithmetic, comparisons, casts
    Type* t = d.I->getType();
    if (!t->isVectorTy()) return false;
    unsigned n = cast<FixedVectorType>(t)->getNumElements();
    unsigned w = width(t->getScalarType());
    Val r; r.g = Ref<Agg>(new Agg);
    r.g->v.resize(n);
    bool bad = false;
    for (unsigned i = 0; i < n; ++i) {
        auto el = [&](unsigned k) { Val v = get(f, d.ops[k]); return v.g ? v.g->v[i] : v; };
        unsigned ow = width(d.I->getOperand(0)->getType()->getScalarType());
        if (d.I->isBinaryOp()) {
            if (d.I->getType()->getScalarType()->isFloatingPointTy()) r.g->v[i] = fbinop(s, d.opc, w, el(0), el(1), bad);
            else r.g->v[i] = binop(s, d.opc, w, el(0), el(1), bad);
        } else if (d.opc == Instruction::ICmp) r.g->v[i] = icmp(d.sub, ow, el(0), el(1));
        else if (d.I->isCast()) {
            if (d.opc == Instruction::BitCast) return false;
            r.g->v[i] = castOp(s, d.opc, ow, w, el(0), bad);
        } else if (d.opc == Instruction::Select) {
            Val c = el(0);
            if (!c.e) r.g->v[i] = c.c ? el(1) : el(2);
            else r.g->v[i] = Val::ex(mkIte(c.e, toE(el(1), w), toE(el(2), w)));
        } else if (d.opc == Instruction::Freeze) r.g->v[i] = el(0);
        else return false;
        if (bad || s.done) return true;
    }
    setReg(f, d.dst, r);
    ++f.ip;
    return true;
}

// ------------------------------------------------------------------ main interpreter
bool Exec::step(State& s) {
    Frame& f = s.st.back();
    DInst& d = f.f->bb[f.bb].in[f.ip];
    ++s.steps; ++totalSteps;
    if (s.stepLimit && s.steps > s.stepLimit) { fatal(s, "no-termination", "step limit of the harness exceeded: the operation does not finish"); return false; }
    switch (d.opc) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            if (d.w == 0) { if (!elementwise(s, d, f)) incomplete(s, "unsupported vector operation"); break; }
            bool bad;
            Val r = binop(s, d.opc, d.w, get(f, d.ops[0]), get(f, d.ops[1]), bad);
            if (bad || s.done) return false;
            f.regs[d.dst] = r.e ? simp(s, r) : r;
            ++f.ip;
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            if (d.w == 0) { if (!elementwise(s, d, f)) incomplete(s, "unsupported vector operation"); break; }
            bool bad;
            Val r = fbinop(s, d.opc, d.w, get(f, d.ops[0]), get(f, d.ops[1]), bad);
            if (bad) return false;
            f.regs[d.dst] = r; ++f.ip;
            break;
        }
        case Instruction::FNeg: {
            Val a = get(f, d.ops[0]);
            if (a.e || (d.w != 32 && d.w != 64)) { incomplete(s, "symbolic float"); return false; }
            f.regs[d.dst] = Val(a.c ^ (1ull << (d.w - 1))); ++f.ip;
            break;
        }
        case Instruction::ICmp: {
            if (d.w == 0) { if (!elementwise(s, d, f)) incomplete(s, "unsupported vector operation"); break; }
            Val r = icmp(d.sub, d.w2, get(f, d.ops[0]), get(f, d.ops[1]));
            f.regs[d.dst] = r.e ? simp(s, r) : r;
            ++f.ip;
            break;
        }
        case Instruction::FCmp: {
            Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
            if (a.e || b.e || (d.w2 != 32 && d.w2 != 64)) { incomplete(s, "symbolic float"); return false; }
            double x = d.w2 == 32 ? asF(a.c) : asD(a.c), y = d.w2 == 32 ? asF(b.c) : asD(b.c);
            bool un = std::isnan(x) || std::isnan(y), r = false;
            unsigned p = d.sub;   // bit 0 eq, 1 gt, 2 lt, 3 unordered
            if (un) r = p & 8; else if (x == y) r = p & 1; else if (x > y) r = p & 2; else r = p & 4;
            f.regs[d.dst] = Val(r); ++f.ip;
            break;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: {
            if (d.opc == Instruction::BitCast && (d.w == 0 || d.w2 == 0)) {
                // vector <-> scalar bitcast through bits
                Type* st = d.I->getOperand(0)->getType(); Type* dt = d.I->getType();
                Val a = get(f, d.ops[0]);
                E e = nullptr;
                if (d.w2) e = toE(a, d.w2);
                else { unsigned ew = width(st->getScalarType()); for (auto& x : a.g->v) { E q = toE(x, ew); e = e ? mkConcat(q, e) : q; } }
                if (d.w) f.regs[d.dst] = Val::ex(e);
                else {
                    unsigned ew = width(dt->getScalarType()), n = cast<FixedVectorType>(dt)->getNumElements();
                    Val r; r.g = Ref<Agg>(new Agg);
                    for (unsigned i = 0; i < n; ++i) r.g->v.push_back(Val::ex(mkExtract(e, i * ew, ew)));
                    f.regs[d.dst] = r;
                }
                ++f.ip;
                break;
            }
            if (d.w == 0) { if (!elementwise(s, d, f)) incomplete(s, "unsupported vector operation"); break; }
            bool bad;
            Val r = castOp(s, d.opc, d.w2, d.w, get(f, d.ops[0]), bad);
            if (bad) return false;
            f.regs[d.dst] = r.e ? simp(s, r) : r;
            ++f.ip;
            break;
        }
        case Instruction::Freeze: f.regs[d.dst] = get(f, d.ops[0]); ++f.ip; break;
        case Instruction::Select: {
            Val c = get(f, d.ops[0]);
            if (c.g) { if (!elementwise(s, d, f)) incomplete(s, "unsupported vector select"); break; }
            c = simp(s, c);
            if (!c.e) f.regs[d.dst] = c.c ? get(f, d.ops[1]) : get(f, d.ops[2]);
            else {
                Val a = get(f, d.ops[1]), b = get(f, d.ops[2]);
                if (d.w == 0 || a.g || b.g) {
                    int r = branch(s, c.e);
                    f.regs[d.dst] = r ? a : b;
                } else {
                    E r = mkIte(c.e, toE(a, d.w), toE(b, d.w));
                    f.regs[d.dst] = Val::ex(r);
                }
            }
            ++f.ip;
            break;
        }
        case Instruction::GetElementPtr: {
            if (d.flag) { incomplete(s, "unsupported GEP"); return false; }
            Val b = get(f, d.ops[0]);
            bool sy = b.e;
            for (size_t i = 0; i < d.gep.size() && !sy; ++i) if (get(f, d.ops[i + 1]).e) sy = true;
            if (!sy) {
                uint64_t a = b.c + d.imm;
                for (size_t i = 0; i < d.gep.size(); ++i) a += (uint64_t)sextw(get(f, d.ops[i + 1]).c, d.gep[i].first) * d.gep[i].second;
                f.regs[d.dst] = Val(a);
            } else {
                E a = mkAdd(toE(b, 64), mkConst(d.imm, 64));
                for (size_t i = 0; i < d.gep.size(); ++i) {
                    Val iv = simp(s, get(f, d.ops[i + 1]));
                    E x = mkSExt(toE(iv, d.gep[i].first), 64);
                    a = mkAdd(a, mkMul(x, mkConst(d.gep[i].second, 64)));
                }
                f.regs[d.dst] = simp(s, Val::ex(a));
            }
            ++f.ip;
            break;
        }
        case Instruction::Alloca: {
            uint64_t n;
            if (!concretize(s, get(f, d.ops[0]), d.w2, n) || s.done) return false;
            uint32_t id = s.mem.alloc(d.imm * n, OK::Stack, 0xBE, "local variable");
            f.allocas.push_back(id);
            f.regs[d.dst] = Val(Mem::addr(id));
            ++f.ip;
            break;
        }
        case Instruction::Load: {
            Val r;
            if (d.flag) { if (!loadTy(s, get(f, d.ops[0]), d.I->getType(), r)) return false; }
            else if (!loadMem(s, get(f, d.ops[0]), d.w2, d.w, r)) return false;
            if (s.done) return false;
            s.st.back().regs[d.dst] = r;
            ++s.st.back().ip;
            break;
        }
        case Instruction::Store: {
            bool ok = d.flag ? storeTy(s, get(f, d.ops[1]), d.I->getOperand(0)->getType(), get(f, d.ops[0])) : storeMem(s, get(f, d.ops[1]), d.w2, d.w, get(f, d.ops[0]));
            if (!ok || s.done) return false;
            ++f.ip;
            break;
        }
        case Instruction::Br: {
            if (d.ops.empty()) { jump(s, d.targets[0]); break; }
            Val c = get(f, d.ops[0]);
            int r;
            if (!c.e) r = (int)c.c;
            else {
                Assignment m;
                r = branchFeasible(s, c.e, m);
                if (r == 2) {
                    if (tryMerge(s, d, c.e, d.targets[0], d.targets[1])) break;
                    Evaluator ev(s.cs.model);
                    r = (int)ev.eval(c.e);
                    State* o = clone(s);
                    o->cs.model = m;
                    o->cs.add(r ? mkNot(c.e) : c.e);
                    ++o->forks;
                    push(o);
                    s.cs.add(r ? c.e : mkNot(c.e));
                    ++s.forks; ++totalForks; ++cst[s.caseId].forks; ++d.forks;
                }
            }
            if (s.done) return false;
            jump(s, r ? d.targets[0] : d.targets[1]);
            break;
        }
        case Instruction::Switch: {
            Val v = simp(s, get(f, d.ops[0]));
            if (!v.e) {
                int t = d.targets[0];
                for (size_t i = 0; i < d.cases.size(); ++i) if (d.cases[i] == v.c) { t = d.targets[i + 1]; break; }
                jump(s, t);
                break;
            }
            std::map<int, E> conds; E any = mkFalse();
            for (size_t i = 0; i < d.cases.size(); ++i) {
                E q = mkEq(v.e, mkConst(d.cases[i], d.w));
                any = mkOr(any, q);
                int t = d.targets[i + 1];
                conds[t] = conds.count(t) ? mkOr(conds[t], q) : q;
            }
            E def = mkNot(any);
            conds[d.targets[0]] = conds.count(d.targets[0]) ? mkOr(conds[d.targets[0]], def) : def;
            Evaluator ev(s.cs.model);
            int mine = -1; E mineC = nullptr;
            for (auto& [t, c] : conds) {
                if (mine < 0 && ev.eval(c)) { mine = t; mineC = c; continue; }
                Assignment m;
                Sat r = checkSat(s.cs, c, m);
                if (r == Sat::Unknown) { ++cst[s.caseId].incomplete; ++cst[s.caseId].incompleteWhy["solver unknown at switch"]; continue; }
                if (r == Sat::No) continue;
                State* o = clone(s);
                o->cs.model = m;
                o->cs.add(c);
                jump(*o, t);
                push(o);
                ++totalForks; ++cst[s.caseId].forks; ++d.forks; ++s.forks;
            }
            s.cs.add(mineC);
            jump(s, mine);
            break;
        }
        case Instruction::Ret: {
            Val v;
            if (!d.ops.empty()) v = get(f, d.ops[0]);
            doReturn(s, !d.ops.empty(), std::move(v));
            if (s.done) return false;
            break;
        }
        case Instruction::Call: case Instruction::Invoke: {
            if (d.flag) { finishCall(s, d, Val(0)); break; }   // inline asm: compiler barriers only
            std::vector<Val> args;
            args.reserve(d.ops.size());
            for (size_t i = 0; i + 1 < d.ops.size(); ++i) args.push_back(get(f, d.ops[i]));
            DFunc* cf = d.callee;
            if (!cf) {
                Val fp = simp(s, get(f, d.ops.back()));
                uint64_t a;
                if (!concretize(s, fp, 64, a) || s.done) return false;
                auto it = fobj.find((uint32_t)(a >> 32) - 1);
                if (it == fobj.end() || (uint32_t)a) { fatal(s, "memory-error", a ? "call through an invalid function pointer" : "call through a null function pointer"); return false; }
                cf = it->second;
            }
            if (cf->F->isIntrinsic()) {
                if (!intrinsic(s, d, args, cf->F->getIntrinsicID())) return false;
            } else doCall(s, d, cf, args);
            if (s.done) return false;
            break;
        }
        case Instruction::Unreachable: fatal(s, "undefined-behaviour", "unreachable code reached"); return false;
        case Instruction::ExtractValue: {
            Val v = get(f, d.ops[0]);
            for (unsigned i : d.idx) { Val t = v.g ? v.g->v[i] : Val(0); v = t; }
            f.regs[d.dst] = v; ++f.ip;
            break;
        }
        case Instruction::InsertValue: {
            Val v = get(f, d.ops[0]), x = get(f, d.ops[1]);
            std::function<void(Val&, unsigned)> ins = [&](Val& a, unsigned k) {
                Ref<Agg> n(new Agg(*a.g.p)); n.p->rc = 1;
                a.g = n;
                if (k + 1 == d.idx.size()) a.g->v[d.idx[k]] = x; else ins(a.g->v[d.idx[k]], k + 1);
            };
            ins(v, 0);
            f.regs[d.dst] = v; ++f.ip;
            break;
        }
        case Instruction::ExtractElement: {
            Val v = get(f, d.ops[0]); uint64_t i;
            if (!concretize(s, get(f, d.ops[1]), 64, i) || s.done) return false;
            f.regs[d.dst] = v.g->v[i]; ++f.ip;
            break;
        }
        case Instruction::InsertElement: {
            Val v = get(f, d.ops[0]); uint64_t i;
            if (!concretize(s, get(f, d.ops[2]), 64, i) || s.done) return false;
            Ref<Agg> n(new Agg(*v.g.p)); n.p->rc = 1; v.g = n;
            v.g->v[i] = get(f, d.ops[1]);
            f.regs[d.dst] = v; ++f.ip;
            break;
        }
        case Instruction::ShuffleVector: {
            Val a = get(f, d.ops[0]), b = get(f, d.ops[1]), r;
            r.g = Ref<Agg>(new Agg);
            for (unsigned i : d.idx) r.g->v.push_back((int)i < 0 ? Val(0) : i < d.imm ? a.g->v[i] : b.g->v[i - d.imm]);
            f.regs[d.dst] = r; ++f.ip;
            break;
        }
        case Instruction::LandingPad: {
            Val v; v.g = Ref<Agg>(new Agg);
            v.g->v.push_back(Val(s.curExc)); v.g->v.push_back(Val((uint64_t)(uint32_t)s.curSel));
            f.regs[d.dst] = v; ++f.ip;
            break;
        }
        case Instruction::Resume: {
            Val v = get(f, d.ops[0]);
            unwind(s, v.g->v[0].c, true);
            if (s.done) return false;
            break;
        }
        case Instruction::Fence: ++f.ip; break;
        case Instruction::AtomicRMW: {
            Val p = get(f, d.ops[0]), x = get(f, d.ops[1]), old, r; bool bad = false;
            if (!loadMem(s, p, d.w2, d.w, old) || s.done) return false;
            switch (d.sub) {
                case AtomicRMWInst::Xchg: r = x; break;
                case AtomicRMWInst::Add: r = binop(s, Instruction::Add, d.w, old, x, bad); break;
                case AtomicRMWInst::Sub: r = binop(s, Instruction::Sub, d.w, old, x, bad); break;
                case AtomicRMWInst::And: r = binop(s, Instruction::And, d.w, old, x, bad); break;
                case AtomicRMWInst::Or: r = binop(s, Instruction::Or, d.w, old, x, bad); break;
                case AtomicRMWInst::Xor: r = binop(s, Instruction::Xor, d.w, old, x, bad); break;
                default: incomplete(s, "unsupported atomicrmw"); return false;
            }
            if (!storeMem(s, p, d.w2, d.w, r) || s.done) return false;
            f.regs[d.dst] = old; ++f.ip;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            Val p = get(f, d.ops[0]), exp = get(f, d.ops[1]), nv = get(f, d.ops[2]), old;
            if (!loadMem(s, p, d.w2, d.w, old) || s.done) return false;
            Val eq = icmp(CmpInst::ICMP_EQ, d.w, old, exp);
            int r = eq.e ? branch(s, eq.e) : (int)eq.c;
            if (r && (!storeMem(s, p, d.w2, d.w, nv) || s.done)) return false;
            Val v; v.g = Ref<Agg>(new Agg);
            v.g->v.push_back(old); v.g->v.push_back(Val((uint64_t)r));
            f.regs[d.dst] = v; ++f.ip;
            break;
        }
        default:
            incomplete(s, std::string("unsupported instruction ") + d.I->getOpcodeName());
            return false;
    }
    return !s.done;
}

// ------------------------------------------------------------------ scheduling
static bool g_abandon = false;
void Exec::maybeSplit() {
    if (!shared || initPhase) return;
    Shared* sh = SH(shared);
    size_t pend = 0;
    for (auto& w : work) pend += w.size();
    if (pend < 2) return;
    if (sh->active.load() >= sh->maxWorkers.load() || sh->stop.load()) return;
    if (sh->active.fetch_add(1) >= sh->maxWorkers.load()) { sh->active.fetch_sub(1); return; }
    int np = sh->nextProc.fetch_add(1);
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { sh->active.fetch_sub(1); return; }
    bool child = p == 0;
    // split the pending states alternately, oldest first
    size_t k = 0;
    for (auto& w : work) {
        std::vector<State*> keep;
        for (State* st : w) { if (((k++) & 1) == (child ? 0u : 1u)) keep.push_back(st); else delete st; }
        w.swap(keep);
    }
    if (child) {
        procIndex = np;
        for (auto& c : cst) c = CaseStats{};
        samples.clear();
        for (auto& x : sampleCount) x = 0;
        viols.clear();
        totalSteps = totalForks = statesCreated = merges = 0;
        g_stats = SolverStats{};
        for (auto& [F, d] : fmap) { d->calls = 0; d->entered = false; }
        rng.seed(opt.seed * 1000 + np);
        g_abandon = true;
    }
    lastSplit = nowS();
}

void Exec::runState(State& s) {
    double t0 = nowS(); uint64_t st0 = s.steps;
    uint64_t n = 0;
    while (true) {
        if (!step(s)) break;
        if ((++n & 2047) == 0) {
            double t = nowS();
            if (!initPhase) {
                if (t > deadline || SH(shared)->stop.load()) { incomplete(s, SH(shared)->stop.load() ? "stopped after a violation" : "time budget"); break; }
                if (s.steps - st0 > opt.maxStepsPerPath) { incomplete(s, "step budget per path"); break; }
                if (t - lastSplit > 0.05) {
                    maybeSplit();
                    if (g_abandon) return;
                }
            }
        }
    }
    if (!initPhase) { cst[s.caseId].secs += nowS() - t0; cst[s.caseId].steps += s.steps - st0; }
}

State* Exec::nextWork() {
    // the case that has consumed the least time goes next
    int best = -1;
    for (size_t i = 0; i < work.size(); ++i) if (!work[i].empty() && (best < 0 || cst[i].secs < cst[best].secs)) best = (int)i;
    if (best < 0) return nullptr;
    State* s = work[best].back();
    work[best].pop_back();
    return s;
}

static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static std::string hex(const std::vector<uint8_t>& b) { std::string r; char t[4]; for (auto x : b) { snprintf(t, 4, "%02x", x); r += t; } return r; }

void Exec::sample(State& s) {
    int& n = sampleCount[s.caseId];
    ++n;
    bool take = n <= opt.samplesPerCase;
    int slot = -1;
    if (!take) { if (rng() % (n + 1) < (uint64_t)opt.samplesPerCase) { slot = (int)(rng() % opt.samplesPerCase); take = true; } }
    if (!take) return;
    std::string j = "{\"case\":\"" + jesc(cases[s.caseId].name) + "\",\"inputs\":[";
    bool first = true;
    for (auto& [nm, b] : inputsOf(s, s.cs.model)) { j += (first ? "" : ","); first = false; j += "[\"" + jesc(nm) + "\",\"" + hex(b) + "\"]"; }
    j += "],\"obs\":[";
    first = true;
    Evaluator ev(s.cs.model);
    for (auto& o : s.obs) {
        std::vector<uint8_t> b;
        for (auto& v : o.bytes) b.push_back(v.e ? (uint8_t)ev.eval(v.e) : (uint8_t)v.c);
        j += (first ? "" : ","); first = false;
        j += "[\"" + jesc(o.tag) + "\",\"" + hex(b) + "\"]";
    }
    j += "],\"constraints\":" + std::to_string(s.cs.list.size()) + ",\"steps\":" + std::to_string(s.steps) + "}";
    // keep per-case slots
    std::string tagged = std::to_string(s.caseId) + "\t" + j;
    if (slot < 0) samples.push_back(tagged);
    else {
        int k = 0;
        for (auto& x : samples) if (x.compare(0, std::to_string(s.caseId).size() + 1, std::to_string(s.caseId) + "\t") == 0 && k++ == slot) { x = tagged; return; }
    }
}

void Exec::writeResults() {
    std::ofstream o(opt.outDir + "/proc" + std::to_string(procIndex) + ".json");
    o << "{\"proc\":" << procIndex << ",\"steps\":" << totalSteps << ",\"forks\":" << totalForks << ",\"merges\":" << merges << ",\"exprs\":" << exprCount()
      << ",\"solver\":{\"queries\":" << g_stats.queries << ",\"z3\":" << g_stats.z3 << ",\"sat\":" << g_stats.z3sat << ",\"unsat\":" << g_stats.z3unsat
      << ",\"unknown\":" << g_stats.z3unknown << ",\"cache\":" << g_stats.cacheHits << ",\"bytedomain\":" << g_stats.byteDomain << ",\"trivial\":" << g_stats.trivial << ",\"model\":" << g_stats.modelHits << ",\"seconds\":" << g_stats.z3seconds << "}";
    o << ",\"cases\":[";
    for (size_t i = 0; i < cases.size(); ++i) {
        auto& c = cst[i];
        o << (i ? "," : "") << "{\"name\":\"" << jesc(cases[i].name) << "\",\"paths\":" << c.paths << ",\"errors\":" << c.errors << ",\"killed\":" << c.killed
          << ",\"incomplete\":" << c.incomplete << ",\"steps\":" << c.steps << ",\"forks\":" << c.forks << ",\"secs\":" << c.secs << ",\"asserts\":" << c.asserts
          << ",\"assertQueries\":" << c.assertQueries << ",\"assertTrivial\":" << c.assertTrivial << ",\"why\":{";
        bool f = true;
        for (auto& [k, v] : c.incompleteWhy) { o << (f ? "" : ",") << "\"" << jesc(k) << "\":" << v; f = false; }
        o << "},\"reach\":{"; f = true;
        for (auto& [k, v] : c.reach) { o << (f ? "" : ",") << "\"" << jesc(k) << "\":" << v; f = false; }
        o << "},\"assertMsgs\":{"; f = true;
        for (auto& [k, v] : c.assertMsgs) { o << (f ? "" : ",") << "\"" << jesc(k) << "\":" << v; f = false; }
        o << "}}";
    }
    o << "],\"violations\":[";
    for (size_t i = 0; i < viols.size(); ++i) {
        auto& v = viols[i];
        o << (i ? "," : "") << "{\"case\":\"" << jesc(cases[v.caseId].name) << "\",\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"stack\":\"" << jesc(v.stack) << "\",\"inputs\":[";
        bool f = true;
        for (auto& [n, b] : v.inputs) { o << (f ? "" : ",") << "[\"" << jesc(n) << "\",\"" << hex(b) << "\"]"; f = false; }
        o << "]}";
    }
    o << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << samples[i].substr(samples[i].find('\t') + 1);
    o << "],\"functions\":[";
    bool f = true;
    for (auto& [F, d] : fmap) if (d->entered && d->inRepo) { o << (f ? "" : ",") << "\"" << jesc(llvm::demangle(d->name)) << "\""; f = false; }
    o << "],\"hot\":[";
    std::vector<std::pair<unsigned, std::string>> hot;
    for (auto& [F, d] : fmap) for (auto& b : d->bb) for (auto& x : b.in) if (x.forks) {
        std::string l = llvm::demangle(d->name).substr(0, 100);
        if (auto& dl = x.I->getDebugLoc()) l += ":" + std::to_string(dl.getLine());
        hot.push_back({x.forks, l});
    }
    std::sort(hot.rbegin(), hot.rend());
    for (size_t i = 0; i < hot.size() && i < 12; ++i) o << (i ? "," : "") << "[" << hot[i].first << ",\"" << jesc(hot[i].second) << "\"]";
    o << "]}\n";
}

int Exec::run(const std::vector<CaseDef>& cs) {
    cases = cs;
    cst.resize(cases.size());
    work.resize(cases.size());
    sampleCount.resize(cases.size());
    shared = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    SH(shared)->active = 1; SH(shared)->nextProc = 1; SH(shared)->stop = 0; SH(shared)->maxWorkers = opt.workers;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    // initialisation: global constructors run concretely
    State init;
    init.mem = initMem;
    if (auto* gv = M.getGlobalVariable("llvm.global_ctors")) {
        if (gv->hasInitializer() && isa<ConstantArray>(gv->getInitializer())) {
            std::vector<std::pair<uint64_t, Function*>> ctors;
            auto* ca = cast<ConstantArray>(gv->getInitializer());
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
                auto* e = ca->getOperand(i);
                if (auto* F = dyn_cast<Function>(cast<Constant>(e->getOperand(1))->stripPointerCasts()))
                    ctors.push_back({cast<ConstantInt>(e->getOperand(0))->getZExtValue(), F});
            }
            std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& [p, F] : ctors) {
                init.done = false;
                callFn(init, getFn(F), {}, false);
                while (step(init)) {}
                init.st.clear();
            }
        }
    }
    init.done = false;
    initPhase = false;
    Function* mainF = M.getFunction(opt.entry);
    if (!mainF || mainF->isDeclaration()) { fprintf(stderr, "ionsym: no entry %s\n", opt.entry.c_str()); return 2; }
    DFunc* md = getFn(mainF);
    deadline = nowS() + opt.timeBudget;
    for (size_t i = cases.size(); i-- > 0;) {
        State* st = new State(init);
        st->id = nextState++;
        st->caseId = (int)i;
        st->steps = 0;
        callFn(*st, md, {}, false);
        push(st);
    }
    while (true) {
        if (nowS() - lastSplit > 0.02) { maybeSplit(); g_abandon = false; }
        State* st = nextWork();
        if (!st) break;
        if (nowS() > deadline || SH(shared)->stop.load()) {
            incomplete(*st, SH(shared)->stop.load() ? "stopped after a violation" : "time budget");
            delete st;
            continue;
        }
        runState(*st);
        if (g_abandon) { g_abandon = false; continue; }   // child process: the running state stays with the parent
        if (st->st.empty()) { ++cst[st->caseId].paths; sample(*st); }
        else ++cst[st->caseId].killed;
        delete st;
    }
    writeResults();
    int crashed = 0;
    if (procIndex == 0) {
        SH(shared)->active.fetch_sub(1);
        int stt; pid_t p;
        while ((p = waitpid(-1, &stt, 0)) > 0) if (WIFSIGNALED(stt) || (WIFEXITED(stt) && WEXITSTATUS(stt))) ++crashed;
        std::ofstream o(opt.outDir + "/summary.json");
        o << "{\"procs\":" << SH(shared)->nextProc.load() << ",\"crashed\":" << crashed << "}\n";
    } else {
        SH(shared)->active.fetch_sub(1);
        _exit(0);
    }
    return 0;
}
}  // namespace sym
