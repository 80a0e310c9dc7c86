// ionsym: symbolic executor for LLVM IR.
#pragma once
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <random>
#include <set>

namespace sym {

struct Op { int32_t reg = -1; Val cv; };
struct DFunc;
struct DInst {
    unsigned opc = 0;
    unsigned sub = 0;
    unsigned w = 0, w2 = 0;         // widths (bits)
    int32_t dst = -1;
    std::vector<Op> ops;
    std::vector<std::pair<int, uint64_t>> gep;   // op index, scale
    uint64_t imm = 0;
    std::vector<int> targets;                    // block indices
    std::vector<uint64_t> cases;
    std::vector<unsigned> idx;
    const llvm::Instruction* I = nullptr;
    DFunc* callee = nullptr;
    bool flag = false;
    unsigned execs = 0;
    unsigned forks = 0;
    unsigned mergeTry = 0, mergeOk = 0;
};
struct PhiMove { int32_t dst; Op op; };
struct DBlock {
    std::vector<DInst> in;
    std::map<int, std::vector<PhiMove>> phis;   // by predecessor
    int lpad = -1;
    std::vector<int> loops;                      // headers of the loops the block is in
};
struct State;
class Exec;
using Builtin = void (Exec::*)(State&, DInst&, std::vector<Val>&);
struct DFunc {
    llvm::Function* F = nullptr;
    std::string name;
    std::vector<DBlock> bb;
    unsigned nregs = 0;
    bool decoded = false;
    Builtin builtin = nullptr;
    uint32_t objId = 0;
    bool entered = false;
    bool inRepo = false;
    uint64_t calls = 0;
};
struct Frame {
    DFunc* f = nullptr;
    int bb = 0, prev = -1;
    unsigned ip = 0;
    std::vector<Val> regs;
    std::vector<uint32_t> allocas;
    std::vector<Val> va;
    bool discardRet = false;       // return value not stored (destructor calls from the runtime)
    int after = 0;                 // action after return: 1 = free exception object
    uint64_t afterArg = 0;
};
struct ExcRec { uint64_t obj = 0, tinfo = 0, dtor = 0; int handlers = 0; bool rethrown = false; int64_t adj = 0; };
struct InputRec { std::string name; std::vector<uint32_t> vars; };
struct ObsRec { std::string tag; std::vector<Val> bytes; };

struct State {
    uint64_t id = 0;
    int caseId = 0;
    std::vector<Frame> st;
    Mem mem;
    Constraints cs;
    std::vector<ExcRec> exc;
    std::vector<uint64_t> caught;
    uint64_t curExc = 0, curAdj = 0; int32_t curSel = 0;
    int uncaught = 0;
    std::vector<InputRec> inputs;
    std::vector<ObsRec> obs;
    std::vector<std::string> notes;
    uint64_t steps = 0, stepLimit = 0;   // stepLimit: absolute step number, 0 = none
    uint64_t forks = 0;
    std::map<uint32_t, unsigned> conc;
    bool done = false;
    std::map<std::string, int> nameCount;
    uint64_t allocLimitBase = 0;
};

struct Violation { std::string kind, msg, where, stack; int caseId; std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs; std::string smt; };

struct CaseStats {
    uint64_t paths = 0, errors = 0, killed = 0, incomplete = 0, steps = 0, forks = 0, asserts = 0, assertQueries = 0, assertTrivial = 0;
    double secs = 0;
    std::map<std::string, uint64_t> incompleteWhy;
    std::map<std::string, uint64_t> reach;
    std::map<std::string, uint64_t> assertMsgs;
};
struct CaseDef { std::string name; std::vector<int64_t> params; };

struct Options {
    std::string entry = "harness_main";
    double timeBudget = 60;
    double pathSecs = 30;
    int workers = 8;
    int samplesPerCase = 6;
    int maxViolations = 4;
    uint64_t seed = 1;
    uint64_t maxStepsPerPath = 60000000;
    std::string outDir;
    bool verbose = false;
    unsigned concLimit = 300;
};

class Exec {
public:
    Exec(llvm::Module& m, Options& o);
    int run(const std::vector<CaseDef>& cases);
    Options& opt;
private:
    friend struct State;
    llvm::Module& M;
    const llvm::DataLayout& DL;
    std::unordered_map<const llvm::Function*, DFunc*> fmap;
    std::unordered_map<uint32_t, DFunc*> fobj;
    std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
    std::vector<const llvm::GlobalVariable*> tinfos;
    std::unordered_map<uint64_t, int> tid;
    Mem initMem;
    uint64_t errnoAddr = 0;
    std::vector<CaseDef> cases;
    std::vector<CaseStats> cst;
    std::vector<std::vector<State*>> work;   // per case
    std::vector<std::string> samples;
    std::vector<int> sampleCount;
    std::vector<Violation> viols;
    std::map<std::string, int> violSeen;
    uint64_t totalSteps = 0, totalForks = 0, nextState = 1, statesCreated = 0;
    std::mt19937_64 rng;
    double deadline = 0;
    bool initPhase = true;
    int branchFeasible(State& s, E c, Assignment& other);   // 0/1: only that side; 2: both (other: a model of the side the state's model is not on)

    // decoding
    DFunc* getFn(llvm::Function* F);
    void decode(DFunc* f);
    Val constVal(const llvm::Constant* C);
    uint64_t globalAddr(const llvm::GlobalValue* g);
    void initGlobal(Mem& m, uint64_t addr, const llvm::Constant* C);
    unsigned width(llvm::Type* t) const;
    Op mkOp(DFunc* f, const llvm::Value* v, std::unordered_map<const llvm::Value*, int>& regs);

    // execution
    void runState(State& s);
    bool step(State& s);        // false when the state ended
    Val get(Frame& f, const Op& o) { return o.reg >= 0 ? f.regs[o.reg] : o.cv; }
    E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
    Val simp(State& s, Val v) { if (v.e) { auto it = s.cs.known.find(v.e->id); if (it != s.cs.known.end()) return Val(it->second); } return v; }
    Val binop(State& s, unsigned op, unsigned w, const Val& a, const Val& b, bool& bad);
    Val fbinop(State& s, unsigned op, unsigned w, const Val& a, const Val& b, bool& bad);
    Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b);
    Val castOp(State& s, unsigned op, unsigned sw, unsigned dw, const Val& a, bool& bad);
    bool elementwise(State& s, DInst& d, Frame& f);
    void setReg(Frame& f, int32_t dst, Val v) { if (dst >= 0) f.regs[dst] = std::move(v); }
    void jump(State& s, int bb);
    int branch(State& s, E cond);       // 0/1 for this state; may push the other side
    bool concretize(State& s, const Val& v, unsigned w, uint64_t& out);  // may push others; false: state was dropped
    bool assume(State& s, E cond);      // false: infeasible
    void check(State& s, E cond, const std::string& kind, const std::string& msg);  // report when cond can be false, then assume it
    State* clone(State& s);
    struct SpecStore { uint64_t addr; unsigned bytes, bits; Val v; bool ptr; };
    struct SpecTrace { std::vector<int> bb; std::vector<size_t> nst; std::vector<std::vector<Val>> phis; std::vector<SpecStore> st; };
    void specRun(State& a, int target, SpecTrace& t);
    bool tryMerge(State& s, DInst& d, E cond, int tb, int fb);
    uint64_t merges = 0;
    void push(State* s);
    void endPath(State& s, const char* why);
    void incomplete(State& s, const std::string& why);
    void error(State& s, const std::string& kind, const std::string& msg, const Assignment& m);
    void fatal(State& s, const std::string& kind, const std::string& msg);   // error on this very path, ends it
    std::string where(State& s, std::string* stack);
    std::vector<std::pair<std::string, std::vector<uint8_t>>> inputsOf(State& s, const Assignment& m);
    void sample(State& s);

    // memory
    bool loadMem(State& s, const Val& addr, unsigned bytes, unsigned bits, Val& out);
    bool storeMem(State& s, const Val& addr, unsigned bytes, unsigned bits, const Val& v);
    bool loadTy(State& s, const Val& addr, llvm::Type* t, Val& out);
    bool storeTy(State& s, const Val& addr, llvm::Type* t, const Val& v);
    E readE(const Obj* o, uint32_t off, unsigned bytes);
    struct SymAcc { E ok; E val; };
    SymAcc loadSym(State& s, E addr, unsigned bytes, int& budget, std::unordered_map<uint32_t, SymAcc>& memo, bool& giveup);
    E okStore(State& s, E addr, unsigned bytes, int& budget, bool& giveup);
    void doStoreSym(State& s, E addr, unsigned bytes, E v, E guard);
    bool baseOf(State& s, E addr, uint32_t& id);
    const Obj* objAt(State& s, uint64_t addr, uint64_t n, std::string& why, bool write);
    uint64_t newObj(State& s, uint64_t size, OK kind, uint8_t fill, const char* name) { return Mem::addr(s.mem.alloc(size, kind, fill, name)); }
    bool doFree(State& s, uint64_t addr, OK kind);
    bool cstrArg(State& s, const Val& v, std::string& out);
    bool readCStr(State& s, uint64_t addr, std::string& out);
    void memcpyBytes(State& s, uint64_t d, uint64_t src, uint64_t n);
    bool getByte(State& s, uint64_t a, Val& v);

    // calls
    void doCall(State& s, DInst& d, DFunc* f, std::vector<Val>& args);
    void doReturn(State& s, bool hasVal, Val v);
    void finishCall(State& s, DInst& d, Val v);   // store result and advance (call or invoke)
    void popFrame(State& s);
    void unwind(State& s, uint64_t exc, bool popTop);
    bool tiMatch(State& s, uint64_t thrown, uint64_t handler, int64_t& adj);
    bool tiWalk(State& s, uint64_t t, uint64_t target, int64_t off, int64_t& adj);
    bool landingMatches(State& s, Frame& f, DInst& lp, uint64_t tinfo, int32_t& sel, int64_t& adj, bool& cleanup);
    void callFn(State& s, DFunc* f, std::vector<Val> args, bool discard, int after = 0, uint64_t afterArg = 0);
    int typeId(uint64_t addr);
    bool intrinsic(State& s, DInst& d, std::vector<Val>& a, unsigned iid);
    void registerBuiltins();
    std::unordered_map<std::string, Builtin> btab;

    // scheduling
    State* nextWork();
    void writeResults();
    void* shared = nullptr;
    int procIndex = 0;
    unsigned rr = 0;
    double lastSplit = 0;
    void maybeSplit();

public:
#define B(n) void b_##n(State&, DInst&, std::vector<Val>&)
    B(make); B(choose); B(assume); B(assert_); B(observe); B(reach); B(param); B(concretize); B(steplimit); B(heaplive); B(heapcount); B(isengine); B(end); B(note); B(fail); B(objsize);
    B(mallocf); B(calloc); B(realloc); B(freef); B(newf); B(newarr); B(delf); B(delarr);
    B(memcpyf); B(memmove); B(memset); B(memcmp); B(bcmp); B(memchr); B(strlen);
    B(abort); B(exitf); B(assertfail); B(gassert);
    B(cxa_alloc); B(cxa_freeexc); B(cxa_throw); B(cxa_begin); B(cxa_end); B(cxa_rethrow); B(cxa_getptr); B(guardacq); B(guardrel); B(zero); B(errno_); B(terminate); B(purevirt); B(uncaught); B(dyncast); B(getenv); B(putsf); B(allocalimit); B(objmem); B(symq); B(ptrkind);
#undef B
};
}  // namespace sym
