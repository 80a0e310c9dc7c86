// ionsym: IR decoding, constants and globals.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
using namespace llvm;

namespace sym {

unsigned Exec::width(Type* t) const {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}

Exec::Exec(Module& m, Options& o) : opt(o), M(m), DL(m.getDataLayout()), rng(o.seed) {
    registerBuiltins();
    // objects: functions and globals get addresses first, then initialisers are evaluated
    for (Function& F : M) {
        DFunc* d = new DFunc;
        d->F = &F;
        d->name = F.getName().str();
        d->objId = initMem.alloc(1, OK::Func, 0, d->name.c_str());
        fmap[&F] = d;
        fobj[d->objId] = d;
        gaddr[&F] = Mem::addr(d->objId);
    }
    for (GlobalVariable& G : M.globals()) {
        uint64_t sz = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
        if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
        auto* nm = new std::string(G.getName().str());
        uint32_t id = initMem.alloc(sz, OK::Global, 0, nm->c_str());
        gaddr[&G] = Mem::addr(id);
    }
    for (GlobalAlias& A : M.aliases()) {
        const GlobalObject* b = A.getAliaseeObject();
        if (b && gaddr.count(b)) gaddr[&A] = gaddr[b];
        if (auto* F = dyn_cast_or_null<Function>(b)) (void)F;
    }
    for (GlobalVariable& G : M.globals()) {
        if (G.hasInitializer()) {
            initGlobal(initMem, gaddr[&G], G.getInitializer());
            if (G.isConstant()) initMem.wget((uint32_t)(gaddr[&G] >> 32) - 1)->ro = true;
        }
    }
    uint32_t eid = initMem.alloc(4, OK::Static, 0, "errno");
    errnoAddr = Mem::addr(eid);
}

uint64_t Exec::globalAddr(const GlobalValue* g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    return 0;
}

Val Exec::constVal(const Constant* C) {
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
        const APInt& a = ci->getValue();
        if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
        std::vector<uint64_t> l(a.getRawData(), a.getRawData() + a.getNumWords());
        return Val::ex(mkConstWide(l, a.getBitWidth()));
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        return Val(a.getBitWidth() <= 64 ? a.getZExtValue() : a.getRawData()[0]);
    }
    if (isa<ConstantPointerNull>(C)) return Val(0);
    if (auto* g = dyn_cast<GlobalValue>(C)) return Val(globalAddr(g));
    Type* t = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            Val v; v.g = Ref<Agg>(new Agg);
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; ++i) v.g->v.push_back(constVal(C->getAggregateElement(i)));
            return v;
        }
        return Val(0);
    }
    if (isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
        Val v; v.g = Ref<Agg>(new Agg);
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) v.g->v.push_back(constVal(C->getAggregateElement(i)));
        return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(DL, off)) break;
                return Val(constVal(cast<Constant>(gep->getPointerOperand())).c + off.getZExtValue());
            }
            case Instruction::PtrToInt: case Instruction::Trunc: {
                Val v = constVal(ce->getOperand(0));
                return Val(v.c & maskw(width(t)));
            }
            case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
            case Instruction::Add: return Val((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(width(t)));
            case Instruction::Sub: return Val((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(width(t)));
            case Instruction::Xor: return Val((constVal(ce->getOperand(0)).c ^ constVal(ce->getOperand(1)).c) & maskw(width(t)));
            default: break;
        }
    }
    if (auto* b = dyn_cast<BlockAddress>(C)) { (void)b; return Val(0); }
    if (isa<NoCFIValue>(C) || isa<DSOLocalEquivalent>(C)) return Val(0);
    errs() << "ionsym: unsupported constant " << *C << "\n";
    return Val(0);
}

void Exec::initGlobal(Mem& m, uint64_t addr, const Constant* C) {
    Type* t = C->getType();
    uint32_t id = (uint32_t)(addr >> 32) - 1, off = (uint32_t)addr;
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(C)) {
        StringRef raw = cds->getRawDataValues();
        if (raw.size()) m.wget(id)->writeRaw(off, (const uint8_t*)raw.data(), raw.size());
        return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) initGlobal(m, addr + sl->getElementOffset(i), C->getAggregateElement(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t es = DL.getTypeAllocSize(et).getFixedValue();
        for (unsigned i = 0; i < n; ++i) initGlobal(m, addr + i * es, C->getAggregateElement(i));
        return;
    }
    Val v = constVal(C);
    unsigned bytes = DL.getTypeStoreSize(t).getFixedValue();
    if (v.e) {  // wide constant
        for (unsigned i = 0; i < bytes; ++i) m.wget(id)->setByte(off + i, (uint8_t)mkExtract(v.e, i * 8, 8)->cval, nullptr);
        return;
    }
    uint8_t b[16] = {};
    memcpy(b, &v.c, 8);
    m.wget(id)->writeRaw(off, b, std::min(bytes, 16u));
}

DFunc* Exec::getFn(Function* F) {
    DFunc* d = fmap[F];
    if (!d->decoded) decode(d);
    return d;
}

Op Exec::mkOp(DFunc* f, const Value* v, std::unordered_map<const Value*, int>& regs) {
    Op o;
    if (auto* C = dyn_cast<Constant>(v)) { o.cv = constVal(C); return o; }
    auto it = regs.find(v);
    if (it != regs.end()) { o.reg = it->second; return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
    errs() << "ionsym: no register for " << *v << " in " << f->name << "\n";
    return o;
}

void Exec::decode(DFunc* d) {
    d->decoded = true;
    Function* F = d->F;
    // strip alias indirection and model substitution
    if (F->isDeclaration()) {
        if (Function* m = M.getFunction("ion_model_" + d->name); m && !m->isDeclaration()) {
            DFunc* md = getFn(m);
            *d = *md;   // shares decoded body
            return;
        }
        auto it = btab.find(d->name);
        if (it != btab.end()) d->builtin = it->second;
        return;
    }
    // a definition may also be overridden by a builtin (sym_* and runtime hooks never have bodies)
    std::unordered_map<const Value*, int> regs;
    std::unordered_map<const BasicBlock*, int> bbs;
    int n = 0;
    for (Argument& A : F->args()) regs[&A] = n++;
    int bi = 0;
    for (BasicBlock& B : *F) {
        bbs[&B] = bi++;
        for (Instruction& I : B) if (!I.getType()->isVoidTy()) regs[&I] = n++;
    }
    d->nregs = n;
    d->bb.resize(bi);
    if (auto* sp = F->getSubprogram()) {
        std::string fn = sp->getFile() ? (sp->getFile()->getDirectory().str() + "/" + sp->getFile()->getFilename().str()) : "";
        if (sp->getFile() && sp->getFile()->getFilename().starts_with("/")) fn = sp->getFile()->getFilename().str();
        d->inRepo = fn.find("/repo/") == 0 || fn.find("/repo/") != std::string::npos;
        if (fn.find("/verif/") != std::string::npos) d->inRepo = false;
    }
    {
        DominatorTree dt(*F);
        LoopInfo li(dt);
        for (BasicBlock& B : *F)
            for (Loop* l = li.getLoopFor(&B); l; l = l->getParentLoop()) d->bb[bbs[&B]].loops.push_back(bbs[l->getHeader()]);
    }
    for (BasicBlock& B : *F) {
        DBlock& db = d->bb[bbs[&B]];
        for (Instruction& I : B) {
            if (auto* p = dyn_cast<PHINode>(&I)) {
                for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                    db.phis[bbs[p->getIncomingBlock(i)]].push_back({regs[p], mkOp(d, p->getIncomingValue(i), regs)});
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                switch (ii->getIntrinsicID()) {
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
                    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
                    case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::pseudoprobe:
                        continue;
                    default: break;
                }
            }
            DInst x;
            x.I = &I;
            x.opc = I.getOpcode();
            if (!I.getType()->isVoidTy()) { x.dst = regs[&I]; x.w = width(I.getType()); }
            if (isa<LandingPadInst>(&I)) db.lpad = (int)db.in.size();
            switch (I.getOpcode()) {
                case Instruction::Br: {
                    auto* b = cast<BranchInst>(&I);
                    if (b->isConditional()) x.ops.push_back(mkOp(d, b->getCondition(), regs));
                    for (unsigned i = 0; i < b->getNumSuccessors(); ++i) x.targets.push_back(bbs[b->getSuccessor(i)]);
                    break;
                }
                case Instruction::Switch: {
                    auto* sw = cast<SwitchInst>(&I);
                    x.ops.push_back(mkOp(d, sw->getCondition(), regs));
                    x.w = width(sw->getCondition()->getType());
                    x.targets.push_back(bbs[sw->getDefaultDest()]);
                    for (auto& c : sw->cases()) { x.targets.push_back(bbs[c.getCaseSuccessor()]); x.cases.push_back(c.getCaseValue()->getZExtValue()); }
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto* g = cast<GEPOperator>(&I);
                    x.ops.push_back(mkOp(d, g->getPointerOperand(), regs));
                    MapVector<Value*, APInt> vo;
                    APInt co(64, 0);
                    if (I.getType()->isVectorTy() || !g->collectOffset(DL, 64, vo, co)) { x.flag = true; break; }
                    x.imm = co.getZExtValue();
                    for (auto& [v, sc] : vo) {
                        x.ops.push_back(mkOp(d, v, regs));
                        x.gep.push_back({(int)width(v->getType()), sc.getZExtValue()});
                    }
                    break;
                }
                case Instruction::Alloca: {
                    auto* a = cast<AllocaInst>(&I);
                    x.imm = DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue();
                    x.ops.push_back(mkOp(d, a->getArraySize(), regs));
                    x.w2 = width(a->getArraySize()->getType());
                    break;
                }
                case Instruction::Load: x.ops.push_back(mkOp(d, I.getOperand(0), regs)); x.w2 = DL.getTypeStoreSize(I.getType()).getFixedValue(); x.flag = width(I.getType()) == 0; break;
                case Instruction::Store: {
                    x.ops.push_back(mkOp(d, I.getOperand(0), regs)); x.ops.push_back(mkOp(d, I.getOperand(1), regs));
                    Type* t = I.getOperand(0)->getType();
                    x.w = width(t); x.w2 = DL.getTypeStoreSize(t).getFixedValue(); x.flag = x.w == 0;
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto* cb = cast<CallBase>(&I);
                    for (auto& a : cb->args()) x.ops.push_back(mkOp(d, a.get(), regs));
                    x.ops.push_back(mkOp(d, cb->getCalledOperand(), regs));
                    if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.targets.push_back(bbs[iv->getNormalDest()]); x.targets.push_back(bbs[iv->getUnwindDest()]); }
                    if (Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) x.callee = fmap[cf];
                    else if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) {
                        if (auto* cf2 = dyn_cast_or_null<Function>(ga->getAliaseeObject())) x.callee = fmap[cf2];
                    }
                    if (isa<InlineAsm>(cb->getCalledOperand())) x.flag = true;
                    break;
                }
                case Instruction::ICmp: case Instruction::FCmp:
                    x.sub = cast<CmpInst>(&I)->getPredicate();
                    x.w2 = width(I.getOperand(0)->getType());
                    x.ops.push_back(mkOp(d, I.getOperand(0), regs)); x.ops.push_back(mkOp(d, I.getOperand(1), regs));
                    break;
                case Instruction::ExtractValue: for (unsigned i : cast<ExtractValueInst>(&I)->indices()) x.idx.push_back(i); x.ops.push_back(mkOp(d, I.getOperand(0), regs)); break;
                case Instruction::InsertValue: for (unsigned i : cast<InsertValueInst>(&I)->indices()) x.idx.push_back(i); x.ops.push_back(mkOp(d, I.getOperand(0), regs)); x.ops.push_back(mkOp(d, I.getOperand(1), regs)); break;
                case Instruction::ShuffleVector: {
                    auto* sv = cast<ShuffleVectorInst>(&I);
                    for (int m : sv->getShuffleMask()) x.idx.push_back((unsigned)m);
                    x.imm = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
                    x.ops.push_back(mkOp(d, I.getOperand(0), regs)); x.ops.push_back(mkOp(d, I.getOperand(1), regs));
                    break;
                }
                case Instruction::LandingPad: {
                    auto* lp = cast<LandingPadInst>(&I);
                    x.flag = lp->isCleanup();
                    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                        x.ops.push_back(Op{-1, constVal(lp->getClause(i))});
                        x.idx.push_back(lp->isCatch(i) ? 1 : 0);
                    }
                    break;
                }
                case Instruction::AtomicRMW: x.sub = cast<AtomicRMWInst>(&I)->getOperation(); x.w2 = DL.getTypeStoreSize(I.getType()).getFixedValue(); x.ops.push_back(mkOp(d, I.getOperand(0), regs)); x.ops.push_back(mkOp(d, I.getOperand(1), regs)); break;
                case Instruction::AtomicCmpXchg: {
                    Type* t = I.getOperand(1)->getType(); x.w = width(t); x.w2 = DL.getTypeStoreSize(t).getFixedValue();
                    for (unsigned i = 0; i < 3; ++i) x.ops.push_back(mkOp(d, I.getOperand(i), regs));
                    break;
                }
                default:
                    for (Value* v : I.operands()) if (!isa<BasicBlock>(v)) x.ops.push_back(mkOp(d, v, regs));
                    if (I.isCast()) x.w2 = width(I.getOperand(0)->getType());
                    break;
            }
            db.in.push_back(std::move(x));
        }
    }
}
}  // namespace sym
